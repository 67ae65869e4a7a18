//! A scenario: everything that happens on the simulated machine, as explicit data. Executing one needs
//! no random choice beyond the seeds written in it.
use crate::rng::Rng;
use crate::world::{Fault, Sched};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Content {
    Lit(String),
    /// lines of words
    Text { seed: u64, lines: u64 },
    Bin { seed: u64, len: u64 },
    Fill { byte: u8, len: u64 },
    /// filler without chunk boundaries
    Quiet { len: u64 },
    /// 64 bytes after which the rolling hash has at least this many leading zeros
    Zeros(u32),
    Cat(Vec<Content>),
    Rep(Box<Content>, u64),
}

const WORDS: [&str; 24] = [
    "alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "nu", "xi",
    "omicron", "pi", "rho", "sigma", "tau", "upsilon", "phi", "chi", "psi", "omega",
];

impl Content {
    pub fn make(&self) -> Vec<u8> {
        let mut v = vec![];
        self.put(&mut v);
        v
    }
    pub fn arc(&self) -> Arc<Vec<u8>> {
        Arc::new(self.make())
    }
    fn put(&self, out: &mut Vec<u8>) {
        match self {
            Content::Lit(s) => out.extend_from_slice(s.as_bytes()),
            Content::Text { seed, lines } => {
                let mut r = Rng::new(*seed);
                for i in 0..*lines {
                    out.extend_from_slice(r.pick(&WORDS).as_bytes());
                    out.push(b' ');
                    out.extend_from_slice(r.pick(&WORDS).as_bytes());
                    if r.chance(1, 3) {
                        out.extend_from_slice(format!(" {}", i).as_bytes());
                    }
                    out.push(b'\n');
                }
            }
            Content::Bin { seed, len } => {
                let mut r = Rng::new(*seed);
                let want = out.len() + *len as usize;
                while out.len() < want {
                    out.extend_from_slice(&r.next().to_le_bytes());
                }
                out.truncate(want);
            }
            Content::Fill { byte, len } => out.resize(out.len() + *len as usize, *byte),
            Content::Quiet { len } => crate::gear::quiet(*len as usize, out),
            Content::Zeros(n) => out.extend_from_slice(&crate::gear::zeros(*n)),
            Content::Cat(v) => {
                for c in v {
                    c.put(out);
                }
            }
            Content::Rep(c, n) => {
                let mut one = vec![];
                c.put(&mut one);
                for _ in 0..*n {
                    out.extend_from_slice(&one);
                }
            }
        }
    }
    pub fn size_hint(&self) -> u64 {
        match self {
            Content::Lit(s) => s.len() as u64,
            Content::Text { lines, .. } => lines * 12,
            Content::Bin { len, .. } | Content::Fill { len, .. } | Content::Quiet { len } => *len,
            Content::Zeros(_) => 64,
            Content::Cat(v) => v.iter().map(|c| c.size_hint()).sum(),
            Content::Rep(c, n) => c.size_hint() * n,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum EditOp {
    Write(Content),
    /// new content, old modification time put back
    WriteKeepTime(Content),
    /// same length, `off` and byte changed in place, optionally keeping the time
    Poke { off: u64, xor: u8, keep_time: bool },
    Append(Content),
    /// write to a new file and rename it over (new inode)
    Replace { content: Content, keep_time: bool },
    Mkdir,
    Remove,
    Rename(String),
    Link(String),
    Touch(i64),
    Chmod(u32),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum KeyRef {
    /// the idx-th newest entry of a ref of the repository (remote or "")
    Commit { refname: String, remote: String, back: u64 },
    /// its tree
    Tree { refname: String, remote: String, back: u64 },
    /// what the i-th successful insert of the scenario printed
    Inserted(u64),
    /// i-th of all stored objects, in key order
    Object(u64),
    /// i-th of all stored objects of a type
    Typed(String, u64),
    /// literal argument
    Raw(String),
    /// a ref by name
    Ref { refname: String, remote: String },
    /// first n characters of another key
    Prefix(Box<KeyRef>, u64),
    Upper(Box<KeyRef>),
    /// the key with its i-th character replaced
    Altered(Box<KeyRef>, u64),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Init,
    Insert { path: String },
    Commit { path: Option<String>, msg: String, refname: Option<String> },
    Fetch { key: KeyRef, dest: String },
    Show { key: Option<KeyRef> },
    Log { key: Option<KeyRef> },
    Compare { path: Option<String>, key: Option<KeyRef>, stat: bool },
    Status,
    Checkout,
    CheckoutHead { refname: String },
    RefLog { refname: Option<String>, remote: Option<String> },
    RefUpdate { key: KeyRef, refname: Option<String> },
    GetHead,
    SetHead { refname: String },
    ReflogGet { refname: String, remote: Option<String> },
    ReflogPush { key: KeyRef, refname: String, remote: Option<String> },
    PrettyPrint { key: KeyRef },
    WalkTree { key: KeyRef },
    WalkFs { path: String },
    CommitTree { tree: KeyRef, parents: Vec<KeyRef> },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct PSpec {
    pub cwd: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub db: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub excl: Vec<String>,
    pub cmd: Cmd,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Harm {
    Flip { seed: u64, bits: u64 },
    ZeroPage { seed: u64 },
    SwapPages { seed: u64 },
    /// a page goes back to what it was in an earlier version of the file
    StalePage { seed: u64 },
    Truncate { seed: u64 },
    Delete,
    Garbage { seed: u64, len: u64 },
    Empty,
    /// a directory takes the file's place
    Dir,
    Chmod(u32),
    /// whole file goes back to an earlier version
    OldVersion { seed: u64 },
    /// change a byte inside one stored value
    Value { seed: u64 },
    /// two places where objects have their keys trade those bytes, or one is copied over the other
    Cross { seed: u64 },
    /// change a byte in or right after a place where the i-th object of a type has its key
    Object { ty: String, i: u64, seed: u64 },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Target {
    /// database of this folder
    Db(String),
    Cache,
    CacheWal,
    CacheShm,
    CacheDir,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Edit { path: String, op: EditOp },
    Advance { ms: i64 },
    Run { procs: Vec<PSpec>, sched: Sched },
    Power { seed: u64 },
    Damage { target: Target, harm: Harm },
    /// the file system lists entries in another order from now on
    Salt(u64),
    /// every named file gets fresh inode numbers and timestamps (restored from a backup)
    Restore { path: String },
    Stream(crate::stream::StreamSpec),
    Store(crate::store::StoreSpec),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Machine {
    pub salt: u64,
    pub reuse: bool,
    /// timestamp granularity, ns
    pub gran: i64,
    pub cache_pages: i64,
    pub db_name: String,
    /// directories with their own device number
    pub mounts: Vec<(String, u32)>,
    pub dirs: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub profile: String,
    pub seed: u64,
    pub machine: Machine,
    pub steps: Vec<Step>,
}

impl KeyRef {
    pub fn prefix(self, n: u64) -> KeyRef {
        KeyRef::Prefix(Box::new(self), n)
    }
}

impl Cmd {
    pub fn name(&self) -> &'static str {
        match self {
            Cmd::Init => "init",
            Cmd::Insert { .. } => "insert",
            Cmd::Commit { .. } => "commit",
            Cmd::Fetch { .. } => "fetch",
            Cmd::Show { .. } => "show",
            Cmd::Log { .. } => "log",
            Cmd::Compare { .. } => "compare",
            Cmd::Status => "status",
            Cmd::Checkout => "checkout",
            Cmd::CheckoutHead { .. } => "checkout-head",
            Cmd::RefLog { .. } => "ref log",
            Cmd::RefUpdate { .. } => "ref update",
            Cmd::GetHead => "get-head",
            Cmd::SetHead { .. } => "set-head",
            Cmd::ReflogGet { .. } => "reflog-get",
            Cmd::ReflogPush { .. } => "reflog-push",
            Cmd::PrettyPrint { .. } => "pretty-print",
            Cmd::WalkTree { .. } => "walk-tree",
            Cmd::WalkFs { .. } => "walk-fs-tree",
            Cmd::CommitTree { .. } => "commit-tree",
        }
    }
}
