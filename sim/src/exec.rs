//! Carries out the steps of a scenario on the simulated machine and judges every observable result
//! against the model.
use crate::fs::*;
use crate::model::*;
use crate::observe::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::viol::Viol;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const CHECKOUT_ROOT: &[u8] = b"/home/jess/src/snapcd/repo";
const ORD: i64 = 0;

#[derive(Clone, Default, PartialEq, Debug)]
pub struct L {
    pub head: Option<String>,
    pub refs: BTreeMap<(String, Option<String>), Vec<String>>,
}

impl L {
    fn of(o: &Obs) -> L {
        L { head: o.head.clone(), refs: o.refs.clone() }
    }
    fn last(&self, r: &str, m: Option<&str>) -> Option<&String> {
        self.refs.get(&(r.to_string(), m.map(|x| x.to_string())))?.last()
    }
}

#[derive(Default)]
pub struct Repo {
    pub obs: Obs,
    /// keys printed by successful inserts
    pub acked: BTreeMap<String, ()>,
    pub hurt: bool,
    pub versions: Vec<Arc<Vec<u8>>>,
    seen: Option<(Option<Arc<Vec<u8>>>, Option<Arc<Vec<u8>>>)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Must {
    Ok,
    Fail,
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Effect {
    None,
    Init,
    Head(String),
    Push { refname: String, remote: Option<String>, key: String },
    Commit { refname: String, msg: String },
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub must: Must,
    pub why: String,
    pub effect: Effect,
}

struct Loc {
    joined: Vec<u8>,
    canon: String,
    repo: Vec<u8>,
}

pub struct Ctx {
    spec: PSpec,
    cwd: Id,
    cwd_path: Vec<u8>,
    loc: Option<Loc>,
    /// database folder this command works on
    target: String,
    keys: Vec<String>,
    args: Vec<Vec<u8>>,
    /// what the command reads, as spelled
    base: Option<Vec<u8>>,
    snap: Option<Snap>,
    /// paths (as in `snap`) that somebody changed while the command ran
    fuzzy: Vec<String>,
}

impl Ctx {
    fn raced(&self, p: &str) -> bool {
        let (p, q) = (p.as_bytes(), &self.fuzzy);
        q.iter().any(|f| f.is_empty() || under(p, f.as_bytes()) || under(f.as_bytes(), p))
    }
    fn stored_diff(&self, want: &Flat, got: &Flat) -> Option<String> {
        let vague = self.snap.as_ref().map_or(&[][..], |s| &s.vague[..]);
        if self.fuzzy.is_empty() && vague.is_empty() {
            return flat_diff(want, got);
        }
        let cut = |f: &Flat| f.iter().filter(|(p, _)| !self.raced(p) && !vague.iter().any(|v| p.strip_prefix(v.as_str()).map_or(false, |r| r.is_empty() || r.starts_with('/')))).map(|(p, x)| (p.clone(), x.clone())).collect::<Flat>();
        flat_diff(&cut(want), &cut(got))
    }
}

#[derive(Clone, PartialEq)]
struct Ent {
    kind: char,
    id: Id,
    data: Option<Arc<Vec<u8>>>,
    mtime: i64,
    mode: u32,
}

type FsMap = BTreeMap<Vec<u8>, Ent>;

pub struct Exec {
    pub w: Box<World>,
    pub machine: Machine,
    pub repos: BTreeMap<String, Repo>,
    pub inserted: Vec<(String, String)>,
    pub known: Known,
    pub dg: Digests,
    key_of: BTreeMap<String, String>,
    flat_of: BTreeMap<String, String>,
    pub faults_before: bool,
    pub cache_hurt: bool,
    pub log: Vec<String>,
    pub commands: u64,
    pub kinds: BTreeMap<String, u64>,
    store_db: BTreeMap<String, crate::store::Db>,
    store_paths: BTreeSet<String>,
    pub sink: Vec<Viol>,
}

pub type Res<T> = Result<T, HarnessError>;

fn s(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn clip(t: &str, n: usize) -> String {
    let mut o: String = t.chars().take(n).collect();
    if o.len() < t.len() {
        o.push('…');
    }
    o
}

fn own(cmd: &Cmd) -> &'static [&'static str] {
    match cmd {
        Cmd::Init => &["C16"],
        Cmd::Insert { .. } => &["C01", "C18"],
        Cmd::Commit { .. } => &["C01", "C18"],
        Cmd::Fetch { .. } => &["C09", "C01"],
        Cmd::Show { .. } | Cmd::Log { .. } => &["C19"],
        Cmd::Compare { .. } | Cmd::Status | Cmd::CheckoutHead { .. } => &["C08"],
        Cmd::Checkout => &["C10"],
        Cmd::RefLog { .. } | Cmd::RefUpdate { .. } | Cmd::GetHead | Cmd::SetHead { .. } | Cmd::ReflogGet { .. } | Cmd::ReflogPush { .. } => &["C13"],
        Cmd::PrettyPrint { .. } | Cmd::WalkTree { .. } | Cmd::CommitTree { .. } => &["C11", "C03"],
        Cmd::WalkFs { .. } => &["C05"],
    }
}

fn keyrefs(cmd: &Cmd) -> Vec<&KeyRef> {
    match cmd {
        Cmd::Fetch { key, .. } | Cmd::RefUpdate { key, .. } | Cmd::ReflogPush { key, .. } | Cmd::PrettyPrint { key } | Cmd::WalkTree { key } => vec![key],
        Cmd::Show { key } | Cmd::Log { key } | Cmd::Compare { key, .. } => key.iter().collect(),
        Cmd::CommitTree { tree, parents } => std::iter::once(tree).chain(parents.iter()).collect(),
        _ => vec![],
    }
}

const ALPHA: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";

#[derive(Clone, Debug, PartialEq)]
pub enum Found {
    Key(String),
    No(&'static str),
    Unsure,
}

/// What a key argument means.
pub fn resolve(arg: &str, keys: &BTreeSet<String>, st: &L) -> Found {
    if let Some(i) = arg.find('/') {
        let (remote, name) = (&arg[..i], &arg[i + 1..]);
        let m = if remote.is_empty() { None } else { Some(remote) };
        return match st.last(name, m) {
            Some(k) => Found::Key(k.clone()),
            None => Found::No("the ref has no entries"),
        };
    }
    if !arg.is_ascii() || !arg.starts_with('b') {
        return Found::No("not a key");
    }
    let low = format!("b{}", arg[1..].to_ascii_lowercase());
    if !low[1..].bytes().all(|c| ALPHA.contains(&c)) {
        return Found::No("not a key");
    }
    if low.len() > 53 {
        return Found::Unsure;
    }
    let hits: Vec<&String> = keys.range(low.clone()..).take_while(|k| k.starts_with(&low)).collect();
    match hits.len() {
        1 => Found::Key(hits[0].clone()),
        0 if low.len() == 53 && keys.iter().any(|k| k.starts_with(&low[..52])) => Found::Unsure,
        0 => Found::No("no object has that key"),
        _ => Found::No("the prefix is ambiguous"),
    }
}

impl Exec {
    pub fn new(m: &Machine, seed: u64) -> Box<Exec> {
        let mut w = Box::new(World::new(seed));
        w.fs.salt = m.salt;
        w.fs.reuse = m.reuse;
        w.fs.gran = m.gran;
        w.cache_pages = m.cache_pages;
        w.db_name = m.db_name.clone().into_bytes();
        let now = w.clock;
        for d in ["/tmp", "/var/tmp", "/home/jess"].iter().map(|x| x.to_string()).chain(m.dirs.iter().cloned()) {
            let _ = w.fs.mkdirs(d.as_bytes(), now);
        }
        for (d, dev) in &m.mounts {
            if let Ok(id) = w.fs.mkdirs(d.as_bytes(), now) {
                w.fs.mounts.insert(id, *dev);
            }
        }
        let mut e = Box::new(Exec {
            w,
            machine: m.clone(),
            repos: BTreeMap::new(),
            inserted: vec![],
            known: Known::default(),
            dg: Digests::default(),
            key_of: BTreeMap::new(),
            flat_of: BTreeMap::new(),
            faults_before: false,
            cache_hurt: false,
            log: vec![],
            commands: 0,
            kinds: BTreeMap::new(),
            store_db: BTreeMap::new(),
            store_paths: BTreeSet::new(),
            sink: vec![],
        });
        install(&mut *e.w);
        e
    }

    fn viol(&mut self, tags: &[&str], kind: &str, detail: String) {
        let mut v = Viol::new(tags, kind, detail);
        v.step = self.log.len();
        v.tags.sort();
        v.tags.dedup();
        self.sink.push(v);
    }

    fn locate(fs: &Fs, cwd: &[u8], name: &[u8]) -> Option<Loc> {
        let mut d = cwd.to_vec();
        let name = name.strip_suffix(b"/").unwrap_or(name);
        loop {
            let check = join(&d, name);
            if let Some(id) = fs.lookup(&check) {
                let cut = check.iter().rposition(|c| *c == b'/').unwrap_or(0);
                // Path::parent also drops a trailing "."
                let mut repo = check[..cut].to_vec();
                while repo.ends_with(b"/.") || repo.ends_with(b"/") {
                    let n = repo.iter().rposition(|c| *c == b'/').unwrap();
                    repo.truncate(n);
                }
                if repo.is_empty() {
                    repo.push(b'/');
                }
                let canon = s(&fs.path_of(id));
                return Some(Loc { joined: check, canon, repo });
            }
            if d == b"/" {
                return None;
            }
            let cut = d.iter().rposition(|c| *c == b'/').unwrap_or(0);
            d.truncate(cut.max(1));
        }
    }

    pub fn db_for(&self, cwd: &str, db: Option<&str>) -> Option<String> {
        let name = db.map_or_else(|| b".snapcd".to_vec(), unesc);
        let id = self.w.fs.lookup(&unesc(cwd))?;
        let cwd = self.w.fs.path_of(id);
        Exec::locate(&self.w.fs, &cwd, &name).map(|l| l.canon)
    }

    fn key_string(&self, db: &str, k: &KeyRef) -> Option<String> {
        let obs = self.repos.get(db).map(|r| &r.obs);
        let opt = |m: &str| if m.is_empty() { None } else { Some(m.to_string()) };
        Some(match k {
            KeyRef::Commit { refname, remote, back } | KeyRef::Tree { refname, remote, back } => {
                let l = obs?.refs.get(&(refname.clone(), opt(remote)))?;
                let i = (l.len() as u64).checked_sub(1 + back)?;
                let c = l[i as usize].clone();
                match k {
                    KeyRef::Commit { .. } => c,
                    _ => self.known.objs.get(&c)?.kids.get(0)?.clone(),
                }
            }
            KeyRef::Inserted(i) => {
                let v: Vec<&String> = self.inserted.iter().filter(|x| x.0 == db).map(|x| &x.1).collect();
                if v.is_empty() {
                    return None;
                }
                v[*i as usize % v.len()].clone()
            }
            KeyRef::Object(i) => {
                let n = obs?.keys.len();
                if n == 0 {
                    return None;
                }
                obs?.keys.iter().nth(*i as usize % n)?.clone()
            }
            KeyRef::Typed(t, i) => {
                let v: Vec<&String> = obs?.keys.iter().filter(|k| self.known.objs.get(*k).map_or(false, |o| o.ty == *t)).collect();
                if v.is_empty() {
                    return None;
                }
                v[*i as usize % v.len()].clone()
            }
            KeyRef::Raw(r) => r.clone(),
            KeyRef::Ref { refname, remote } => format!("{}/{}", remote, refname),
            KeyRef::Prefix(k, n) => {
                let k = self.key_string(db, k)?;
                k.chars().take((*n).max(1) as usize).collect()
            }
            KeyRef::Upper(k) => {
                let k = self.key_string(db, k)?;
                if k.contains('/') || k.is_empty() {
                    return None;
                }
                format!("{}{}", &k[..1], k[1..].to_ascii_uppercase())
            }
            KeyRef::Altered(k, i) => {
                let mut k = self.key_string(db, k)?.into_bytes();
                if k.len() < 2 {
                    return None;
                }
                let i = 1 + *i as usize % (k.len() - 1);
                let p = ALPHA.iter().position(|c| *c == k[i].to_ascii_lowercase())?;
                k[i] = ALPHA[(p + 1) % 32];
                String::from_utf8(k).ok()?
            }
        })
    }

    fn ctx(&mut self, spec: &PSpec) -> Option<Ctx> {
        let cwd_spec = unesc(&spec.cwd);
        let cwd = self.w.fs.lookup(&cwd_spec)?;
        if !self.w.fs.is_dir(cwd) {
            return None;
        }
        let cwd_path = self.w.fs.path_of(cwd);
        let name = spec.db.as_ref().map_or_else(|| b".snapcd".to_vec(), |d| unesc(d));
        let loc = Exec::locate(&self.w.fs, &cwd_path, &name);
        let target = match (&spec.cmd, &loc) {
            (Cmd::Init, _) => s(&absolute(&cwd_path, &name)),
            (_, Some(l)) => l.canon.clone(),
            _ => String::new(),
        };
        let mut keys = vec![];
        for k in keyrefs(&spec.cmd) {
            keys.push(self.key_string(&target, k)?);
        }
        let mut a: Vec<Vec<u8>> = vec![];
        if let Some(d) = &spec.db {
            a.push(b"-d".to_vec());
            a.push(unesc(d));
        }
        for e in &spec.excl {
            a.push(b"-e".to_vec());
            a.push(e.clone().into_bytes());
        }
        // what starts with a dash would be an option
        let path_arg = |p: &str| {
            let b = unesc(p);
            if b.first() == Some(&b'-') {
                join(b"./", &b)
            } else {
                b
            }
        };
        let mut ks = keys.iter().map(|k| k.clone().into_bytes());
        let t = |x: &str| x.as_bytes().to_vec();
        match &spec.cmd {
            Cmd::Init => a.push(t("init")),
            Cmd::Insert { path } => a.extend(vec![t("insert"), path_arg(path)]),
            Cmd::Commit { path, msg, refname } => {
                a.extend(vec![t("commit"), t("-m"), t(msg)]);
                if let Some(p) = path {
                    a.extend(vec![t("-p"), path_arg(p)]);
                }
                a.extend(refname.iter().map(|r| t(r)));
            }
            Cmd::Fetch { dest, .. } => a.extend(vec![t("fetch"), ks.next()?, path_arg(dest)]),
            Cmd::Show { .. } => {
                a.push(t("show"));
                a.extend(ks);
            }
            Cmd::Log { .. } => {
                a.push(t("log"));
                a.extend(ks);
            }
            Cmd::Compare { path, stat, .. } => {
                a.push(t("compare"));
                if let Some(p) = path {
                    a.extend(vec![t("-p"), path_arg(p)]);
                }
                if *stat {
                    a.push(t("-s"));
                }
                a.extend(ks);
            }
            Cmd::Status => a.push(t("status")),
            Cmd::Checkout => a.push(t("checkout")),
            Cmd::CheckoutHead { refname } => a.extend(vec![t("checkout-head"), t(refname)]),
            Cmd::RefLog { refname, remote } => {
                a.extend(vec![t("ref"), t("log")]);
                a.extend(refname.iter().map(|r| t(r)));
                if refname.is_some() {
                    a.extend(remote.iter().map(|r| t(r)));
                }
            }
            Cmd::RefUpdate { refname, .. } => {
                a.extend(vec![t("ref"), t("update"), ks.next()?]);
                a.extend(refname.iter().map(|r| t(r)));
            }
            Cmd::GetHead => a.extend(vec![t("debug"), t("get-head")]),
            Cmd::SetHead { refname } => a.extend(vec![t("debug"), t("set-head"), t(refname)]),
            Cmd::ReflogGet { refname, remote } => {
                a.extend(vec![t("debug"), t("reflog-get"), t(refname)]);
                a.extend(remote.iter().map(|r| t(r)));
            }
            Cmd::ReflogPush { refname, remote, .. } => {
                a.extend(vec![t("debug"), t("reflog-push"), ks.next()?, t(refname)]);
                a.extend(remote.iter().map(|r| t(r)));
            }
            Cmd::PrettyPrint { .. } => a.extend(vec![t("debug"), t("pretty-print"), ks.next()?]),
            Cmd::WalkTree { .. } => a.extend(vec![t("debug"), t("walk-tree"), ks.next()?]),
            Cmd::WalkFs { path } => a.extend(vec![t("debug"), t("walk-fs-tree"), path_arg(path)]),
            Cmd::CommitTree { .. } => {
                a.extend(vec![t("debug"), t("commit-tree")]);
                a.extend(ks);
            }
        }
        let base: Option<Vec<u8>> = match (&spec.cmd, &loc) {
            (Cmd::Insert { path }, Some(_)) | (Cmd::WalkFs { path }, Some(_)) => Some(unesc(path)),
            (Cmd::Commit { path: Some(p), .. }, Some(_)) | (Cmd::Compare { path: Some(p), .. }, Some(_)) => Some(unesc(p)),
            (Cmd::Commit { .. }, Some(l)) | (Cmd::Compare { .. }, Some(l)) | (Cmd::Status, Some(l)) | (Cmd::CheckoutHead { .. }, Some(l)) | (Cmd::Checkout, Some(l)) => {
                Some(l.repo.clone())
            }
            _ => None,
        };
        let snap = base.as_ref().map(|b| {
            let all = matches!(spec.cmd, Cmd::WalkFs { .. });
            let (db, excl) = if all { (b"\0".to_vec(), &[][..]) } else { (target.clone().into_bytes(), &spec.excl[..]) };
            View { fs: &self.w.fs, db, excl, all: false }.snap(&mut self.dg, cwd, b)
        });
        Some(Ctx { spec: spec.clone(), cwd, cwd_path, loc, target, keys, args: a, base, snap, fuzzy: vec![] })
    }

    fn job(c: &Ctx) -> Job<'static> {
        let args = c.args.clone();
        Job { cwd: c.cwd_path.clone(), faults: c.spec.faults.clone(), body: Box::new(move || crate::proc::cli(&args)) }
    }

    /// What would happen without faults (for placing them): operation counts of each process.
    pub fn dry(&mut self, specs: &[PSpec]) -> Res<Vec<Option<Outcome>>> {
        let mut out = vec![];
        for sp in specs {
            let mut c = match self.ctx(sp) {
                Some(c) => c,
                None => {
                    out.push(None);
                    continue;
                }
            };
            c.spec.faults.clear();
            let j = Exec::job(&c);
            out.push(Some(self.aside(j)?));
        }
        Ok(out)
    }

    /// Run one job on a copy of the machine.
    pub fn aside(&mut self, j: Job) -> Res<Outcome> {
        let mut copy = self.w.clone();
        copy.trace = None;
        install(&mut *copy);
        let r = run(&mut copy, vec![j], Sched::Fixed(vec![]));
        install(&mut *self.w);
        Ok(r?.remove(0))
    }

    // ---- looking at repositories ----

    fn raw_bytes(&self, path: &str) -> Option<Arc<Vec<u8>>> {
        let id = self.w.fs.lookup(path.as_bytes())?;
        self.w.fs.file(id).ok().map(|f| f.data.clone())
    }

    /// Re-read the repository if its files changed. `want`: trees to have decoded.
    fn refresh(&mut self, db: &str, want: &[String]) -> Res<()> {
        let file = format!("{}/snapcd.db", db);
        let now = (self.raw_bytes(&file), self.raw_bytes(&format!("{}-journal", file)));
        let want: Vec<String> = want.iter().filter(|k| !self.known.trees.contains_key(*k)).cloned().collect();
        let same = |a: &Option<Arc<Vec<u8>>>, b: &Option<Arc<Vec<u8>>>| match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => Arc::ptr_eq(a, b) || (a.len() < 1 << 20 && a == b),
            _ => false,
        };
        let r = self.repos.entry(db.to_string()).or_default();
        if r.hurt {
            return Ok(());
        }
        if want.is_empty() {
            if let Some(s) = &r.seen {
                if same(&s.0, &now.0) && same(&s.1, &now.1) {
                    return Ok(());
                }
            }
        }
        if let Some(d) = &now.0 {
            if r.versions.last().map_or(true, |l| !Arc::ptr_eq(l, d)) {
                r.versions.push(d.clone());
                if r.versions.len() > 5 {
                    r.versions.remove(0);
                }
            }
        }
        r.seen = Some(now);
        let (obs, failed) = observe(&self.w, &file, &mut self.known, &want)?;
        for (k, e) in failed {
            self.viol(&["C03", "C01"], "tree-unreadable", format!("{}: tree {} cannot be read: {}", db, k, clip(&e, 150)));
        }
        self.repos.get_mut(db).unwrap().obs = obs;
        Ok(())
    }

    /// C03: everything reachable is there, has the right type and hashes to its key.
    fn closure(&mut self, db: &str) {
        let r = &self.repos[db];
        if r.hurt {
            return;
        }
        let obs = r.obs.clone();
        let acked: Vec<String> = r.acked.keys().cloned().collect();
        if let Some(e) = &obs.err {
            let mut tags: Vec<&str> = vec!["C03", "C01", "C16"];
            if self.w.stats.fired.keys().any(|k| !k.starts_with("short") && k != "concurrent_edit") {
                tags.push("C02");
            }
            let e = clip(e, 200);
            self.viol(&tags, "repository-unreadable", format!("{} cannot be read: {}", db, e));
            return;
        }
        if let Some((k, e)) = obs.bad.iter().next() {
            let t = format!("{}: object {}: {}", db, k, e);
            self.viol(&["C03", "C01", "C14"], "object-damaged", t);
        }
        let mut todo: Vec<(String, char, String)> = vec![];
        for ((n, m), l) in &obs.refs {
            for k in l {
                todo.push((k.clone(), 'c', format!("ref {}{}", m.as_ref().map_or(String::new(), |m| format!("{}/", m)), n)));
            }
        }
        for k in acked {
            todo.push((k, 'f', "an acknowledged insert".into()));
        }
        let mut done = BTreeSet::new();
        while let Some((k, want, via)) = todo.pop() {
            if !done.insert((k.clone(), want)) {
                continue;
            }
            if !obs.keys.contains(&k) {
                self.viol(&["C03", "C01", "C13"], "object-missing", format!("{}: {} reached from {} is not in the store", db, k, via));
                return;
            }
            let i = match self.known.objs.get(&k) {
                Some(i) => i,
                None => continue,
            };
            let ok = match want {
                'c' => i.ty == "Commit",
                'f' => i.ty.starts_with("FSItem"),
                _ => i.ty == "FileBlob" || i.ty == "FileBlobTree",
            };
            if !ok {
                let t = format!("{}: {} reached from {} is a {}", db, k, via, i.ty);
                self.viol(&["C03"], "object-of-wrong-type", t);
                return;
            }
            for (n, c) in i.kids.iter().enumerate() {
                let w = match (&i.ty[..], n) {
                    ("Commit", 0) | ("FSItemDir", _) => 'f',
                    ("Commit", _) => 'c',
                    _ => 'b',
                };
                todo.push((c.clone(), w, format!("{} {}", i.ty, k)));
            }
            if i.ty == "FSItemFile" && i.kids.len() != 1 || i.ty == "Commit" && i.kids.is_empty() {
                let t = format!("{}: {} has {} children", db, k, i.kids.len());
                self.viol(&["C03"], "object-of-wrong-type", t);
            }
        }
    }

    /// C07: one tree, one key.
    fn note_key(&mut self, key: &str, flat: &Flat, root_file: bool) {
        let f = digest(&serde_json::to_vec(&(root_file, flat)).unwrap());
        let a = self.key_of.entry(f.clone()).or_insert_with(|| key.to_string()).clone();
        let b = self.flat_of.entry(key.to_string()).or_insert_with(|| f.clone()).clone();
        if a != key {
            self.viol(&["C07"], "two-keys-for-one-tree", format!("the same content was stored as {} and as {}", a, key));
        }
        if b != f {
            self.viol(&["C07", "C01"], "one-key-for-two-trees", format!("different contents were stored as {}", key));
        }
    }

    // ---- prediction ----

    fn plan(&self, c: &Ctx, st: &L, keysets: &[&BTreeSet<String>], alone: bool) -> (Plan, Vec<Option<String>>) {
        let mut res = vec![];
        let mut p = Plan { must: Must::Ok, why: String::new(), effect: Effect::None };
        let fail = |p: &mut Plan, why: &str| {
            if p.must != Must::Any {
                p.must = Must::Fail;
            }
            if p.why.is_empty() {
                p.why = why.to_string();
            }
        };
        let unsure = |p: &mut Plan, why: &str| {
            if p.must != Must::Fail {
                p.must = Must::Any;
                p.why = why.to_string();
            }
        };
        if c.args.iter().any(|a| std::str::from_utf8(a).is_err()) {
            unsure(&mut p, "an argument is not UTF-8");
        }
        if let Cmd::Init = c.spec.cmd {
            p.effect = Effect::Init;
            match self.w.fs.lookup(c.target.as_bytes()) {
                Some(id) if !self.w.fs.is_dir(id) => fail(&mut p, "a file is in the way"),
                _ => {}
            }
            return (p, res);
        }
        let loc = match &c.loc {
            Some(l) => l,
            None => {
                fail(&mut p, "there is no repository");
                return (p, res);
            }
        };
        match self.w.fs.lookup(&loc.joined) {
            Some(id) if self.w.fs.is_dir(id) => {}
            _ => fail(&mut p, "the database folder is not a folder"),
        }
        for k in &c.keys {
            let f: Vec<Found> = keysets.iter().map(|ks| resolve(k, ks, st)).collect();
            if f.iter().any(|x| *x != f[0]) || f[0] == Found::Unsure {
                unsure(&mut p, "key resolution depends on the schedule");
                let one: BTreeSet<&String> = f.iter().filter_map(|x| if let Found::Key(k) = x { Some(k) } else { None }).collect();
                res.push(if one.len() == 1 && !f.contains(&Found::Unsure) { one.into_iter().next().cloned() } else { None });
                continue;
            }
            match &f[0] {
                Found::Key(k) => res.push(Some(k.clone())),
                Found::No(w) => {
                    fail(&mut p, w);
                    res.push(None);
                }
                Found::Unsure => {}
            }
        }
        let ty = |k: &Option<String>| k.as_ref().and_then(|k| self.known.objs.get(k)).map_or("", |o| &o.ty[..]);
        let head_or = |r: &Option<String>| r.clone().or_else(|| st.head.clone());
        match &c.spec.cmd {
            Cmd::Insert { .. } => {}
            Cmd::Commit { msg, refname, .. } => match head_or(refname) {
                Some(r) => p.effect = Effect::Commit { refname: r, msg: msg.clone() },
                None => fail(&mut p, "no HEAD"),
            },
            Cmd::Fetch { dest, .. } => {
                if p.must == Must::Ok && !ty(&res[0]).starts_with("FSItem") {
                    match ty(&res[0]) {
                        "" => unsure(&mut p, "unknown object"),
                        _ => fail(&mut p, "that is not a file or tree"),
                    }
                }
                if !alone {
                    unsure(&mut p, "others are at work");
                }
                if let Some(k) = res[0].as_ref().filter(|_| p.must == Must::Ok) {
                    match self.known.trees.get(k) {
                        Some(f) => match self.fetchable(c, dest, f) {
                            Must::Ok => {}
                            Must::Fail => fail(&mut p, "something is in the way"),
                            Must::Any => unsure(&mut p, "unusual destination"),
                        },
                        None => unsure(&mut p, "tree not decoded"),
                    }
                }
            }
            Cmd::Show { key } | Cmd::Log { key } => {
                if key.is_none() {
                    match st.head.as_ref().and_then(|h| st.last(h, None)) {
                        Some(k) => res.push(Some(k.clone())),
                        None => fail(&mut p, "HEAD leads to no commit"),
                    }
                }
                if p.must == Must::Ok {
                    let t = ty(&res[0]).to_string();
                    if let Cmd::Log { .. } = c.spec.cmd {
                        if t != "Commit" {
                            fail(&mut p, "not a commit");
                        }
                    } else if t == "Commit" {
                        if let Some((new, old)) = self.commit_trees(res[0].as_ref().unwrap()) {
                            let bin = |p: &String| [new.get(p), old.get(p)].iter().any(|x| x.map_or(false, |x| x.1.ends_with('b')));
                            if Diff::of(&new, &old).files().iter().any(bin) {
                                unsure(&mut p, "binary files");
                            }
                        }
                    } else if t.is_empty() {
                        unsure(&mut p, "unknown object");
                    }
                }
            }
            Cmd::Compare { key, .. } => {
                if key.is_none() {
                    match st.head.as_ref().and_then(|h| st.last(h, None)) {
                        Some(k) => res.push(self.known.objs.get(k).and_then(|o| o.kids.get(0).cloned())),
                        None => fail(&mut p, "HEAD leads to no commit"),
                    }
                }
                if p.must == Must::Ok && ty(&res[0]) != "FSItemDir" {
                    unsure(&mut p, "not a tree");
                }
            }
            Cmd::Status => {
                if st.head.is_none() {
                    fail(&mut p, "no HEAD");
                }
            }
            Cmd::Checkout => {
                match st.head.as_ref().and_then(|h| st.last(h, None)) {
                    Some(k) => res.push(self.known.objs.get(k).and_then(|o| o.kids.get(0).cloned())),
                    None => fail(&mut p, "HEAD leads to no commit"),
                }
                if !under(&loc.repo, CHECKOUT_ROOT) {
                    unsure(&mut p, "outside the permitted place");
                }
                if p.must == Must::Ok && (ty(&res[0]) != "FSItemDir" || self.awkward(&loc.repo, &c.target)) {
                    unsure(&mut p, "unusual tree");
                }
                // a directory that holds excluded paths where the snapshot has a file
                let tree = res.get(0).and_then(|k| k.as_ref()).and_then(|k| self.known.trees.get(k));
                let blocked = |f: &Flat| f.iter().any(|(q, x)| !x.0 && self.w.fs.lookup(&join(&loc.repo, &unesc(q))).map_or(false, |i| self.w.fs.is_dir(i)));
                if !c.spec.excl.is_empty() && tree.map_or(false, |f| blocked(&**f)) {
                    unsure(&mut p, "excluded paths may be in the way");
                }
            }
            Cmd::CheckoutHead { refname } => {
                p.effect = Effect::Head(refname.clone());
                match &st.head {
                    None => fail(&mut p, "no HEAD"),
                    Some(h) => {
                        let tree = st.last(h, None).and_then(|k| self.known.objs.get(k)).and_then(|o| o.kids.get(0)).cloned();
                        let empty = Arc::new(Flat::new());
                        let old = match &tree {
                            Some(t) => self.known.trees.get(t),
                            None => Some(&empty),
                        };
                        match (old, &c.snap) {
                            (Some(old), Some(sn)) => {
                                let d = Diff::of(&sn.flat, old);
                                let loose = self.loose(c);
                                if !d.empty() {
                                    let hard = d.added.iter().map(|x| &x.0).chain(&d.modified).chain(d.deleted.iter().map(|x| &x.0)).any(|p| !loose(p));
                                    if hard {
                                        fail(&mut p, "the working directory is not clean");
                                    } else {
                                        unsure(&mut p, "only excluded paths differ");
                                    }
                                }
                            }
                            _ => unsure(&mut p, "tree not decoded"),
                        }
                    }
                }
            }
            Cmd::RefLog { refname, .. } => {
                if head_or(refname).is_none() {
                    fail(&mut p, "no HEAD");
                }
            }
            Cmd::RefUpdate { refname, .. } => match (head_or(refname), &res[0]) {
                (Some(r), Some(k)) => {
                    p.effect = Effect::Push { refname: r, remote: None, key: k.clone() };
                    match ty(&res[0]) {
                        "Commit" => {}
                        "" => unsure(&mut p, "unknown object"),
                        _ => fail(&mut p, "that is not a commit"),
                    }
                }
                (None, _) => fail(&mut p, "no HEAD"),
                _ => {}
            },
            Cmd::ReflogPush { refname, remote, .. } => {
                if let Some(k) = &res[0] {
                    p.effect = Effect::Push { refname: refname.clone(), remote: remote.clone(), key: k.clone() };
                    match ty(&res[0]) {
                        "Commit" => {}
                        "" => unsure(&mut p, "unknown object"),
                        _ => fail(&mut p, "that is not a commit"),
                    }
                }
            }
            Cmd::GetHead => {}
            Cmd::SetHead { refname } => p.effect = Effect::Head(refname.clone()),
            Cmd::ReflogGet { refname, remote } => {
                if st.last(refname, remote.as_deref()).is_none() {
                    fail(&mut p, "the ref has no entries");
                }
            }
            Cmd::PrettyPrint { .. } => {}
            Cmd::WalkTree { .. } => {
                if p.must == Must::Ok && !ty(&res[0]).starts_with("FSItem") {
                    unsure(&mut p, "not a tree");
                }
            }
            Cmd::CommitTree { .. } => {
                if p.must == Must::Ok {
                    if res.iter().any(|k| ty(k).is_empty()) {
                        unsure(&mut p, "unknown object");
                    } else if !ty(&res[0]).starts_with("FSItem") || res[1..].iter().any(|k| ty(k) != "Commit") {
                        fail(&mut p, "that is not a tree and commits");
                    }
                }
            }
            Cmd::WalkFs { .. } => {
                if c.snap.as_ref().map_or(true, |s| s.root_file) {
                    unsure(&mut p, "the path is a file");
                }
            }
            Cmd::Init => {}
        }
        if let Some(sn) = &c.snap {
            // a command that answers from the working tree may or may not need to read all of it
            let strict = matches!(c.spec.cmd, Cmd::Insert { .. } | Cmd::Commit { .. });
            let reads = !matches!(c.spec.cmd, Cmd::Checkout) && !(matches!(c.spec.cmd, Cmd::Status) && st.head.as_ref().map_or(true, |h| st.last(h, None).is_none()));
            if let Some(f) = &sn.fatal {
                if strict && c.fuzzy.is_empty() {
                    fail(&mut p, f);
                } else if reads {
                    unsure(&mut p, f);
                }
            }
            if let Some(o) = &sn.odd {
                unsure(&mut p, o);
            }
            if !c.fuzzy.is_empty() {
                unsure(&mut p, "files changed meanwhile");
            }
            if sn.root_file && !matches!(c.spec.cmd, Cmd::Insert { .. }) {
                unsure(&mut p, "the path is a file");
            }
        }
        (p, res)
    }

    fn loose<'a>(&'a self, c: &'a Ctx) -> Box<dyn Fn(&str) -> bool + 'a> {
        let base = match (&c.spec.cmd, &c.loc) {
            (Cmd::Compare { path: Some(p), .. }, _) | (Cmd::Commit { path: Some(p), .. }, _) => unesc(p),
            (_, Some(l)) => l.repo.clone(),
            _ => vec![],
        };
        Box::new(move |p: &str| hidden(&c.spec.excl, &base, &unesc(p)) || c.raced(p))
    }

    fn commit_trees(&self, c: &str) -> Option<(Arc<Flat>, Arc<Flat>)> {
        let o = self.known.objs.get(c)?;
        let new = self.known.trees.get(o.kids.get(0)?)?.clone();
        let old = match o.kids.get(1) {
            Some(p) => self.known.trees.get(self.known.objs.get(p)?.kids.get(0)?)?.clone(),
            None => Arc::new(Flat::new()),
        };
        Some((new, old))
    }

    /// Links and unusual permissions below the working tree: checkout is then judged by its result only.
    fn awkward(&self, root: &[u8], db: &str) -> bool {
        let m = fsmap(&self.w.fs, &[]);
        m.iter().any(|(p, e)| under(p, root) && !under(p, db.as_bytes()) && (e.mode & 0o300 != 0o300 && e.kind == 'd' || e.mode & 0o600 != 0o600 && e.kind == 'f'))
    }

    fn fetchable(&self, c: &Ctx, dest: &str, flat: &Flat) -> Must {
        let d = absolute(&c.cwd_path, &unesc(dest));
        let root_file = flat.len() == 1 && flat.contains_key("");
        let mut paths: Vec<(Vec<u8>, bool)> = vec![(d.clone(), !root_file)];
        for (p, (dir, _)) in flat {
            if !p.is_empty() {
                paths.push((join(&d, &unesc(p)), *dir));
            }
        }
        // the ancestors of the destination
        let mut cut = d.clone();
        while let Some(i) = cut.iter().rposition(|c| *c == b'/') {
            cut.truncate(i);
            if cut.is_empty() {
                break;
            }
            paths.push((cut.clone(), true));
        }
        let mut m = Must::Ok;
        for (p, dir) in paths {
            if p.split(|b| *b == b'/').any(|x| x.len() > 255) {
                m = Must::Any;
            }
            match self.w.fs.resolve_at(ROOT, &p, false) {
                Ok((_, _, Some(id))) => {
                    let n = self.w.fs.node(id);
                    if let Node::Link(_) = n.node {
                        return Must::Any;
                    }
                    if !dir || !self.w.fs.is_dir(id) {
                        return Must::Fail;
                    }
                    if n.mode & 0o300 != 0o300 {
                        m = Must::Any;
                    }
                }
                Ok(_) => {}
                Err(libc::ENOENT) => {}
                Err(libc::ENOTDIR) => return Must::Fail,
                Err(_) => m = Must::Any,
            }
        }
        m
    }

    // ---- answers ----

    fn answer(&self, c: &Ctx, st: &L, res: &[Option<String>], out: &str, post: &Obs) -> Result<(), (Vec<&'static str>, String)> {
        let lines: Vec<&str> = out.lines().collect();
        let bad = |t: &[&'static str], m: String| Err((t.to_vec(), m));
        let tree = |k: &Option<String>| k.as_ref().and_then(|k| self.known.trees.get(k)).cloned();
        match &c.spec.cmd {
            Cmd::Insert { .. } => {
                let k = match out.trim_end().strip_prefix("inserted hash ") {
                    Some(k) => k,
                    None => return bad(&["C01"], format!("unexpected output {:?}", clip(out, 100))),
                };
                if !post.keys.contains(k) {
                    return bad(&["C01", "C03"], format!("the printed key {} is not in the store", k));
                }
                let sn = c.snap.as_ref().unwrap();
                match self.known.trees.get(k) {
                    Some(f) if !sn.opaque => {
                        if let Some(d) = c.stored_diff(&sn.flat, f) {
                            return bad(&["C01", "C18"], format!("what was stored differs from the files: {}", d));
                        }
                    }
                    _ => {}
                }
            }
            Cmd::Status => {
                let h = st.head.as_ref().unwrap();
                match st.last(h, None) {
                    None => {
                        if lines.len() != 1 || lines[0] != format!("HEAD: {} (no commits on {})", h, h) {
                            return bad(&["C08", "C13"], format!("{} has no commits, status says {:?}", h, clip(out, 100)));
                        }
                    }
                    Some(k) => {
                        if lines.is_empty() || lines[0] != format!("HEAD: {} [{}]", h, &k[..8]) {
                            return bad(&["C08", "C13"], format!("HEAD is {} at {}, status says {:?}", h, k, lines.get(0)));
                        }
                        let t = tree(&self.known.objs.get(k).and_then(|o| o.kids.get(0).cloned()));
                        return self.diff_answer(c, t, &lines[1..], false);
                    }
                }
            }
            Cmd::Compare { stat, .. } => return self.diff_answer(c, tree(&res[0]), &lines, *stat),
            Cmd::CheckoutHead { .. } => {
                if !out.contains("Ok, new head.") {
                    return bad(&["C08", "C05"], format!("success reported with {:?}", clip(out, 100)));
                }
            }
            Cmd::Show { .. } => {
                let k = match &res[0] {
                    Some(k) => k,
                    None => return Ok(()),
                };
                let o = match self.known.objs.get(k) {
                    Some(o) => o,
                    None => return Ok(()),
                };
                match &o.ty[..] {
                    "FSItemDir" => {
                        if out != format!("tree: {}\n", k) {
                            return bad(&["C11", "C19"], format!("tree {} shown as {:?}", k, clip(out, 100)));
                        }
                    }
                    "FSItemFile" => {
                        if let Some(f) = self.known.trees.get(k) {
                            let d = file_digest(out.as_bytes());
                            let want = &f[""].1;
                            if want.ends_with('t') && d != *want {
                                return bad(&["C19", "C12", "C11", "C01"], format!("file {} is shown with content {} instead of {}", k, d, want));
                            }
                        }
                    }
                    "FileBlob" => {
                        let d = digest(out.as_bytes());
                        if std::str::from_utf8(out.as_bytes()).is_ok() && !out.contains('\u{fffd}') && d != o.data {
                            return bad(&["C19", "C12", "C11", "C01"], format!("chunk {} is shown with content {} instead of {}", k, d, o.data));
                        }
                    }
                    "Commit" => {
                        let head = format!("commit: {}\n\n{}\n\n", k, o.msg.clone().unwrap_or_default());
                        if !out.starts_with(&head) {
                            return bad(&["C19", "C11"], format!("commit {} shown as {:?}", k, clip(out, 120)));
                        }
                        if let Some((new, old)) = self.commit_trees(k) {
                            let files = Diff::of(&new, &old).files();
                            let simple = |p: &String| p.bytes().all(|c| c.is_ascii_alphanumeric() || b"._-/".contains(&c));
                            let text = |p: &String| [new.get(p), old.get(p)].iter().all(|x| x.map_or(true, |x| x.1.ends_with('t')));
                            if files.iter().all(|p| simple(p) && text(p)) {
                                let got: Vec<&str> = out[head.len()..].lines().filter_map(|l| l.strip_prefix("--- ")).collect();
                                let set: BTreeSet<String> = got.iter().map(|x| x.to_string()).collect();
                                if set != files || set.len() != got.len() {
                                    return bad(&["C19"], format!("commit {} changes {:?}, shown are {:?}", k, files, got));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            Cmd::Log { .. } => {
                let mut at = res[0].clone();
                let mut rest = out;
                let mut n = 0;
                while let Some(k) = at {
                    let o = match self.known.objs.get(&k) {
                        Some(o) => o,
                        None => return Ok(()),
                    };
                    let head = format!("commit: {}\n\n{}\n\n", k, o.msg.clone().unwrap_or_default());
                    rest = match rest.strip_prefix(&head[..]) {
                        Some(r) => r,
                        None => return bad(&["C19"], format!("entry {} of the history should be {} {:?}, printed is {:?}", n, k, o.msg, clip(rest, 120))),
                    };
                    let end = rest.find("commit: b").unwrap_or(rest.len());
                    let (body, tail) = rest.split_at(end);
                    rest = tail;
                    if let Some((new, old)) = self.commit_trees(&k) {
                        let d = Diff::of(&new, &old);
                        if d.plain() {
                            let l: Vec<&str> = body.lines().collect();
                            match stat_paths(&l) {
                                Err(e) => return bad(&["C19"], e),
                                Ok(got) => {
                                    if got != d.files() {
                                        return bad(&["C19"], format!("commit {} changes {:?}, printed are {:?}", k, d.files(), got));
                                    }
                                }
                            }
                        }
                    }
                    at = o.kids.get(1).cloned();
                    n += 1;
                }
                if !rest.trim().is_empty() {
                    return bad(&["C19"], format!("after the root of the history: {:?}", clip(rest, 100)));
                }
            }
            Cmd::RefLog { refname, remote } => {
                let r = refname.clone().or_else(|| st.head.clone()).unwrap_or_default();
                let m = if refname.is_some() { remote.clone() } else { None };
                let l = st.refs.get(&(r.clone(), m)).cloned().unwrap_or_default();
                let want: Vec<String> = (0..l.len()).rev().map(|i| format!("{}: {}", i + 1, l[i])).collect();
                let got: Vec<String> = lines.iter().filter(|l| l.split(": ").next().map_or(false, |n| n.parse::<u64>().is_ok())).map(|x| x.to_string()).collect();
                if got != want {
                    return bad(&["C13"], format!("ref {} holds {:?}, printed is {:?}", r, want, got));
                }
            }
            Cmd::GetHead => {
                let want = format!("head: {:?}\n", st.head);
                if out != want {
                    return bad(&["C13"], format!("HEAD is {:?}, printed is {:?}", st.head, clip(out, 80)));
                }
            }
            Cmd::ReflogGet { refname, remote } => {
                if st.last(refname, remote.as_deref()).map(|k| &k[..]) != Some(out.trim_end()) {
                    return bad(&["C13"], format!("{} is at {:?}, printed is {:?}", refname, st.last(refname, remote.as_deref()), clip(out, 80)));
                }
            }
            Cmd::PrettyPrint { .. } => {
                if let Some(o) = res[0].as_ref().and_then(|k| self.known.objs.get(k)) {
                    let mut keys = vec![];
                    let mut hex = String::new();
                    let mut sect = "";
                    let mut ty = "";
                    for l in &lines {
                        if l.starts_with("--") || l.starts_with("-/") {
                            if let Some(t) = l.strip_prefix("--type: ") {
                                ty = t.trim_end_matches('-');
                            }
                            sect = l;
                        } else if sect == "--keys--" && l.starts_with('b') && l.len() == 53 {
                            keys.push(l.to_string());
                        } else if sect == "--data--" {
                            hex.push_str(l);
                        }
                    }
                    let data: Option<Vec<u8>> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
                    if ty != o.ty || keys != o.kids || data.map(|d| digest(&d)) != Some(o.data.clone()) {
                        return bad(&["C11", "C12"], format!("object {:?} is a {} with {} children, printed is a {} with {} children or other data", res[0], o.ty, o.kids.len(), ty, keys.len()));
                    }
                }
            }
            Cmd::WalkTree { .. } => {
                if let Some(t) = tree(&res[0]) {
                    if t.keys().all(|p| !p.contains('\\')) {
                        let want: BTreeSet<String> = t.iter().map(|(p, d)| format!("{:?} {}", p, d.0)).collect();
                        let mut got = BTreeSet::new();
                        for l in &lines {
                            let i = l.rfind("\", (").unwrap_or(0);
                            got.insert(format!("{} {}", &l[1.min(l.len())..(i + 1).min(l.len())], l.ends_with("true))")));
                        }
                        if got != want || lines.len() != want.len() {
                            return bad(&["C11", "C12"], format!("tree {:?} holds {:?}, printed is {:?}", res[0], want, got));
                        }
                    }
                }
            }
            Cmd::WalkFs { .. } => {
                if let Some(sn) = c.snap.as_ref().filter(|s| s.odd.is_none() && s.fatal.is_none() && c.fuzzy.is_empty() && s.flat.keys().all(|p| !p.contains('\\') && !p.contains('"'))) {
                    // the program's own files come and go while it runs
                    let db = join(&unesc(&c.target), b"");
                    let base = match self.w.fs.resolve_at(c.cwd, c.base.as_ref().unwrap(), true) {
                        Ok((_, _, Some(id))) => self.w.fs.path_of(id),
                        _ => return Ok(()),
                    };
                    let mine = |p: &str| {
                        let f = join(&base, p.as_bytes());
                        under(&f, &db[..db.len() - 1]) || under(&f, &self.w.cache_root)
                    };
                    let want: BTreeSet<String> = sn.flat.iter().filter(|x| !mine(x.0)).map(|(p, d)| format!("{:?}, {}", p, d.0)).collect();
                    let got: BTreeSet<String> = lines.iter().filter(|l| !mine(l.trim_start_matches('"').split('"').next().unwrap_or(""))).map(|l| l.to_string()).collect();
                    if let Some(d) = got.symmetric_difference(&want).next() {
                        return bad(&["C05"], format!("{} is {}listed", d, if want.contains(d) { "not " } else { "" }));
                    }
                }
            }
            Cmd::CommitTree { .. } => {
                let k = out.trim_end();
                if !post.keys.contains(k) {
                    return bad(&["C05", "C11"], format!("the printed key {:?} is not in the store", clip(k, 80)));
                }
                if let (Some(o), true) = (self.known.objs.get(k), res.iter().all(|r| r.is_some())) {
                    let want: BTreeSet<&String> = res[1..].iter().flatten().collect();
                    let got: BTreeSet<&String> = o.kids.iter().skip(1).collect();
                    if o.ty != "Commit" || o.kids.get(0) != res[0].as_ref() || got != want {
                        return bad(&["C11"], format!("commit {} was made of {:?} instead of {:?}", k, o.kids, res));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn diff_answer(&self, c: &Ctx, tree: Option<Arc<Flat>>, lines: &[&str], stat: bool) -> Result<(), (Vec<&'static str>, String)> {
        let (old, sn) = match (tree, &c.snap) {
            (Some(t), Some(s)) if s.odd.is_none() && !s.root_file && s.hidden_dirs == 0 && s.fatal.as_deref() != Some("no such path") => (t, s),
            _ => return Ok(()),
        };
        let d = Diff::of(&sn.flat, &old);
        if !d.plain() || c.fuzzy.iter().any(|p| p.contains('\\') || p.contains(' ')) {
            return Ok(());
        }
        let loose = self.loose(c);
        let mut t = vec!["C08"];
        if !c.spec.excl.is_empty() || lines.iter().any(|l| l.contains(&self.machine.db_name)) {
            t.push("C18");
        }
        if stat {
            let got = stat_paths(lines).map_err(|e| (t.clone(), e))?;
            let want = d.files();
            for p in got.symmetric_difference(&want) {
                if !loose(p) {
                    return Err((t, format!("{:?} is {} and {}", p, if want.contains(p) { "different" } else { "not different" }, if got.contains(p) { "listed" } else { "not listed" })));
                }
            }
            return Ok(());
        }
        check_diff(lines, &d, &*loose).map_err(|e| (t, e))
    }

    // ---- judging a run ----

    fn tags<'a>(&self, base: &[&'a str], extra: &[&'a str]) -> Vec<&'a str> {
        let mut t = base.to_vec();
        t.extend_from_slice(extra);
        if self.cache_hurt {
            t.push("C17");
        }
        t
    }

    fn run_step(&mut self, procs: &[PSpec], sched: &Sched) -> Res<()> {
        let mut ctxs = vec![];
        for p in procs {
            if let Some(mut c) = self.ctx(p) {
                let db = c.target.clone();
                if !db.is_empty() {
                    if !self.repos.contains_key(&db) {
                        self.refresh(&db, &[])?;
                        c = match self.ctx(p) {
                            Some(c) => c,
                            None => continue,
                        };
                    }
                    let want = self.wanted(&c);
                    self.refresh(&db, &want)?;
                }
                ctxs.push(c);
            }
        }
        if ctxs.is_empty() {
            self.log.push("skipped".into());
            return Ok(());
        }
        let alone = ctxs.len() == 1;
        let pre: BTreeMap<String, Obs> = self.repos.iter().map(|(k, r)| (k.clone(), r.obs.clone())).collect();
        let pre_db: BTreeMap<String, Option<Arc<Vec<u8>>>> = self.repos.keys().map(|k| (k.clone(), self.raw_bytes(&format!("{}/snapcd.db", k)))).collect();
        // predictions about files are made before anything runs
        let mut plans = vec![];
        for c in &ctxs {
            let st = pre.get(&c.target).map(L::of).unwrap_or_default();
            let none = BTreeSet::new();
            let ks = pre.get(&c.target).map_or(&none, |o| &o.keys);
            plans.push(self.plan(c, &st, &[ks], alone));
        }
        let before = fsmap(&self.w.fs, &[]);
        let jobs = ctxs.iter().map(Exec::job).collect();
        let outs = run(&mut self.w, jobs, sched.clone())?;
        let after = fsmap(&self.w.fs, &[]);
        let edited = self.raced(&mut ctxs, &outs, &mut plans);
        self.commands += ctxs.len() as u64;
        let mut text = vec![];
        for (c, o) in ctxs.iter().zip(&outs) {
            *self.kinds.entry(c.spec.cmd.name().to_string()).or_insert(0) += 1;
            text.push(format!("{} -> {:?}", c.args.iter().map(|a| esc(a)).collect::<Vec<_>>().join(" "), o.end));
        }
        self.log.push(text.join(" | "));
        let stalled = ctxs.iter().zip(&outs).any(|(c, o)| c.spec.faults.iter().zip(&o.fired).any(|(f, n)| *n > 0 && matches!(f, Fault::Stall { .. } | Fault::Foreign { .. })));
        let full = ctxs.iter().zip(&outs).any(|(c, o)| c.spec.faults.iter().zip(&o.fired).any(|(f, n)| *n > 0 && matches!(f, Fault::Full { .. })));
        let full_set = ctxs.iter().any(|c| c.spec.faults.iter().any(|f| matches!(f, Fault::Full { .. })));
        let fault = |i: usize, pred: &dyn Fn(&Fault) -> bool| ctxs[i].spec.faults.iter().zip(&outs[i].fired).any(|(f, n)| *n > 0 && pred(f));
        // faults after which a command may fail
        let excuse = |i: usize| {
            full || (full_set && !alone)
                || (0..ctxs.len()).any(|j| fault(j, &|f| matches!(f, Fault::Foreign { scope: Scope::Db, .. })))
                || fault(i, &|f| match f {
                    Fault::Short { .. } | Fault::Stall { .. } => false,
                    // half of a file may be gone, half of a directory listed
                    Fault::Edit { .. } => true,
                    Fault::Err { scope: Scope::Cache, .. } | Fault::Foreign { scope: Scope::Cache, .. } => false,
                    _ => true,
                })
        };
        // ... and may have taken effect all the same
        let blur = |i: usize| full || fault(i, &|f| matches!(f, Fault::Err { .. } | Fault::Full { .. } | Fault::Oom { .. } | Fault::Stdout { .. }));
        let cache_fault = |i: usize| {
            fault(i, &|f| matches!(f, Fault::Err { scope: Scope::Cache, .. } | Fault::Foreign { scope: Scope::Cache, .. }))
                || (0..ctxs.len()).any(|j| fault(j, &|f| matches!(f, Fault::Foreign { scope: Scope::Cache, .. })))
        };
        let any_fault = |i: usize| fault(i, &|_| true);
        let n = ctxs.len();
        let ok: Vec<bool> = outs.iter().map(|o| o.end == End::Exit(0)).collect();
        let cut: Vec<bool> = outs.iter().map(|o| o.end == End::Killed || o.end == End::Power).collect();

        // ---- endings ----
        for i in 0..n {
            let hurt = self.repos.get(&ctxs[i].target).map_or(false, |r| r.hurt);
            if outs[i].end == End::Hung && !hurt {
                let t = self.tags(&["C16"], &[]);
                self.viol(&t, "command-never-ends", format!("{} was still running after {} simulated calls", text[i], outs[i].ops));
            }
            let (so, se) = (s(&outs[i].out), s(&outs[i].err));
            if ok[i] && (so.lines().chain(se.lines()).any(|l| l.starts_with("fatal: ") || l.starts_with("Error: "))) {
                let t = self.tags(&["C05"], own(&ctxs[i].spec.cmd));
                self.viol(&t, "failure-reported-as-success", format!("{} printed {:?} and exited with success", text[i], clip(so.lines().find(|l| l.starts_with("fatal: ")).unwrap_or(&se), 120)));
            }
            if ok[i] && ctxs[i].target.is_empty() && plans[i].0.must == Must::Fail {
                let t = self.tags(&["C05"], own(&ctxs[i].spec.cmd));
                self.viol(&t, "impossible-success", format!("{} reports success although {}", text[i], plans[i].0.why));
            }
            let contended = (0..n).any(|j| j != i && ctxs[j].target == ctxs[i].target);
            let p = &plans[i].0;
            let failed = !ok[i] && !cut[i] && outs[i].end != End::Hung;
            if failed && p.must == Must::Ok && !excuse(i) && !contended && !hurt {
                let mut t = self.tags(own(&ctxs[i].spec.cmd), &["C05"]);
                if self.faults_before {
                    t.push("C16");
                }
                if cache_fault(i) || self.cache_hurt {
                    t.push("C17");
                }
                if !ctxs[i].keys.is_empty() {
                    t.push("C11");
                }
                if any_fault(i) && !cache_fault(i) {
                    t.push("C16");
                }
                if n > 1 {
                    t.push("C04");
                }
                self.viol(&t, "command-fails", format!("{}: {}", text[i], clip(&format!("{}{}", so, se), 300)));
            }
        }
        if n > 1 && !stalled && !full_set && (0..n).all(|i| !any_fault(i)) {
            // somebody gets through
            let dbs: BTreeSet<&String> = ctxs.iter().map(|c| &c.target).collect();
            for db in dbs {
                let g: Vec<usize> = (0..n).filter(|i| &ctxs[*i].target == db).collect();
                if g.len() > 1 && g.iter().all(|i| plans[*i].0.must == Must::Ok) && g.iter().all(|i| !ok[*i]) && !db.is_empty() {
                    self.viol(&["C04", "C16"], "nobody-gets-through", format!("all of {} concurrent commands failed: {}", g.len(), clip(&s(&outs[g[0]].out), 200)));
                }
            }
        }

        // ---- files ----
        self.judge_files(&ctxs, &plans, &outs, &before, &after, &edited, &excuse)?;

        // ---- databases ----
        let dbs: Vec<String> = self.repos.keys().cloned().collect();
        for db in dbs {
            let g: Vec<usize> = (0..n).filter(|i| ctxs[*i].target == db).collect();
            if self.repos[&db].hurt {
                for i in g {
                    if ok[i] && !matches!(ctxs[i].spec.cmd, Cmd::Insert { .. } | Cmd::CommitTree { .. }) {
                        let st = L::of(&self.repos[&db].obs);
                        let post = self.repos[&db].obs.clone();
                        if let Err((mut t, m)) = self.answer(&ctxs[i], &st, &plans[i].1, &s(&outs[i].out), &post) {
                            t.retain(|x| *x == "C19");
                            t.push("C12");
                            self.viol(&t, "damage-returned-as-data", format!("{}: {}", text[i], m));
                        }
                    }
                }
                continue;
            }
            if g.is_empty() {
                let now = self.raw_bytes(&format!("{}/snapcd.db", db));
                let touched = ctxs.iter().any(|c| c.loc.as_ref().map_or(false, |l| l.canon == db));
                if now != pre_db[&db] && !touched && pre[&db].err.is_none() {
                    self.viol(&["C15", "C10", "C18"], "foreign-repository-changed", format!("{} changed although no command was about it", db));
                }
                if now != pre_db[&db] {
                    self.refresh(&db, &[])?;
                    self.closure(&db);
                }
                continue;
            }
            let mut want = vec![];
            for i in &g {
                if let (true, Cmd::Insert { .. }) = (ok[*i], &ctxs[*i].spec.cmd) {
                    if let Some(k) = s(&outs[*i].out).trim_end().strip_prefix("inserted hash ") {
                        want.push(k.to_string());
                    }
                }
            }
            // only keys that are really there can be decoded
            self.refresh(&db, &[])?;
            want.retain(|k| self.repos[&db].obs.keys.contains(k));
            if !want.is_empty() {
                self.refresh(&db, &want)?;
            }
            let post = self.repos[&db].obs.clone();
            if post.err.is_some() {
                self.closure(&db);
                continue;
            }
            let pre_obs = &pre[&db];
            let must: Vec<usize> = g.iter().copied().filter(|i| ok[*i]).collect();
            let may: Vec<usize> = g.iter().copied().filter(|i| !ok[*i] && (cut[*i] || blur(*i)) && plans_effect(&plans[*i].0)).collect();
            // of several wrong explanations, the one that explains most is the one to tell
            let mut best: Option<(usize, Viol)> = None;
            let moved = L::of(pre_obs) != L::of(&post);
            let inspecting = |c: &Cmd| {
                matches!(
                    c,
                    Cmd::Fetch { .. } | Cmd::Show { .. } | Cmd::Log { .. } | Cmd::Compare { .. } | Cmd::Status | Cmd::RefLog { .. } | Cmd::GetHead | Cmd::ReflogGet { .. } | Cmd::PrettyPrint { .. } | Cmd::WalkTree { .. } | Cmd::WalkFs { .. }
                )
            };
            if moved && pre_obs.err.is_none() && g.iter().all(|i| inspecting(&ctxs[*i].spec.cmd)) {
                self.viol(&["C15", "C13"], "inspection-changed-refs", format!("HEAD {:?} -> {:?}, {} -> {} refs, by {}", pre_obs.head, post.head, pre_obs.refs.len(), post.refs.len(), text.join(" | ")));
            }
            let mut good = false;
            'search: for sub in 0..(1usize << may.len()) {
                let mut who = must.clone();
                who.extend(may.iter().enumerate().filter(|(b, _)| sub >> b & 1 == 1).map(|(_, i)| *i));
                for order in perms(&who) {
                    match self.try_order(&ctxs, &outs, &order, &ok, pre_obs, &post, alone, n > 1) {
                        Ok(()) => {
                            good = true;
                            break 'search;
                        }
                        Err((depth, v)) => {
                            let rank = if moved { depth * 2 + usize::from(!order.is_empty() && depth == 0) } else { depth * 2 };
                            if best.as_ref().map_or(true, |b| rank > b.0) {
                                best = Some((rank, v));
                            }
                        }
                    }
                }
            }
            if !good {
                let (_, mut v) = best.unwrap();
                let interrupted = g.iter().any(|i| cut[*i]);
                let failed = g.iter().any(|i| !ok[*i]);
                v.tags.extend(self.tags(&[], &[]).iter().map(|x| x.to_string()));
                if g.iter().any(|i| cache_fault(*i)) {
                    v.tags.push("C17".into());
                }
                if interrupted || failed {
                    v.tags.push("C02".into());
                }
                if n > 1 {
                    v.tags.push("C04".into());
                }
                if g.iter().any(|i| any_fault(*i) && ok[*i]) {
                    v.tags.push("C05".into());
                }
                v.detail = format!("{} [{}]", v.detail, text.join(" | "));
                v.tags.sort();
                v.tags.dedup();
                v.step = self.log.len();
                self.sink.push(v);
            }
            // acknowledged inserts
            for i in &must {
                if let Cmd::Insert { .. } = &ctxs[*i].spec.cmd {
                    if let Some(k) = s(&outs[*i].out).trim_end().strip_prefix("inserted hash ") {
                        self.repos.get_mut(&db).unwrap().acked.insert(k.to_string(), ());
                        self.inserted.push((db.clone(), k.to_string()));
                        if let (Some(sn), Some(f)) = (&ctxs[*i].snap, self.known.trees.get(k).cloned()) {
                            if sn.odd.is_none() {
                                self.note_key(k, &f, sn.root_file);
                            }
                        }
                    }
                }
            }
            let trees: Vec<String> = post.refs.values().flatten().filter_map(|c| self.known.objs.get(c)?.kids.get(0).cloned()).collect();
            for t in trees {
                if let Some(f) = self.known.trees.get(&t).cloned() {
                    let rf = self.known.objs.get(&t).map_or(false, |o| o.ty == "FSItemFile");
                    self.note_key(&t, &f, rf);
                }
            }
            self.closure(&db);
        }
        for (c, o) in ctxs.iter().zip(&outs) {
            if c.spec.faults.iter().zip(&o.fired).any(|(f, n)| *n > 0 && !matches!(f, Fault::Short { .. } | Fault::Edit { .. })) || o.end == End::Power {
                self.faults_before = true;
            }
        }
        Ok(())
    }

    /// A user who edits database files by hand is on his own.
    fn meddled(&mut self, path: &str, op: &EditOp) {
        let mut at = vec![unesc(path)];
        if let EditOp::Rename(to) = op {
            at.push(unesc(to));
        }
        for (db, r) in self.repos.iter_mut() {
            if at.iter().any(|p| p.starts_with(format!("{}/snapcd.db", db).as_bytes())) {
                r.hurt = true;
            }
        }
    }

    /// Files were edited while a command ran: what it saw of those is not settled. Returns their paths.
    fn raced(&mut self, ctxs: &mut [Ctx], outs: &[Outcome], plans: &mut [(Plan, Vec<Option<String>>)]) -> Vec<Vec<u8>> {
        let mut paths: Vec<Vec<u8>> = vec![];
        for (c, o) in ctxs.iter().zip(outs) {
            for (f, n) in c.spec.faults.iter().zip(&o.fired) {
                if let (Fault::Edit { edits, .. }, true) = (f, *n > 0) {
                    for (p, op) in edits {
                        self.meddled(p, op);
                        paths.push(unesc(p));
                        match op {
                            EditOp::Rename(to) => paths.push(unesc(to)),
                            EditOp::Replace { .. } => paths.push([&unesc(p)[..], b".tmp~"].concat()),
                            _ => {}
                        }
                    }
                }
            }
        }
        // another repository's database below this one's tree is changed by those who use it
        let dbs: Vec<String> = ctxs.iter().map(|c| c.target.clone()).collect();
        for (c, plan) in ctxs.iter_mut().zip(plans.iter_mut()) {
            let root = match (&c.base, &c.snap) {
                (Some(b), Some(_)) => match self.w.fs.resolve_at(c.cwd, b, true) {
                    Ok((_, _, Some(id))) => self.w.fs.path_of(id),
                    _ => continue,
                },
                _ => continue,
            };
            let foreign: Vec<String> = dbs.iter().filter(|d| **d != c.target && !d.is_empty()).filter_map(|d| below(d.as_bytes(), &root).map(|r| esc(r))).collect();
            if !foreign.is_empty() {
                c.fuzzy.extend(foreign);
                if plan.0.must == Must::Ok {
                    plan.0.must = Must::Any;
                }
            }
        }
        if paths.is_empty() {
            return paths;
        }
        paths.append(&mut self.w.through);
        for (c, plan) in ctxs.iter_mut().zip(plans) {
            let (base, old) = match (&c.base, &c.snap) {
                (Some(b), Some(s)) => (b.clone(), s),
                _ => continue,
            };
            let v = View { fs: &self.w.fs, db: c.target.clone().into_bytes(), excl: &c.spec.excl, all: false };
            let new = v.snap(&mut self.dg, c.cwd, &base);
            let root = match self.w.fs.resolve_at(c.cwd, &base, true) {
                Ok((_, _, Some(id))) => self.w.fs.path_of(id),
                _ => absolute(&c.cwd_path, &base),
            };
            let mut fuzzy = vec![];
            for p in &paths {
                if under(&root, p) {
                    fuzzy.push(String::new());
                } else if let Some(r) = below(p, &root) {
                    fuzzy.push(esc(r));
                }
            }
            for p in old.flat.keys().chain(new.flat.keys()) {
                if old.flat.get(p) != new.flat.get(p) {
                    fuzzy.push(p.clone());
                }
            }
            if fuzzy.is_empty() {
                continue;
            }
            fuzzy.append(&mut c.fuzzy);
            let odd = new.odd.clone().or_else(|| new.fatal.clone());
            let sn = c.snap.as_mut().unwrap();
            if sn.odd.is_none() {
                sn.odd = odd;
            }
            sn.opaque |= new.opaque;
            sn.vague.extend(new.vague);
            c.fuzzy = fuzzy;
            if plan.0.must == Must::Ok || plan.0.why == "the working directory is not clean" || Some(&plan.0.why) == sn.fatal.as_ref() {
                plan.0.must = Must::Any;
            }
        }
        paths
    }

    fn wanted(&self, c: &Ctx) -> Vec<String> {
        let r = match self.repos.get(&c.target) {
            Some(r) => r,
            None => return vec![],
        };
        if !matches!(c.spec.cmd, Cmd::Fetch { .. } | Cmd::Show { .. } | Cmd::WalkTree { .. } | Cmd::Compare { .. }) {
            return vec![];
        }
        let st = L::of(&r.obs);
        c.keys
            .iter()
            .filter_map(|k| match resolve(k, &r.obs.keys, &st) {
                Found::Key(k) => Some(k),
                _ => None,
            })
            .filter(|k| self.known.objs.get(k).map_or(false, |o| o.ty.starts_with("FSItem")))
            .collect()
    }

    fn try_order(&self, ctxs: &[Ctx], outs: &[Outcome], order: &[usize], ok: &[bool], pre: &Obs, post: &Obs, alone: bool, multi: bool) -> Result<(), (usize, Viol)> {
        let mut st = L::of(pre);
        let before = st.clone();
        let ks: Vec<&BTreeSet<String>> = if multi { vec![&pre.keys, &post.keys] } else { vec![&pre.keys] };
        for (d, i) in order.iter().enumerate() {
            let c = &ctxs[*i];
            let (p, res) = self.plan_db(c, &st, &ks, alone);
            let name = c.spec.cmd.name();
            if p.must == Must::Fail && ok[*i] {
                let mut t = own(&c.spec.cmd).to_vec();
                t.push("C05");
                if !c.keys.is_empty() {
                    t.push("C11");
                }
                return Err((d, Viol::new(&t, "impossible-success", format!("{} reports success although {}", name, p.why))));
            }
            if p.must == Must::Fail {
                return Err((d, Viol::new(&["C02"], "impossible-effect", format!("{} {}", name, p.why))));
            }
            if ok[*i] {
                if let Err((tags, m)) = self.answer(c, &st, &res, &s(&outs[*i].out), post) {
                    let mut tags = tags;
                    if p.must == Must::Any && matches!(c.spec.cmd, Cmd::Fetch { .. }) {
                        tags.push("C05");
                    }
                    if !c.keys.is_empty() {
                        tags.push("C11");
                    }
                    tags.push("C05");
                    return Err((d, Viol::new(&tags, "wrong-answer", format!("{}: {}", name, m))));
                }
            }
            match &p.effect {
                Effect::None => {}
                Effect::Init => st.head = Some("master".into()),
                Effect::Head(h) => st.head = Some(h.clone()),
                Effect::Push { refname, remote, key } => st.refs.entry((refname.clone(), remote.clone())).or_default().push(key.clone()),
                Effect::Commit { refname, msg } => {
                    let rk = (refname.clone(), None);
                    let prev = st.refs.get(&rk).and_then(|l| l.last()).cloned();
                    let mut seen = post.refs.get(&rk).cloned().unwrap_or_default();
                    // an earlier commit may have the same message and even the same parent
                    seen = seen.split_off(before.refs.get(&rk).map_or(0, |l| l.len()).min(seen.len()));
                    seen.retain(|k| self.known.objs.get(k).map_or(false, |o| o.msg.as_ref() == Some(msg)));
                    if seen.is_empty() {
                        return Err((d, Viol::new(&["C01", "C05", "C13"], "commit-lost", format!("commit {:?} reported success and is not in the history of {}", msg, refname))));
                    }
                    let key = seen.iter().find(|k| self.known.objs[*k].kids[1..] == prev.iter().cloned().collect::<Vec<_>>()[..]).cloned();
                    let key = match key {
                        Some(k) => k,
                        None => {
                            return Err((
                                d,
                                Viol::new(&["C04", "C13", "C19"], "wrong-parent", format!("commit {:?} has parents {:?}, the entry before it is {:?}", msg, &self.known.objs[&seen[0]].kids[1..], prev)),
                            ))
                        }
                    };
                    let tk = self.known.objs[&key].kids[0].clone();
                    let sn = c.snap.as_ref().unwrap();
                    if let (Some(f), true) = (self.known.trees.get(&tk), !sn.opaque) {
                        if let Some(m) = c.stored_diff(&sn.flat, f) {
                            return Err((d, Viol::new(&["C01", "C18", "C05"], "wrong-snapshot", format!("commit {:?} does not hold what is in the working tree: {}", msg, m))));
                        }
                    }
                    st.refs.entry(rk).or_default().push(key);
                }
            }
        }
        let fin = L::of(post);
        if st != fin {
            let mut t = vec!["C13"];
            let mut m = vec![];
            if st.head != fin.head {
                m.push(format!("HEAD is {:?} instead of {:?}", fin.head, st.head));
            }
            let names: BTreeSet<_> = st.refs.keys().chain(fin.refs.keys()).collect();
            for k in names {
                let (a, b) = (st.refs.get(k), fin.refs.get(k));
                if a != b {
                    m.push(format!("history of {:?} is {} instead of {}", k, show_list(b), show_list(a)));
                    if b.map_or(0, |x| x.len()) < a.map_or(0, |x| x.len()) {
                        t.push("C01");
                    }
                }
            }
            if order.is_empty() {
                t.push("C02");
            }
            let reads = |c: &Cmd| matches!(c, Cmd::Status | Cmd::Compare { .. } | Cmd::Show { .. } | Cmd::Log { .. } | Cmd::RefLog { .. } | Cmd::Fetch { .. } | Cmd::GetHead | Cmd::ReflogGet { .. } | Cmd::PrettyPrint { .. } | Cmd::WalkTree { .. } | Cmd::WalkFs { .. });
            if ctxs.iter().all(|c| reads(&c.spec.cmd)) {
                t.push("C15");
            }
            if ok.iter().any(|x| *x) {
                t.push("C05");
            }
            for c in ctxs {
                if let Cmd::CheckoutHead { .. } = c.spec.cmd {
                    t.push("C08");
                }
            }
            return Err((order.len(), Viol::new(&t, "wrong-state", m.join("; "))));
        }
        Ok(())
    }

    /// The plan again, for another database state; what depends on files was settled before the run.
    fn plan_db(&self, c: &Ctx, st: &L, ks: &[&BTreeSet<String>], alone: bool) -> (Plan, Vec<Option<String>>) {
        let (mut p, res) = self.plan(c, st, ks, alone);
        if matches!(c.spec.cmd, Cmd::Fetch { .. } | Cmd::Init | Cmd::Checkout) && p.must == Must::Fail && (p.why == "something is in the way" || p.why == "a file is in the way") {
            // judged with the files as they were
            p.must = Must::Any;
        }
        (p, res)
    }

    fn judge_files(&mut self, ctxs: &[Ctx], plans: &[(Plan, Vec<Option<String>>)], outs: &[Outcome], before: &FsMap, after: &FsMap, edited: &[Vec<u8>], excuse: &dyn Fn(usize) -> bool) -> Res<()> {
        let dbs: Vec<Vec<u8>> = self.repos.keys().map(|k| k.clone().into_bytes()).collect();
        let stores: Vec<Vec<u8>> = self.store_paths.iter().map(|x| x.clone().into_bytes()).collect();
        let skip = |p: &[u8]| dbs.iter().any(|d| under(p, d)) || under(p, b"/home/jess/.cache") || stores.iter().any(|d| p.starts_with(d));
        let mut changes: Vec<(Vec<u8>, &str)> = vec![];
        for (p, a) in before {
            if skip(p) {
                continue;
            }
            match after.get(p) {
                None => changes.push((p.clone(), "removed")),
                Some(b) => {
                    let dirs = a.kind == 'd' && b.kind == 'd';
                    if !(dirs && a.id == b.id && a.mode == b.mode) && a != b {
                        changes.push((p.clone(), "altered"));
                    }
                }
            }
        }
        for p in after.keys() {
            if !skip(p) && !before.contains_key(p) {
                changes.push((p.clone(), "created"));
            }
        }
        changes.retain(|(p, _)| !edited.iter().any(|e| under(p, e) || under(e, p)));
        let n = ctxs.len();
        let mut bad: Option<(Vec<&str>, String)> = None;
        for (p, what) in &changes {
            let mut fine = false;
            let mut tags: Vec<&str> = vec!["C15"];
            for i in 0..n {
                let c = &ctxs[i];
                let ok = outs[i].end == End::Exit(0);
                match &c.spec.cmd {
                    Cmd::Init => fine |= *what == "created" && under(c.target.as_bytes(), p) && after[p].kind == 'd',
                    Cmd::Fetch { dest, .. } => {
                        tags.push("C09");
                        if self.repos.get(&c.target).map_or(false, |r| r.hurt) {
                            tags.push("C12");
                        }
                        let d = absolute(&c.cwd_path, &unesc(dest));
                        if *what == "created" {
                            let above = under(&d, p) && p != &d;
                            let tree = plans[i].1.get(0).and_then(|k| k.as_ref()).and_then(|k| self.known.trees.get(k));
                            let listed = match tree {
                                Some(f) => p == &d || below(p, &d).map_or(false, |r| f.contains_key(&esc(r))),
                                None => under(p, &d),
                            };
                            fine |= above || listed || (!ok && (under(p, &d) || p.rsplitn(2, |b| *b == b'/').nth(1) == d.rsplitn(2, |b| *b == b'/').nth(1)));
                        }
                    }
                    Cmd::Checkout => {
                        tags.push("C10");
                        if let Some(l) = &c.loc {
                            let root = self.w.fs.lookup(&l.repo).map(|i| self.w.fs.path_of(i)).unwrap_or_else(|| l.repo.clone());
                            let allowed = under(&root, CHECKOUT_ROOT) || ok;
                            if under(p, &root) && p != &root && allowed {
                                let rel = below(p, &root).unwrap();
                                let tree = plans[i].1.get(0).and_then(|k| k.as_ref()).and_then(|k| self.known.trees.get(k));
                                let kept = hidden(&c.spec.excl, &l.repo, rel);
                                fine |= !kept || *what == "created" && (!ok || tree.map_or(true, |t| t.contains_key(&esc(rel))));
                            }
                        }
                    }
                    _ => {}
                }
            }
            if !fine && bad.is_none() {
                if self.cache_hurt {
                    tags.push("C17");
                }
                if ctxs.iter().any(|c| matches!(c.spec.cmd, Cmd::Checkout)) {
                    tags.push("C18");
                }
                bad = Some((tags, format!("{} was {} by {}", esc(p), what, self.log.last().unwrap())));
            }
        }
        if let Some((t, m)) = bad {
            self.viol(&t, "file-changed", m);
        }
        for i in 0..n {
            let c = &ctxs[i];
            if outs[i].end != End::Exit(0) {
                // a checkout that was refused leaves everything as it was
                let refused = plans[i].0.must == Must::Fail || c.loc.as_ref().map_or(false, |l| !under(&l.repo, CHECKOUT_ROOT));
                if let (Cmd::Checkout, true, false, false, true) = (&c.spec.cmd, n == 1, excuse(i), changes.is_empty(), refused) {
                    self.viol(&["C10", "C15"], "refused-checkout-changed-files", format!("checkout failed ({}) after {} was {}", plans[i].0.why, esc(&changes[0].0), changes[0].1));
                }
                continue;
            }
            let hurt = self.repos.get(&c.target).map_or(false, |r| r.hurt);
            match &c.spec.cmd {
                Cmd::Fetch { dest, .. } => {
                    let d = absolute(&c.cwd_path, &unesc(dest));
                    let f = match plans[i].1.get(0).and_then(|k| k.as_ref()).and_then(|k| self.known.trees.get(k)) {
                        Some(f) => f.clone(),
                        None => continue,
                    };
                    let mut t = self.tags(&["C09", "C01", "C05", "C11"], &[]);
                    if hurt {
                        t = vec!["C12"];
                    }
                    if plans[i].0.must == Must::Fail && plans[i].0.why == "something is in the way" {
                        self.viol(&t, "fetch-over-existing", format!("fetch to {} reports success although {}", dest, plans[i].0.why));
                        continue;
                    }
                    let v = View { fs: &self.w.fs, db: b"\0".to_vec(), excl: &[], all: true };
                    let sn = v.snap(&mut self.dg, ROOT, &d);
                    let mut m = None;
                    if !f.contains_key("") && sn.root_file {
                        m = Some(format!("{} is a file", dest));
                    } else if sn.fatal.is_some() && !f.is_empty() {
                        m = sn.fatal.clone();
                    } else if self.w.fs.lookup(&d).is_none() {
                        m = Some(format!("{} does not exist", dest));
                    }
                    for (p, x) in f.iter() {
                        if m.is_none() && sn.flat.get(p) != Some(x) {
                            m = Some(format!("{:?} should be {:?} and is {:?}", p, x, sn.flat.get(p)));
                        }
                    }
                    if let Some(m) = m {
                        self.viol(&t, "fetch-incomplete", format!("fetch of {} reports success, but {}", c.keys[0], m));
                    }
                }
                Cmd::Checkout => {
                    // with others at work, HEAD and the ref may have been anything they were meanwhile
                    let mut trees: Vec<Arc<Flat>> = vec![];
                    if n > 1 && !hurt {
                        let pre = L::of(&self.repos[&c.target].obs);
                        self.refresh(&c.target, &[])?;
                        let post = L::of(&self.repos[&c.target].obs);
                        let mut heads: BTreeSet<String> = pre.head.iter().chain(post.head.iter()).cloned().collect();
                        for o in ctxs {
                            match &o.spec.cmd {
                                Cmd::SetHead { refname } | Cmd::CheckoutHead { refname } => {
                                    heads.insert(refname.clone());
                                }
                                Cmd::Init => {
                                    heads.insert("master".into());
                                }
                                _ => {}
                            }
                        }
                        for h in heads {
                            let rk = (h, None);
                            let old = pre.refs.get(&rk).map_or(0, |l| l.len());
                            for k in post.refs.get(&rk).map_or(&[][..], |l| &l[old.max(1) - 1..]) {
                                match self.known.objs.get(k).and_then(|o| o.kids.get(0)).and_then(|t| self.known.trees.get(t)) {
                                    Some(f) => trees.push(f.clone()),
                                    None => trees.clear(),
                                }
                            }
                        }
                    } else if let Some(f) = plans[i].1.get(0).and_then(|k| k.as_ref()).and_then(|k| self.known.trees.get(k)) {
                        trees.push(f.clone());
                    }
                    let l = c.loc.as_ref().unwrap();
                    let v = View { fs: &self.w.fs, db: c.target.clone().into_bytes(), excl: &c.spec.excl, all: false };
                    let sn = v.snap(&mut self.dg, ROOT, &l.repo);
                    let dbrel: Option<Vec<u8>> = c.target.as_bytes().strip_prefix(&l.repo[..]).map(|x| x[1.min(x.len())..].to_vec());
                    let mut bad: Option<String> = None;
                    for f in &trees {
                        let mut m = None;
                        for (p, x) in f.iter() {
                            let rel = unesc(p);
                            if hidden(&c.spec.excl, &l.repo, &rel) || dbrel.as_ref().map_or(false, |d| under(&rel, d)) {
                                continue;
                            }
                            if sn.flat.get(p) != Some(x) && m.is_none() {
                                m = Some(format!("{:?} should be {:?} and is {:?}", p, x, sn.flat.get(p)));
                            }
                        }
                        for (p, x) in &sn.flat {
                            if f.get(p).map(|y| y.0) != Some(x.0) && m.is_none() {
                                // a directory may stay for the sake of excluded things in it
                                let root = self.w.fs.lookup(&l.repo).map(|i| self.w.fs.path_of(i)).unwrap_or_default();
                                let full = join(&root, &unesc(p));
                                let holds = x.0
                                    && after.keys().any(|q| {
                                        under(q, &full) && q != &full && (hidden(&c.spec.excl, &l.repo, below(q, &root).unwrap_or(q)) || dbs.iter().any(|d| under(q, d)))
                                    });
                                if !holds {
                                    m = Some(format!("{:?} is not in the snapshot and is still there", p));
                                }
                            }
                        }
                        match m {
                            None => {
                                bad = None;
                                break;
                            }
                            m => bad = m,
                        }
                    }
                    if let Some(m) = bad {
                        let mut t = self.tags(&["C10", "C05"], &[]);
                        if !c.spec.excl.is_empty() {
                            t.push("C18");
                        }
                        self.viol(&t, "checkout-inexact", format!("checkout reports success, but {}", m));
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }

    // ---- other steps ----

    fn damage(&mut self, t: &Target, h: &Harm) -> Res<()> {
        if let Target::Db(d) = t {
            if self.repos.get(d).map_or(false, |r| !r.hurt) {
                // remember what everything should read as
                let want: Vec<String> =
                    self.repos[d].obs.keys.iter().filter(|k| self.known.objs.get(*k).map_or(false, |o| o.ty.starts_with("FSItem"))).take(80).cloned().collect();
                self.refresh(d, &want)?;
            }
        }
        self.harm(t, h);
        Ok(())
    }

    fn harm(&mut self, t: &Target, h: &Harm) {
        let cache = "/home/jess/.cache/snapcd";
        let path = match t {
            Target::Db(d) => format!("{}/snapcd.db", d),
            Target::Cache => format!("{}/cache.db", cache),
            Target::CacheWal => format!("{}/cache.db-wal", cache),
            Target::CacheShm => format!("{}/cache.db-shm", cache),
            Target::CacheDir => cache.to_string(),
        };
        let now = self.w.clock;
        if let Target::Db(d) = t {
            match self.repos.get_mut(d) {
                Some(r) => r.hurt = true,
                None => return,
            }
        } else {
            self.cache_hurt = true;
        }
        let mut spot = vec![];
        if let (Target::Db(d), Harm::Object { ty, i, .. }) = (t, h) {
            let v: Vec<&String> = self.repos[d].obs.keys.iter().filter(|k| ty.is_empty() || self.known.objs.get(*k).map_or(false, |o| o.ty == *ty)).collect();
            if !v.is_empty() {
                spot = crate::store::key_from_text(v[*i as usize % v.len()]);
            }
        }
        let digests: std::collections::HashSet<Vec<u8>> = match h {
            // the cache leads to files only
            Harm::Cross { .. } => self.known.objs.iter().filter(|(_, o)| o.ty == "FSItemFile" || !matches!(t, Target::Cache)).map(|(k, _)| crate::store::key_from_text(k)).collect(),
            _ => Default::default(),
        };
        let versions: Vec<Arc<Vec<u8>>> = match t {
            Target::Db(d) => self.repos[d].versions.clone(),
            _ => vec![],
        };
        let fs = &mut self.w.fs;
        let id = fs.lookup(path.as_bytes());
        let data = id.and_then(|i| fs.file(i).ok().map(|f| (*f.data).clone()));
        let page = 4096usize.min(data.as_ref().map_or(4096, |d| d.len().max(1)));
        let set = |fs: &mut Fs, d: Vec<u8>| {
            if let Some(i) = id {
                fs.set_raw(i, d);
            }
        };
        match (h, data) {
            (Harm::Delete, _) => {
                let _ = fs.remove_all(path.as_bytes(), now);
            }
            (Harm::Dir, _) => {
                let _ = fs.remove_all(path.as_bytes(), now);
                let _ = fs.mkdirs(path.as_bytes(), now);
            }
            (Harm::Chmod(m), _) => {
                if let Some(i) = id {
                    fs.chmod(i, *m, now);
                }
            }
            (Harm::Garbage { seed, len }, _) => {
                let mut r = Rng::new(*seed);
                let d: Vec<u8> = (0..*len).map(|_| r.next() as u8).collect();
                if let (Target::CacheDir, _) = (t, 0) {
                    let _ = fs.remove_all(path.as_bytes(), now);
                }
                let dir = path.rsplitn(2, '/').nth(1).unwrap().to_string();
                let _ = fs.mkdirs(dir.as_bytes(), now);
                let _ = fs.put_file(path.as_bytes(), Arc::new(d.clone()), now);
                if let Some(i) = fs.lookup(path.as_bytes()) {
                    fs.set_raw(i, d);
                }
            }
            (Harm::Empty, Some(_)) => set(fs, vec![]),
            (Harm::Flip { seed, bits }, Some(mut d)) if !d.is_empty() => {
                let mut r = Rng::new(*seed);
                let n = d.len() as u64;
                for _ in 0..*bits {
                    let i = r.below(n) as usize;
                    d[i] ^= 1 << r.below(8);
                }
                set(fs, d);
            }
            (Harm::ZeroPage { seed }, Some(mut d)) if !d.is_empty() => {
                let mut r = Rng::new(*seed);
                let size = if r.chance(1, 2) { 16384.min(d.len()) } else { page };
                let k = r.below((d.len() / size).max(1) as u64) as usize * size;
                for b in d[k..].iter_mut().take(size) {
                    *b = 0;
                }
                set(fs, d);
            }
            (Harm::SwapPages { seed }, Some(mut d)) if d.len() >= 32768 || d.len() >= 8192 && !matches!(t, Target::Db(_)) => {
                let mut r = Rng::new(*seed);
                let size = if matches!(t, Target::Db(_)) { 16384 } else { 4096 };
                let n = (d.len() / size) as u64;
                let (a, b) = (r.below(n) as usize * size, r.below(n) as usize * size);
                if a != b {
                    for i in 0..size {
                        d.swap(a + i, b + i);
                    }
                }
                set(fs, d);
            }
            (Harm::Cross { seed }, Some(mut d)) => {
                let mut r = Rng::new(*seed);
                let at: Vec<usize> = d.windows(32).enumerate().filter(|(_, w)| digests.contains(*w)).map(|(i, _)| i).collect();
                if at.len() > 1 {
                    let a = *r.pick(&at);
                    let others: Vec<usize> = at.iter().copied().filter(|b| (*b < a.saturating_sub(72) || *b > a + 72) && d[a..a + 32] != d[*b..*b + 32]).collect();
                    if !others.is_empty() {
                        let b = *r.pick(&others);
                        let len = if r.chance(1, 2) { 32 } else { 40 };
                        let both = r.chance(2, 3);
                        for i in 0..len {
                            if a.max(b) + i < d.len() {
                                let x = d[a + i];
                                d[a + i] = d[b + i];
                                if both {
                                    d[b + i] = x;
                                }
                            }
                        }
                        set(fs, d);
                    }
                }
            }
            (Harm::StalePage { seed }, Some(mut d)) if !versions.is_empty() => {
                let mut r = Rng::new(*seed);
                let v = r.pick(&versions).clone();
                let n = (v.len().min(d.len()) / 16384).max(1) as u64;
                let k = r.below(n) as usize * 16384;
                for i in k..(k + 16384).min(v.len()).min(d.len()) {
                    d[i] = v[i];
                }
                set(fs, d);
            }
            (Harm::OldVersion { seed }, Some(_)) if !versions.is_empty() => {
                let mut r = Rng::new(*seed);
                let v = r.pick(&versions).clone();
                set(fs, (*v).clone());
            }
            (Harm::Truncate { seed }, Some(mut d)) => {
                let mut r = Rng::new(*seed);
                let n = r.below(d.len() as u64 + 1) as usize;
                d.truncate(n);
                set(fs, d);
            }
            (Harm::Value { seed }, Some(mut d)) if d.len() > 16384 => {
                // a byte of a run of printable text or filler: most likely inside a stored value
                let mut r = Rng::new(*seed);
                for _ in 0..200 {
                    let i = 16384 + r.below(d.len() as u64 - 16384) as usize;
                    let lo = i.saturating_sub(8);
                    if d[lo..(i + 8).min(d.len())].iter().all(|b| (0x20..0x7f).contains(b) || *b == b'\n') {
                        d[i] ^= 1 << r.below(4);
                        break;
                    }
                }
                set(fs, d);
            }
            (Harm::Object { seed, .. }, Some(mut d)) if spot.len() == 32 => {
                let mut r = Rng::new(*seed);
                let at: Vec<usize> = d.windows(32).enumerate().filter(|(_, w)| *w == &spot[..]).map(|(i, _)| i).collect();
                if !at.is_empty() {
                    let a = *r.pick(&at);
                    let i = match r.below(4) {
                        0 => a + r.below(32) as usize,
                        1 => a + 32 + r.below(8) as usize,
                        2 => a + 32 + r.below(64) as usize,
                        _ => a + 32 + r.below(400) as usize,
                    };
                    if i < d.len() {
                        d[i] ^= 1 << r.below(8);
                    }
                    set(fs, d);
                }
            }
            _ => {}
        }
    }

    pub fn step(&mut self, st: &Step) -> Res<Vec<Viol>> {
        install(&mut *self.w);
        self.sink.clear();
        self.w.through = vec![];
        match st {
            Step::Edit { path, op } => {
                apply_edit(&mut self.w, path, op);
                self.meddled(path, op);
                self.log.push(format!("edit {} {}", path, clip(&format!("{:?}", op), 60)));
            }
            Step::Advance { ms } => {
                self.w.clock += ms * 1_000_000;
                self.log.push(format!("clock {:+} ms", ms));
            }
            Step::Run { procs, sched } => self.run_step(procs, sched)?,
            Step::Power { seed } => {
                let lost = self.w.power_off(*seed);
                *self.w.stats.fired.entry("power_loss_between_commands".into()).or_insert(0) += 1;
                self.log.push(format!("power loss ({} un-synced changes lost)", lost));
                self.after_power()?;
            }
            Step::Damage { target, harm } => {
                self.damage(target, harm)?;
                *self.w.stats.fired.entry(if let Target::Db(_) = target { "media_damage".into() } else { "cache_damage".to_string() }).or_insert(0) += 1;
                self.log.push(format!("damage {:?} {:?}", target, harm));
            }
            Step::Salt(x) => {
                self.w.fs.salt = *x;
                self.log.push("listing order changes".into());
            }
            Step::Restore { path } => {
                self.restore(&unesc(path));
                self.log.push(format!("restore {}", path));
            }
            Step::Stream(sp) => {
                let sp2 = sp.clone();
                let j = Job { cwd: b"/".to_vec(), faults: sp.faults.clone(), body: Box::new(move || crate::stream::body(&sp2)) };
                let o = run(&mut self.w, vec![j], Sched::Fixed(vec![]))?.remove(0);
                self.log.push(format!("stream -> {:?}", o.end));
                self.commands += 1;
                self.judge_stream(sp, &o)?;
            }
            Step::Store(sp) => self.store(sp)?,
        }
        Ok(std::mem::take(&mut self.sink))
    }

    /// C07: the same content stored by another machine in a fresh repository gets the same key.
    pub fn canonical(&mut self, root: &str) -> Res<Vec<Viol>> {
        let v = View { fs: &self.w.fs, db: format!("{}/{}", root, self.machine.db_name).into_bytes(), excl: &[], all: false };
        let sn = v.snap(&mut self.dg, ROOT, root.as_bytes());
        let f = digest(&serde_json::to_vec(&(false, &sn.flat)).unwrap());
        let key = match self.key_of.get(&f) {
            Some(k) if sn.odd.is_none() && sn.fatal.is_none() => k.clone(),
            _ => return Ok(vec![]),
        };
        let m = Machine { salt: self.machine.salt ^ 0x9999, reuse: false, gran: 1, cache_pages: 0, db_name: ".snapcd".into(), mounts: vec![], dirs: vec!["/home/jess/plain/in".into()] };
        let mut e = Exec::new(&m, 7);
        for (p, (dir, _)) in sn.flat.iter().rev() {
            let to = join(b"/home/jess/plain/in", &unesc(p));
            let up = to.rsplitn(2, |b| *b == b'/').nth(1).unwrap().to_vec();
            let now = e.w.clock;
            let _ = e.w.fs.mkdirs(&up, now);
            if *dir {
                let _ = e.w.fs.mkdirs(&to, now);
            } else if let Some(d) = self.raw_bytes(&s(&join(root.as_bytes(), &unesc(p)))) {
                let _ = e.w.fs.put_file(&to, d, now);
            }
        }
        let one = |cmd| PSpec { cwd: "/home/jess/plain".into(), db: None, excl: vec![], cmd, faults: vec![] };
        let mut out = vec![];
        for c in vec![Cmd::Init, Cmd::Insert { path: "in".into() }] {
            out.extend(e.step(&Step::Run { procs: vec![one(c)], sched: Sched::Fixed(vec![]) })?);
        }
        if let Some((_, k)) = e.inserted.get(0) {
            if *k != key {
                out.push(Viol::new(&["C07"], "key-not-canonical", format!("the tree at {} has key {}; the same content in a fresh repository has key {}", root, key, k)));
            }
        }
        install(&mut *self.w);
        for v in out.iter_mut() {
            v.step = self.log.len();
        }
        Ok(out)
    }

    fn judge_stream(&mut self, sp: &crate::stream::StreamSpec, o: &Outcome) -> Res<()> {
        let killed = o.end == End::Killed || o.end == End::Power;
        let reliable = sp.faults.iter().zip(&o.fired).all(|(f, n)| *n == 0 || matches!(f, Fault::Short { .. } | Fault::Stall { .. }));
        match o.end {
            End::Exit(0) => match serde_json::from_slice::<Vec<Viol>>(&o.out) {
                Ok(v) => {
                    for mut v in v {
                        v.step = self.log.len();
                        self.sink.push(v);
                    }
                }
                Err(_) => self.viol(&["C06"], "stream-no-answer", clip(&s(&o.out), 200)),
            },
            End::Hung => self.viol(&["C06", "C16"], "stream-never-ends", format!("still running after {} calls", o.ops)),
            _ if killed || !reliable => {}
            _ => self.viol(&["C06"], "stream-crashed", format!("{:?} {}", o.end, clip(&s(&o.err), 200))),
        }
        Ok(())
    }

    fn store(&mut self, sp: &crate::store::StoreSpec) -> Res<()> {
        use crate::store::*;
        let mut found = vec![];
        match sp {
            StoreSpec::Script { db, .. } | StoreSpec::Race { db, .. } => self.store_paths.insert(db.clone()),
        };
        match sp {
            StoreSpec::Script { db, ops, faults } => {
                let faulty = !faults.is_empty();
                let (d, o2) = (db.clone(), ops.clone());
                let j = Job { cwd: b"/".to_vec(), faults: faults.clone(), body: Box::new(move || script_body(&d, &o2, faulty)) };
                let o = run(&mut self.w, vec![j], Sched::Fixed(vec![]))?.remove(0);
                self.log.push(format!("store script of {} operations -> {:?}", ops.len(), o.end));
                self.commands += ops.len() as u64;
                let start = self.store_db.get(db).cloned().unwrap_or_default();
                let cands = judge_script(&start, ops, &o, faulty, &mut found);
                let d = db.clone();
                let dump = self.aside(Job { cwd: b"/".to_vec(), faults: vec![], body: Box::new(move || dump_body(&d)) })?;
                let missing = self.w.fs.lookup(db.as_bytes()).map_or(true, |i| self.w.fs.file(i).map_or(true, |f| f.data.is_empty()));
                if missing || (dump.end != End::Exit(0) && s(&dump.out).contains("no such table") && start == Db::default()) {
                    if !cands.iter().any(|c| *c == Db::default()) {
                        found.push(Viol::new(&["C14"], "store-wrong-state", "the database is empty although a transaction was committed".into()));
                    }
                } else if let Some(x) = judge_dump(&cands, &dump, &["C14", "C02"], &mut found) {
                    self.store_db.insert(db.clone(), x);
                }
                if cands.len() > 1 {
                    // which of them it is must not change at a later power loss
                    self.w.fs.flush();
                }
            }
            StoreSpec::Race { db, racers, sched } => {
                let jobs = racers
                    .iter()
                    .enumerate()
                    .map(|(i, r)| {
                        let (d, r2) = (db.clone(), r.clone());
                        Job { cwd: b"/".to_vec(), faults: r.faults.clone(), body: Box::new(move || race_body(&d, i, &r2)) as Box<dyn Fn() -> i32> }
                    })
                    .collect();
                let outs = run(&mut self.w, jobs, sched.clone())?;
                self.log.push(format!("store race of {} processes -> {:?}", racers.len(), outs.iter().map(|o| &o.end).collect::<Vec<_>>()));
                self.commands += racers.iter().map(|r| r.rounds).sum::<u64>();
                let d = db.clone();
                let dump = self.aside(Job { cwd: b"/".to_vec(), faults: vec![], body: Box::new(move || dump_body(&d)) })?;
                let opened = outs.iter().any(|o| s(&o.out).contains("committing"));
                if dump.end == End::Exit(0) || opened {
                    judge_race(racers, &outs, &dump, &mut found);
                }
            }
        }
        for mut v in found {
            v.step = self.log.len();
            self.sink.push(v);
        }
        Ok(())
    }

    fn after_power(&mut self) -> Res<()> {
        self.faults_before = true;
        let dbs: Vec<String> = self.repos.keys().cloned().collect();
        for db in dbs {
            if self.repos[&db].hurt {
                continue;
            }
            let pre = self.repos[&db].obs.clone();
            self.refresh(&db, &[])?;
            let post = self.repos[&db].obs.clone();
            self.closure(&db);
            if !pre.same_logical(&post) && post.err.is_none() {
                self.viol(&["C01", "C02", "C13"], "lost-at-power-loss", format!("{}: refs or HEAD changed at a power loss while nothing was running: {:?} {:?} became {:?} {:?}", db, pre.head, pre.refs, post.head, post.refs));
            }
        }
        Ok(())
    }

    fn restore(&mut self, path: &[u8]) {
        let now = self.w.clock;
        let id = match self.w.fs.lookup(path) {
            Some(i) => i,
            None => return,
        };
        if self.w.fs.is_dir(id) {
            let kids: Vec<Vec<u8>> = self.w.fs.dir(id).map(|m| m.keys().cloned().collect()).unwrap_or_default();
            for k in kids {
                let q = join(path, &k);
                if self.repos.keys().any(|d| under(&q, d.as_bytes())) {
                    continue;
                }
                if let Ok((_, _, Some(i))) = self.w.fs.resolve_at(ROOT, &q, false) {
                    if !matches!(self.w.fs.node(i).node, Node::Link(_)) {
                        self.restore(&q);
                    }
                }
            }
        } else if let Ok(f) = self.w.fs.file(id) {
            let d = f.data.clone();
            let mode = self.w.fs.node(id).mode;
            let _ = self.w.fs.remove_all(path, now);
            if let Ok(i) = self.w.fs.put_file(path, d, now) {
                self.w.fs.chmod(i, mode, now);
            }
        }
    }
}

fn plans_effect(_p: &Plan) -> bool {
    true
}

/// Excluded itself, or inside something excluded.
pub fn hidden(excl: &[String], base: &[u8], rel: &[u8]) -> bool {
    if excl.is_empty() {
        return false;
    }
    let mut i = 0;
    loop {
        let end = rel[i..].iter().position(|b| *b == b'/').map_or(rel.len(), |j| i + j);
        if excluded(excl, &join(base, &rel[..end])) {
            return true;
        }
        if end >= rel.len() {
            return false;
        }
        i = end + 1;
    }
}

/// The rest of a path that is strictly inside a directory.
fn below<'a>(p: &'a [u8], dir: &[u8]) -> Option<&'a [u8]> {
    if p == dir || !under(p, dir) {
        return None;
    }
    let r = &p[dir.len()..];
    Some(r.strip_prefix(b"/").unwrap_or(r))
}

fn show_list(l: Option<&Vec<String>>) -> String {
    match l {
        None => "empty".into(),
        Some(l) => format!("[{}]", l.iter().map(|k| k.chars().take(9).collect::<String>()).collect::<Vec<_>>().join(" ")),
    }
}

pub fn flat_diff(want: &Flat, got: &Flat) -> Option<String> {
    for (p, x) in want {
        match got.get(p) {
            None => return Some(format!("{:?} is missing", p)),
            Some(y) if y != x => return Some(format!("{:?} should be {:?} and is {:?}", p, x, y)),
            _ => {}
        }
    }
    got.keys().find(|p| !want.contains_key(*p)).map(|p| format!("{:?} should not be there", p))
}

fn perms(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

fn fsmap(fs: &Fs, skip: &[Vec<u8>]) -> FsMap {
    fn go(fs: &Fs, id: Id, path: &mut Vec<u8>, skip: &[Vec<u8>], out: &mut FsMap) {
        let n = fs.node(id);
        let (kind, data) = match &n.node {
            Node::File(f) => ('f', Some(f.data.clone())),
            Node::Dir(_) => ('d', None),
            Node::Link(t) => ('l', Some(Arc::new(t.clone()))),
        };
        if !path.is_empty() {
            out.insert(path.clone(), Ent { kind, id, data, mtime: if kind == 'd' { ORD } else { n.mtime }, mode: n.mode });
        }
        if let Node::Dir(m) = &n.node {
            for (name, c) in m {
                let l = path.len();
                path.push(b'/');
                path.extend_from_slice(name);
                if !skip.iter().any(|s| s == path) {
                    go(fs, *c, path, skip, out);
                }
                path.truncate(l);
            }
        }
    }
    let mut out = FsMap::new();
    go(fs, ROOT, &mut vec![], skip, &mut out);
    out
}

/// What a user does to a file.
pub fn apply_edit(w: &mut World, path: &str, op: &EditOp) {
    let p = unesc(path);
    w.clock += 1_000_000;
    let now = w.clock;
    let _ = (|| -> R<()> {
        let old = w.fs.lookup(&p).map(|i| w.fs.node(i).mtime);
        let set_time = |w: &mut World, t: Option<i64>| {
            if let (Some(t), Some(id)) = (t, w.fs.lookup(&p)) {
                w.fs.set_mtime(id, t);
            }
        };
        match op {
            EditOp::Write(c) | EditOp::WriteKeepTime(c) => {
                let dir = p.rsplitn(2, |b| *b == b'/').nth(1).unwrap_or(b"/").to_vec();
                w.fs.mkdirs(&dir, now)?;
                w.fs.put_file(&p, c.arc(), now)?;
                if let EditOp::WriteKeepTime(_) = op {
                    set_time(w, old);
                }
            }
            EditOp::Poke { off, xor, keep_time } => {
                let id = w.fs.lookup(&p).ok_or(libc::ENOENT)?;
                let mut d = (*w.fs.file(id)?.data).clone();
                if d.is_empty() {
                    return Ok(());
                }
                let i = *off as usize % d.len();
                d[i] ^= (*xor).max(1);
                w.fs.put_file(&p, Arc::new(d), now)?;
                if *keep_time {
                    set_time(w, old);
                }
            }
            EditOp::Append(c) => {
                let id = w.fs.lookup(&p).ok_or(libc::ENOENT)?;
                let mut d = (*w.fs.file(id)?.data).clone();
                d.extend(c.make());
                w.fs.put_file(&p, Arc::new(d), now)?;
            }
            EditOp::Replace { content, keep_time } => {
                let (dir, name, t) = w.fs.resolve_at(ROOT, &p, false)?;
                let id = t.ok_or(libc::ENOENT)?;
                w.fs.file(id)?;
                let mut tmp = p.clone();
                tmp.extend_from_slice(b".tmp~");
                w.fs.put_file(&tmp, content.arc(), now)?;
                let (d2, n2, _) = w.fs.resolve_at(ROOT, &tmp, false)?;
                w.fs.rename(d2, &n2, dir, &name, now)?;
                if *keep_time {
                    set_time(w, old);
                }
            }
            EditOp::Mkdir => {
                w.fs.mkdirs(&p, now)?;
            }
            EditOp::Remove => w.fs.remove_all(&p, now)?,
            EditOp::Rename(to) => {
                let (a, n, t) = w.fs.resolve_at(ROOT, &p, false)?;
                t.ok_or(libc::ENOENT)?;
                let (b, m, _) = w.fs.resolve_at(ROOT, &unesc(to), false)?;
                w.fs.rename(a, &n, b, &m, now)?;
            }
            EditOp::Link(to) => {
                let (a, n, t) = w.fs.resolve_at(ROOT, &p, false)?;
                if t.is_none() {
                    w.fs.mknode(a, &n, Node::Link(unesc(to)), 0o777, now)?;
                }
            }
            EditOp::Touch(back) => {
                let id = w.fs.lookup(&p).ok_or(libc::ENOENT)?;
                w.fs.touch(id, now);
                w.fs.set_mtime(id, now - *back * 1_000_000);
            }
            EditOp::Chmod(m) => {
                let id = w.fs.lookup(&p).ok_or(libc::ENOENT)?;
                w.fs.chmod(id, *m, now);
            }
        }
        Ok(())
    })();
    let real = w.fs.lookup(&p).map(|i| w.fs.path_of(i));
    w.through.extend(real);
}
