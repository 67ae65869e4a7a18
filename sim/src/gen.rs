//! Seeded generation of scenarios: machine, user actions, schedules and faults. Works online - the next
//! step is chosen looking at the simulated machine as it is - but every step is explicit data, so that
//! carrying a recorded scenario out again needs no generator.
use crate::exec::*;
use crate::fs::*;
use crate::model::{join, under};
use crate::observe::{esc, unesc};
use crate::rng::Rng;
use crate::scen::*;
use crate::store::{Racer, SOp, StoreSpec};
use crate::stream::{Cuts, StreamSpec};
use crate::world::*;
use std::collections::VecDeque;

const EDIT: usize = 0;
const ADV: usize = 1;
const STATUS: usize = 2;
const COMPARE: usize = 3;
const COMMIT: usize = 4;
const INSERT: usize = 5;
const FETCH: usize = 6;
const SHOW: usize = 7;
const LOG: usize = 8;
const CHECKOUT: usize = 9;
const CHEAD: usize = 10;
const REFLOG: usize = 11;
const REFUPD: usize = 12;
const SETHEAD: usize = 13;
const GETHEAD: usize = 14;
const RPUSH: usize = 15;
const RGET: usize = 16;
const PPRINT: usize = 17;
const WALK: usize = 18;
const CTREE: usize = 19;
const POWER: usize = 20;
const SALT: usize = 21;
const RESTORE: usize = 22;
const CACHEDMG: usize = 23;
const INIT2: usize = 24;
const TWIN: usize = 25;
const DBDMG: usize = 26;
const W: usize = 27;

// fault kinds
const KILL: usize = 0;
const PWR: usize = 1;
const ERRDB: usize = 2;
const ERRCACHE: usize = 3;
const ERRTREE: usize = 4;
const SHORT: usize = 5;
const FULL: usize = 6;
const FOREIGN: usize = 7;
const STDOUT: usize = 8;
const OOM: usize = 9;
const STALL: usize = 10;
const F: usize = 11;

#[derive(Clone)]
struct Prof {
    steps: (u64, u64),
    w: [u32; W],
    fault: u32,
    kinds: [u32; F],
    multi: u32,
    excl: u32,
    /// percent of machines whose repository lies where checkout works
    a: u32,
    two: u32,
    odd: u32,
    epilogue: u32,
    many: u32,
    /// of a thousand: a directory with very many entries
    wide: u32,
    stream: u32,
    store: u32,
    /// percent of scenarios that end with damage to the database file
    dmg: u32,
    /// of 1000 steps, how many are trees in which files and directories change places
    flip: u32,
    /// percent of commands reading the working tree during which files are edited
    race: u32,
    /// per mille of steps before which a longer history is made
    hist: u32,
}

fn prof(id: &str) -> Prof {
    let mut p = Prof {
        steps: (7, 16),
        w: [26, 7, 6, 4, 14, 5, 6, 2, 2, 3, 3, 2, 2, 2, 1, 2, 1, 1, 1, 1, 2, 1, 2, 1, 1, 2, 0],
        fault: 20,
        kinds: [12, 8, 10, 5, 8, 8, 6, 3, 3, 2, 2],
        multi: 6,
        excl: 25,
        a: 50,
        two: 15,
        odd: 15,
        epilogue: 25,
        many: 0,
        wide: match id {
            "C05" | "C08" | "C09" | "C10" => 10,
            "C06" | "C14" | "C04" => 0,
            _ => 4,
        },
        stream: 0,
        store: 0,
        hist: 4,
        flip: match id {
            "C10" => 40,
            "C15" | "C18" | "C08" | "C05" => 12,
            "C06" | "C14" | "C12" => 0,
            _ => 4,
        },
        dmg: 0,
        race: match id {
            "C07" => 20,
            "C08" | "C17" => 12,
            "C01" | "C18" => 8,
            "C06" | "C12" | "C14" => 0,
            _ => 3,
        },
    };
    match id {
        "C01" => {
            p.odd = 30;
            p.w[FETCH] = 14;
            p.w[INSERT] = 10;
            p.w[POWER] = 5;
            p.fault = 25;
            p.many = 4;
            p.epilogue = 70;
        }
        "C02" => {
            p.fault = 75;
            p.kinds = [30, 22, 14, 4, 4, 2, 8, 6, 3, 3, 3];
            for i in [COMMIT, REFUPD, SETHEAD, RPUSH, CHEAD] {
                p.w[i] += 8;
            }
            for i in [SHOW, LOG, PPRINT, WALK, STATUS, COMPARE, FETCH, CHECKOUT] {
                p.w[i] = 1;
            }
        }
        "C03" => {
            p.fault = 55;
            p.kinds = [24, 24, 14, 6, 6, 2, 10, 4, 2, 3, 4];
            p.w[COMMIT] += 8;
            p.w[INSERT] += 4;
            p.w[CTREE] += 4;
            p.w[REFUPD] += 3;
            p.w[POWER] = 6;
            p.multi = 15;
        }
        "C04" => {
            p.multi = 80;
            p.fault = 12;
            p.kinds = [10, 3, 3, 1, 1, 2, 1, 4, 0, 1, 10];
            p.steps = (6, 10);
            for i in [COMMIT, REFUPD, SETHEAD, RPUSH, CHEAD] {
                p.w[i] += 6;
            }
            p.w[COMMIT] += 14;
            p.w[CHECKOUT] = 0;
        }
        "C05" => {
            p.fault = 75;
            p.kinds = [3, 1, 22, 4, 20, 8, 16, 12, 14, 5, 3];
            p.w[FETCH] += 5;
            p.w[STATUS] += 5;
            p.w[LOG] += 2;
            p.w[SHOW] += 4;
            p.w[CHECKOUT] += 3;
        }
        "C06" => {
            p.steps = (3, 6);
            p.stream = 90;
            p.fault = 5;
        }
        "C07" => {
            p.stream = 35;
            p.steps = (5, 12);
            p.w = [26, 6, 3, 2, 14, 14, 2, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 6, 6, 4, 0, 3, 0];
            p.fault = 25;
            p.kinds = [14, 8, 6, 6, 8, 30, 3, 1, 0, 1, 2];
            p.two = 40;
            p.multi = 10;
        }
        "C08" => {
            p.w[EDIT] = 34;
            p.w[ADV] = 10;
            p.w[STATUS] = 20;
            p.w[COMPARE] = 16;
            p.w[CHEAD] = 7;
            p.w[COMMIT] = 10;
            p.w[RESTORE] = 5;
            p.w[TWIN] = 5;
            p.w[CACHEDMG] = 3;
            p.fault = 12;
            p.two = 45;
            p.steps = (10, 20);
            p.multi = 4;
        }
        "C09" => {
            p.w[FETCH] = 34;
            p.w[INSERT] = 10;
            p.fault = 40;
            p.kinds = [14, 6, 10, 2, 24, 12, 18, 2, 3, 2, 1];
        }
        "C10" => {
            p.a = 85;
            p.w[CHECKOUT] = 26;
            p.w[CHEAD] = 6;
            p.w[SETHEAD] = 5;
            p.w[EDIT] = 34;
            p.excl = 45;
            p.fault = 30;
            p.kinds = [16, 8, 8, 2, 24, 10, 14, 2, 2, 2, 1];
            p.steps = (8, 18);
        }
        "C11" => {
            for i in [FETCH, SHOW, LOG, COMPARE, REFUPD, PPRINT, WALK, RPUSH, CTREE] {
                p.w[i] += 4;
            }
            p.w[PPRINT] += 6;
            p.w[WALK] += 6;
            p.w[SHOW] += 4;
            p.w[INSERT] += 4;
            p.w[CTREE] += 3;
            p.fault = 18;
            p.kinds = [6, 4, 22, 2, 3, 3, 3, 6, 2, 6, 2];
            p.w[RPUSH] += 4;
            p.many = 25;
            p.store = 22;
        }
        "C12" => {
            p.steps = (8, 14);
            p.dmg = 100;
            p.w = [20, 3, 0, 0, 16, 12, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0];
            p.fault = 5;
            p.epilogue = 0;
            p.two = 0;
            p.multi = 0;
        }
        "C13" => {
            for i in [REFLOG, REFUPD, SETHEAD, GETHEAD, RPUSH, RGET] {
                p.w[i] += 9;
            }
            p.w[COMMIT] += 4;
            p.w[CHEAD] += 4;
            p.w[INIT2] = 2;
            p.w[POWER] = 4;
            p.fault = 25;
            p.multi = 15;
            p.steps = (10, 20);
            p.store = 6;
            p.hist = 15;
        }
        "C14" => {
            p.store = 100;
            p.steps = (2, 5);
        }
        "C15" => {
            p.w = [16, 3, 10, 10, 6, 6, 8, 8, 8, 1, 6, 6, 2, 2, 4, 2, 4, 4, 6, 2, 1, 1, 1, 2, 1, 1, 0];
            p.fault = 40;
            p.kinds = [14, 6, 12, 6, 12, 6, 8, 4, 6, 4, 2];
            p.odd = 35;
            p.excl = 40;
        }
        "C16" => {
            p.fault = 70;
            p.kinds = [16, 14, 12, 10, 8, 3, 12, 8, 2, 5, 8];
            p.w[POWER] = 8;
            p.w[CACHEDMG] = 6;
            p.multi = 15;
            p.epilogue = 100;
            p.steps = (6, 12);
        }
        "C17" => {
            p.w[CACHEDMG] = 22;
            p.w[STATUS] = 14;
            p.w[COMPARE] = 8;
            p.w[COMMIT] = 16;
            p.w[TWIN] = 8;
            p.w[RESTORE] = 5;
            p.fault = 35;
            p.kinds = [6, 4, 1, 60, 1, 3, 2, 8, 0, 3, 2];
            p.two = 60;
            p.multi = 10;
            p.epilogue = 60;
        }
        "C18" => {
            p.excl = 75;
            p.odd = 60;
            p.w = [28, 3, 10, 8, 18, 12, 3, 1, 1, 6, 4, 0, 0, 0, 0, 0, 0, 0, 3, 0, 2, 1, 1, 0, 1, 0, 0];
            p.fault = 15;
            p.multi = 20;
            p.steps = (8, 18);
        }
        "C19" => {
            p.dmg = 35;
            p.hist = 30;
            p.w[LOG] = 18;
            p.w[SHOW] = 14;
            p.w[COMMIT] = 26;
            p.w[CTREE] = 4;
            p.w[REFUPD] = 4;
            p.fault = 22;
            p.kinds = [8, 6, 24, 1, 3, 3, 3, 4, 10, 6, 2];
            p.steps = (10, 20);
            p.multi = 12;
        }
        _ => {}
    }
    p
}

struct Site {
    root: String,
    /// how -d is given, None: default
    db: Option<String>,
    dbdir: String,
}

pub struct Gen {
    rng: Rng,
    id: String,
    p: Prof,
    left: u64,
    queue: VecDeque<Step>,
    sites: Vec<Site>,
    excl: Vec<String>,
    n: u64,
    broken: bool,
    /// a long history has been made
    hist: bool,
    ended: bool,
    /// how the case is tilted
    pub machine: Machine,
    scripts: u64,
    retried: u64,
    harm_at: u64,
}

const NAMES: [&str; 22] = [
    "a.txt", "b.txt", "c", "data.bin", "main.rs", "x.o", "y.tmp", "notes", "README.md", "z9", "A.txt", "a", "a.txt.bak", "lib.rs", "q.log", "0", "e", "empty", "big.bin",
    "mod.rs", "t1", "t2",
];
const DIRS: [&str; 10] = ["src", "build", "docs", "a", "deep", "src2", "e", "target", "lib", "x.o"];
const ODD: [&str; 22] = [
    ".snapcd-backup", "snapcd.db", "sp ace", "q\"uote", "back\\x5cslash", "star*", "[br]", "{a,b}", "caf\\xc3\\xa9", "-dash", "..dots", "..a", ".hidden", "tab\\x09x", "semi;", "~", "%41", "new",
    "b2345", ".snapcd2", "new\\xff", "\\xc3",
];
const REFS: [&str; 9] = ["master", "dev", "rel", "feat/x", "m", "feat/y/z", "caf\u{e9}", "a b", "Master"];
const REMOTES: [&str; 4] = ["origin", "backup", "master", "feat"];
const PATS: [&str; 14] = [
    "*.o", "*.tmp", "**/build", "*/build", "*.log", "**/x.o", "*/docs/*", "/home/jess/src/snapcd/repo/build", "/home/jess/work/proj/src", "src", "./src", "build", "**/e/**x", "*/a.txt",
];

impl Gen {
    pub fn new(id: &str, seed: u64) -> Gen {
        let mut rng = Rng::new(seed ^ id.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(u64::from(b))) << 20);
        let p = prof(id);
        let r = &mut rng;
        let a = r.chance(u64::from(p.a), 100);
        let root = if a { "/home/jess/src/snapcd/repo" } else { "/home/jess/work/proj" };
        let dflt = r.chance(5, 6);
        let name = if dflt { ".snapcd" } else { *r.pick(&["store", ".snapcd2", "build.db"]) };
        let mut sites = vec![Site { root: root.into(), db: if dflt { None } else { Some(name.into()) }, dbdir: format!("{}/{}", root, name) }];
        let mut mounts = vec![];
        if r.chance(u64::from(p.two), 100) {
            let other = if a { "/home/jess/work/proj" } else { "/home/jess/src/snapcd/repo" };
            sites.push(Site { root: other.into(), db: if dflt { None } else { Some(name.into()) }, dbdir: format!("{}/{}", other, name) });
            if r.chance(2, 3) {
                mounts.push(("/home/jess/work".to_string(), 9u32));
            }
        }
        let excl = if r.chance(u64::from(p.excl), 100) {
            let n = r.range(1, 3);
            let mut v: Vec<String> = vec![];
            if r.chance(1, 8) {
                // a long list, of which the last ones are the ones that matter
                let m = r.range(4, 20);
                v.extend((0..m).map(|i| format!("*/nowhere{}/*", i)));
            }
            v.extend((0..n).map(|_| r.pick(&PATS).to_string()));
            v
        } else {
            vec![]
        };
        let machine = Machine {
            salt: if r.chance(1, 3) { 0 } else { r.next() },
            reuse: r.chance(3, 4),
            gran: *r.pick(&[1, 1, 1, 1_000_000, 1_000_000_000, 2_000_000_000]),
            cache_pages: *r.pick(&[0, 0, 0, 1, 2, 10]),
            db_name: name.into(),
            mounts,
            dirs: vec![
                "/home/jess/src/snapcd/repo".into(),
                "/home/jess/work/proj".into(),
                "/home/jess/work/other".into(),
                "/home/jess/out".into(),
                "/home/jess/docs".into(),
            ],
        };
        let left = r.range(p.steps.0, p.steps.1);
        let harm_at = if r.chance(u64::from(p.dmg), 100) { 5 } else { 0 };
        Gen { rng, id: id.into(), p, left, queue: VecDeque::new(), sites, excl, n: 0, broken: false, hist: false, ended: false, machine, scripts: 0, retried: 0, harm_at }
    }

    pub fn root(&self) -> &str {
        &self.sites[0].root
    }

    fn r(&mut self) -> &mut Rng {
        &mut self.rng
    }

    fn content(&mut self) -> Content {
        let r = &mut self.rng;
        match r.weighted(&[30, 12, 8, 6, 5, 4, 4, 6, 2, 3, 2, 2]) {
            0 => Content::Text { seed: r.below(40), lines: r.range(1, 6) },
            1 => Content::Lit(format!("v{}\n", r.below(1000))),
            2 => Content::Lit(String::new()),
            3 => Content::Bin { seed: r.below(20), len: r.range(1, 400) },
            4 => Content::Text { seed: r.next(), lines: r.range(1, 40) },
            5 => Content::Bin { seed: r.below(6), len: r.range(20_000, 140_000) },
            6 => Content::Lit("no newline at end".into()),
            7 => Content::Fill { byte: *r.pick(&[0, b'Q', b'z']), len: *r.pick(&[1, 4096, 32_767, 32_768, 32_769, 32_770, 65_535, 65_536, 65_537, 70_000, 98_305, 98_306, 131_073]) },
            8 => Content::Cat(vec![Content::Lit("head\r\n".into()), Content::Text { seed: r.below(5), lines: 3 }]),
            9 => Content::Fill { byte: b'y', len: r.range(1, 30) },
            10 => Content::Cat(vec![Content::Quiet { len: r.range(0, 3000) }, Content::Zeros(20), Content::Lit("tail".into())]),
            _ => Content::Cat(vec![Content::Bin { seed: 3, len: 66_000 }, Content::Lit(format!("{}", r.below(9)))]),
        }
    }

    fn same_len(&mut self, n: usize) -> Content {
        let s = self.r().next();
        if self.r().chance(1, 2) || n < 3 {
            Content::Bin { seed: s, len: n as u64 }
        } else {
            let b = b'a' + (s % 26) as u8;
            Content::Fill { byte: b, len: n as u64 }
        }
    }

    fn listing(&self, e: &Exec, site: usize) -> (Vec<String>, Vec<String>) {
        let s = &self.sites[site];
        let root = unesc(&s.root);
        let mut files = vec![];
        let mut dirs = vec![];
        fn go(fs: &Fs, id: Id, p: &[u8], db: &[u8], files: &mut Vec<String>, dirs: &mut Vec<String>) {
            if p == db {
                return;
            }
            match &fs.node(id).node {
                Node::Dir(m) => {
                    dirs.push(esc(p));
                    for (n, c) in m {
                        go(fs, *c, &join(p, n), db, files, dirs);
                    }
                }
                Node::File(_) => files.push(esc(p)),
                Node::Link(_) => {}
            }
        }
        if let Some(id) = e.w.fs.lookup(&root) {
            go(&e.w.fs, id, &root, s.dbdir.as_bytes(), &mut files, &mut dirs);
        }
        (files, dirs)
    }

    fn name(&mut self, dir: bool) -> String {
        let odd = u64::from(self.p.odd);
        let r = self.r();
        if r.chance(odd, 300) {
            let n = r.pick(&ODD).to_string();
            return n;
        }
        if dir {
            r.pick(&DIRS).to_string()
        } else {
            r.pick(&NAMES).to_string()
        }
    }

    fn new_path(&mut self, e: &Exec, site: usize, dir: bool) -> String {
        let (_, dirs) = self.listing(e, site);
        let mut p = if self.r().chance(2, 5) || dirs.is_empty() { self.sites[site].root.clone() } else { self.r().pick(&dirs).clone() };
        for _ in 0..*self.r().pick(&[0, 0, 1, 1, 2]) {
            if p.matches('/').count() < 9 {
                p = format!("{}/{}", p, self.name(true));
            }
        }
        let n = self.name(dir);
        format!("{}/{}", p, n)
    }

    fn edit(&mut self, e: &Exec, site: usize) -> Vec<Step> {
        let (files, dirs) = self.listing(e, site);
        let root = self.sites[site].root.clone();
        let sub: Vec<String> = dirs.iter().filter(|d| **d != root).cloned().collect();
        let mut out = vec![];
        let keep_w = if self.id == "C08" || self.id == "C17" { 14 } else { 4 };
        let k = self.rng.weighted(&[26, 14, keep_w, keep_w, keep_w, 5, 4, 10, 5, 4, 2, 1, 3, 4]);
        let pick = |r: &mut Rng, v: &Vec<String>| if v.is_empty() { None } else { Some(r.pick(v).clone()) };
        match k {
            0 => {
                let path = self.new_path(e, site, false);
                let c = self.content();
                out.push(Step::Edit { path, op: EditOp::Write(c) });
            }
            1 => {
                if let Some(path) = pick(&mut self.rng, &files) {
                    let c = self.content();
                    out.push(Step::Edit { path, op: EditOp::Write(c) });
                }
            }
            2 => {
                if let Some(path) = pick(&mut self.rng, &files) {
                    let op = EditOp::Poke { off: self.r().next() >> 20, xor: 1 << self.r().below(7), keep_time: self.r().chance(1, 2) };
                    out.push(Step::Edit { path, op });
                }
            }
            3 => {
                if let Some(path) = pick(&mut self.rng, &files) {
                    let n = len_of(e, &path);
                    let c = self.same_len(n);
                    let op = if self.r().chance(2, 3) { EditOp::WriteKeepTime(c) } else { EditOp::Write(c) };
                    out.push(Step::Edit { path, op });
                }
            }
            4 => {
                if let Some(path) = pick(&mut self.rng, &files) {
                    let n = len_of(e, &path);
                    let content = if self.r().chance(2, 3) { self.same_len(n) } else { self.content() };
                    let keep_time = self.r().chance(2, 3);
                    out.push(Step::Edit { path, op: EditOp::Replace { content, keep_time } });
                }
            }
            5 => {
                if let Some(path) = pick(&mut self.rng, &files) {
                    if len_of(e, &path) < 200_000 {
                        let c = self.content();
                        out.push(Step::Edit { path, op: EditOp::Append(c) });
                    }
                }
            }
            6 => {
                let path = self.new_path(e, site, true);
                out.push(Step::Edit { path, op: EditOp::Mkdir });
            }
            7 => {
                if let Some(path) = pick(&mut self.rng, &files) {
                    out.push(Step::Edit { path: path.clone(), op: EditOp::Remove });
                    if self.r().chance(1, 4) {
                        // something of the other kind, or a file that gets the freed inode
                        let op = if self.r().chance(1, 2) { EditOp::Mkdir } else { EditOp::Write(self.content()) };
                        out.push(Step::Edit { path, op });
                    }
                }
            }
            8 => {
                if let Some(path) = pick(&mut self.rng, &sub) {
                    out.push(Step::Edit { path: path.clone(), op: EditOp::Remove });
                    if self.r().chance(1, 3) {
                        let c = self.content();
                        out.push(Step::Edit { path, op: EditOp::Write(c) });
                    }
                }
            }
            9 => {
                let all: Vec<String> = files.iter().chain(&sub).cloned().collect();
                if let Some(path) = pick(&mut self.rng, &all) {
                    let to = if self.r().chance(1, 3) && !files.is_empty() { self.r().pick(&files).clone() } else { self.new_path(e, site, false) };
                    if !under(to.as_bytes(), path.as_bytes()) {
                        out.push(Step::Edit { path, op: EditOp::Rename(to) });
                    }
                }
            }
            10 => {
                let path = self.new_path(e, site, false);
                let to = match self.r().below(5) {
                    0 => "/home/jess/docs".to_string(),
                    1 => "/home/jess/docs/letter".to_string(),
                    4 if self.id == "C18" || self.rng.chance(1, 2) => format!("{}{}", self.sites[site].dbdir, self.rng.pick(&["", "", "/snapcd.db"])),
                    _ => pick(&mut self.rng, &files).unwrap_or_else(|| "a.txt".into()),
                };
                out.push(Step::Edit { path, op: EditOp::Link(to) });
            }
            11 => {
                let all: Vec<String> = files.iter().chain(&sub).cloned().collect();
                if let Some(path) = pick(&mut self.rng, &all) {
                    let m = *self.r().pick(&[0o000, 0o200, 0o644, 0o755, 0o444]);
                    out.push(Step::Edit { path: path.clone(), op: EditOp::Chmod(m) });
                }
            }
            12 => {
                if let Some(path) = pick(&mut self.rng, &files) {
                    let t = *self.r().pick(&[0, 1, 999, 1000, 5_000, 86_400_000, -3_000]);
                    out.push(Step::Edit { path, op: EditOp::Touch(t) });
                }
            }
            _ => {
                // swap two files of the same size, or back to older content
                if files.len() > 1 {
                    let a = self.r().pick(&files).clone();
                    let b = self.r().pick(&files).clone();
                    if a != b {
                        let t = format!("{}~swap", a);
                        out.push(Step::Edit { path: a.clone(), op: EditOp::Rename(t.clone()) });
                        out.push(Step::Edit { path: b.clone(), op: EditOp::Rename(a) });
                        out.push(Step::Edit { path: t, op: EditOp::Rename(b) });
                    }
                }
            }
        }
        out
    }

    fn msg(&mut self) -> String {
        self.n += 1;
        let t = *self.rng.pick(&["", " fix", " two\nlines", " caf\u{e9}", " longer text with words", " \"quoted\"", " trailing "]);
        format!("m{}{}", self.n, t)
    }

    fn some_ref(&mut self, e: &Exec, site: usize) -> (String, String) {
        let db = self.sites[site].dbdir.clone();
        let have: Vec<(String, String)> = e.repos.get(&db).map_or(vec![], |r| r.obs.refs.keys().map(|(n, m)| (n.clone(), m.clone().unwrap_or_default())).collect());
        if !have.is_empty() && self.r().chance(9, 10) {
            self.r().pick(&have).clone()
        } else {
            (self.r().pick(&REFS).to_string(), String::new())
        }
    }

    fn commit_key(&mut self, e: &Exec, site: usize) -> KeyRef {
        if self.r().chance(1, 6) {
            let i = self.r().below(50);
            return KeyRef::Typed("Commit".into(), i);
        }
        let (refname, remote) = self.some_ref(e, site);
        let by_name = if self.id == "C11" { 2 } else { 1 };
        if self.r().chance(by_name, 5) {
            return KeyRef::Ref { refname, remote };
        }
        KeyRef::Commit { refname, remote, back: *self.r().pick(&[0, 0, 0, 1, 1, 2, 3]) }
    }

    fn tree_key(&mut self, e: &Exec, site: usize) -> KeyRef {
        let (refname, remote) = self.some_ref(e, site);
        let i = self.r().below(60);
        match self.r().weighted(&[10, 5, 3]) {
            0 => KeyRef::Tree { refname, remote, back: *self.r().pick(&[0, 0, 1, 2]) },
            1 => KeyRef::Inserted(i),
            _ => KeyRef::Typed(self.r().pick(&["FSItemDir", "FSItemFile"]).to_string(), i),
        }
    }

    fn any_key(&mut self, e: &Exec, site: usize) -> KeyRef {
        let i = self.r().below(400);
        match self.r().weighted(&[8, 4, 4, 1]) {
            0 => KeyRef::Object(i),
            1 => self.commit_key(e, site),
            2 => self.tree_key(e, site),
            _ => KeyRef::Raw(self.r().pick(&["b", "c234", "", "zz", "/master", "/none", "origin/master", "b1", "B234567", "bé", "b/", "/", "ba", "b77777", "origin/"]).to_string()),
        }
    }

    /// A key or, often, a prefix of it of a length that matters.
    fn vary(&mut self, e: &Exec, site: usize, k: KeyRef) -> KeyRef {
        let lot = if self.id == "C11" { 55 } else { 12 };
        if !self.r().chance(lot, 100) {
            return k;
        }
        let db = self.sites[site].dbdir.clone();
        let keys: Vec<String> = e.repos.get(&db).map_or(vec![], |r| r.obs.keys.iter().cloned().collect());
        let full = match &k {
            KeyRef::Object(i) if !keys.is_empty() => Some(keys[*i as usize % keys.len()].clone()),
            _ => None,
        };
        let uniq = full.map_or(3, |f| {
            keys.iter()
                .filter(|x| **x != f)
                .map(|x| x.bytes().zip(f.bytes()).take_while(|(a, b)| a == b).count())
                .max()
                .unwrap_or(0) as u64
                + 1
        });
        let r = self.r();
        match r.weighted(&[20, 3, 3]) {
            0 => {
                let n = *r.pick(&[uniq, uniq, uniq, uniq + 1, uniq.saturating_sub(1).max(1), 8, 9, 10, 16, 17, 52, 51, 53, 50, 1, 2, 3, 4, 5]);
                k.prefix(n)
            }
            1 => KeyRef::Upper(Box::new(k)),
            _ => {
                let i = r.next() % 51;
                KeyRef::Altered(Box::new(k), i)
            }
        }
    }

    fn cmd(&mut self, e: &Exec, site: usize, kind: usize, cwd: &str) -> Option<Cmd> {
        let root = self.sites[site].root.clone();
        Some(match kind {
            STATUS => Cmd::Status,
            COMPARE => {
                let key = if self.r().chance(1, 2) {
                    None
                } else {
                    let k = self.tree_key(e, site);
                    Some(self.vary(e, site, k))
                };
                let path = if self.r().chance(1, 5) { Some(self.spell(e, &root, cwd, true)) } else { None };
                Cmd::Compare { path, key, stat: self.r().chance(1, 4) }
            }
            COMMIT => {
                let path = if self.r().chance(1, 6) { Some(self.spell(e, &root, cwd, true)) } else { None };
                let refname = if self.r().chance(1, 4) { Some(self.r().pick(&REFS).to_string()) } else { None };
                Cmd::Commit { path, msg: self.msg(), refname }
            }
            INSERT => Cmd::Insert { path: self.spell(e, &root, cwd, false) },
            FETCH => {
                let k = match self.r().below(20) {
                    0 => self.any_key(e, site),
                    1 => self.commit_key(e, site),
                    _ => self.tree_key(e, site),
                };
                let key = self.vary(e, site, k);
                self.n += 1;
                let n = self.n;
                let (files, dirs) = self.listing(e, site);
                let outs: Vec<String> = {
                    let mut v = vec![];
                    if let Some(id) = e.w.fs.lookup(b"/home/jess/out") {
                        if let Ok(m) = e.w.fs.dir(id) {
                            v = m.keys().map(|k| format!("/home/jess/out/{}", esc(k))).collect();
                        }
                    }
                    v
                };
                let r = self.r();
                let dest = match r.weighted(&[30, 6, 4, 4, 3, 3, 2, 2]) {
                    0 => format!("/home/jess/out/f{}", n),
                    1 if !outs.is_empty() => r.pick(&outs).clone(),
                    2 => format!("/home/jess/out/n{}/deep/er", n),
                    3 => "restored".to_string() + &n.to_string(),
                    4 if !files.is_empty() => r.pick(&files).clone(),
                    5 if !dirs.is_empty() => r.pick(&dirs).clone(),
                    6 => r.pick(&["/home/jess/docs", "/home/jess/docs/letter", ".", "/home/jess/docs/new"]).to_string(),
                    7 if !outs.is_empty() => format!("{}/in{}", r.pick(&outs), n),
                    _ => format!("/home/jess/out/g{}", n),
                };
                Cmd::Fetch { key, dest }
            }
            SHOW => {
                let key = if self.r().chance(1, 3) {
                    None
                } else {
                    let k = if self.r().chance(1, 2) { self.commit_key(e, site) } else { self.any_key(e, site) };
                    Some(self.vary(e, site, k))
                };
                let key = match key {
                    // content as it is, often without a newline at its end
                    Some(_) if self.id == "C05" && self.rng.chance(1, 3) => Some(KeyRef::Typed(self.rng.pick(&["FSItemFile", "FileBlob"]).to_string(), self.rng.below(60))),
                    k => k,
                };
                Cmd::Show { key }
            }
            LOG => {
                let key = if self.r().chance(1, 2) {
                    None
                } else {
                    let k = self.commit_key(e, site);
                    Some(self.vary(e, site, k))
                };
                Cmd::Log { key }
            }
            CHECKOUT => Cmd::Checkout,
            CHEAD => Cmd::CheckoutHead { refname: self.some_ref(e, site).0 },
            REFLOG => {
                let (a, b) = self.some_ref(e, site);
                let refname = if self.r().chance(1, 4) { None } else { Some(a) };
                let remote = if b.is_empty() { None } else { Some(b) };
                Cmd::RefLog { refname, remote }
            }
            REFUPD => {
                let k = if self.r().chance(1, 8) { self.any_key(e, site) } else { self.commit_key(e, site) };
                let key = self.vary(e, site, k);
                let refname = if self.r().chance(1, 3) { None } else { Some(self.r().pick(&REFS).to_string()) };
                Cmd::RefUpdate { key, refname }
            }
            SETHEAD => Cmd::SetHead { refname: self.r().pick(&REFS).to_string() },
            GETHEAD => Cmd::GetHead,
            RPUSH => {
                let k = if self.r().chance(1, 8) { self.any_key(e, site) } else { self.commit_key(e, site) };
                let key = self.vary(e, site, k);
                let refname = if self.id == "C11" && self.rng.chance(1, 2) { self.rng.pick(&["feat/x", "feat/y/z", "master/feat"]).to_string() } else { self.r().pick(&REFS).to_string() };
                let remote = if self.r().chance(2, 3) { Some(self.r().pick(&REMOTES).to_string()) } else { None };
                Cmd::ReflogPush { key, refname, remote }
            }
            RGET => {
                let (a, b) = self.some_ref(e, site);
                Cmd::ReflogGet { refname: a, remote: if b.is_empty() { None } else { Some(b) } }
            }
            PPRINT => {
                let k = self.any_key(e, site);
                Cmd::PrettyPrint { key: self.vary(e, site, k) }
            }
            WALK if self.rng.chance(1, 7) => Cmd::WalkFs { path: self.spell(e, &root, cwd, true) },
            WALK => {
                let k = if self.r().chance(1, 8) { self.any_key(e, site) } else { self.tree_key(e, site) };
                Cmd::WalkTree { key: self.vary(e, site, k) }
            }
            CTREE => {
                let k = if self.r().chance(1, 10) { self.any_key(e, site) } else { self.tree_key(e, site) };
                let tree = self.vary(e, site, k);
                let n = *self.r().pick(&[0, 1, 1, 2]);
                let mut parents = vec![];
                for _ in 0..n {
                    let k = if self.r().chance(1, 12) { self.any_key(e, site) } else { self.commit_key(e, site) };
                    parents.push(k);
                }
                Cmd::CommitTree { tree, parents }
            }
            INIT2 => Cmd::Init,
            _ => return None,
        })
    }

    /// A path argument for something in (or near) the working tree.
    fn spell(&mut self, e: &Exec, root: &str, cwd: &str, dir: bool) -> String {
        let site = self.sites.iter().position(|s| s.root == root).unwrap_or(0);
        let (files, dirs) = self.listing(e, site);
        let abs = if !dir && !files.is_empty() && self.r().chance(1, 2) {
            self.r().pick(&files).clone()
        } else if !dirs.is_empty() && self.r().chance(1, 2) {
            self.r().pick(&dirs).clone()
        } else {
            root.to_string()
        };
        let r = self.r();
        if !dir && r.chance(1, 12) {
            return r.pick(&["/home/jess/docs", "/home/jess/docs/letter", "missing", "/home/jess/nothing/here"]).to_string();
        }
        let abs = if dir && self.id == "C18" && self.rng.chance(1, 12) { self.sites[site].dbdir.clone() } else { abs };
        let r = self.r();
        let rel = if abs == cwd {
            ".".to_string()
        } else if abs.starts_with(&format!("{}/", cwd)) {
            abs[cwd.len() + 1..].to_string()
        } else if cwd.starts_with(&format!("{}/", abs)) {
            let n = cwd[abs.len() + 1..].split('/').count();
            vec![".."; n].join("/")
        } else {
            abs.clone()
        };
        match r.weighted(&[10, 4, 3, 2, 2]) {
            0 => rel,
            1 if !rel.starts_with('/') => format!("./{}", rel),
            2 => abs,
            3 => {
                // up and down again
                let last = root.rsplit('/').next().unwrap();
                if cwd == root {
                    format!("../{}/{}", last, rel).trim_end_matches("/.").to_string()
                } else {
                    rel
                }
            }
            _ => {
                if rel.starts_with('.') || rel.starts_with('/') {
                    rel
                } else {
                    format!("{}/", rel).trim_end_matches('/').to_string()
                }
            }
        }
    }

    /// Where a command is given and how the database is named.
    fn place(&mut self, e: &Exec, site: usize) -> (String, Option<String>) {
        let (_, dirs) = self.listing(e, site);
        let s = &self.sites[site];
        let (root, db, dbdir) = (s.root.clone(), s.db.clone(), s.dbdir.clone());
        let r = &mut self.rng;
        let wide = if self.id == "C18" || self.id == "C08" || self.id == "C15" { 3 } else { 1 };
        match r.weighted(&[40, 5 * wide, 2 * wide, 2 * wide, 1 * wide, wide]) {
            1 if !dirs.is_empty() => (r.pick(&dirs).clone(), db),
            2 => ("/".into(), Some(dbdir)),
            3 => {
                if root == "/home/jess/work/proj" {
                    let n = dbdir.rsplit('/').next().unwrap();
                    ("/home/jess/work/other".into(), Some(format!("../proj/{}", n)))
                } else {
                    ("/home/jess/docs".into(), Some(dbdir))
                }
            }
            4 => {
                let n = dbdir.rsplit('/').next().unwrap();
                (root, Some(format!("./{}", n)))
            }
            5 => {
                let n = dbdir.rsplit('/').next().unwrap();
                (root, Some(format!("{}/", n)))
            }
            _ => (root, db),
        }
    }

    fn spec(&mut self, e: &Exec, site: usize, kind: usize) -> Option<PSpec> {
        let (cwd, db) = if kind == INIT2 { (self.sites[site].root.clone(), self.sites[site].db.clone()) } else { self.place(e, site) };
        let excl = if !self.excl.is_empty() && self.r().chance(5, 6) { self.excl.clone() } else { vec![] };
        let cmd = self.cmd(e, site, kind, &cwd)?;
        Some(PSpec { cwd, db, excl, cmd, faults: vec![] })
    }

    fn errno(&mut self, c: Class) -> i32 {
        let r = self.r();
        match c {
            Class::Open => *r.pick(&[libc::EIO, libc::EMFILE, libc::ENOMEM, libc::EACCES, libc::ENFILE, libc::ENOSPC]),
            Class::Read | Class::List => *r.pick(&[libc::EIO, libc::EIO, libc::ENOMEM, libc::EISDIR]),
            Class::Write | Class::Trunc | Class::Mkdir => *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EROFS]),
            Class::Sync => *r.pick(&[libc::EIO, libc::EIO, libc::ENOSPC]),
            Class::Lock => *r.pick(&[libc::EIO, libc::ENOLCK, libc::EAGAIN]),
            Class::Stat | Class::Path => *r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM]),
            Class::Unlink | Class::Rename => *r.pick(&[libc::EIO, libc::EACCES, libc::EROFS]),
            Class::Shm => *r.pick(&[libc::EIO, libc::ENOMEM]),
            Class::Other => libc::EIO,
        }
    }

    fn add_fault(&mut self, e: &mut Exec, specs: &mut [PSpec]) -> Res<()> {
        let i = self.r().below(specs.len() as u64) as usize;
        let o = match e.dry(&specs[i..i + 1])?.remove(0) {
            Some(o) => o,
            None => return Ok(()),
        };
        if o.end == End::Hung {
            return Ok(());
        }
        let many = if self.r().chance(1, 8) { 2 } else { 1 };
        for _ in 0..many {
            let k = self.rng.weighted(&self.p.kinds);
            let ops = o.ops.max(1);
            let at = match self.r().below(3) {
                0 => self.r().range(1, ops),
                1 => self.r().range(ops - ops / 3, ops),
                _ => self.r().range(ops - (ops / 10).min(25).min(ops - 1), ops),
            };
            let torn = *self.r().pick(&[0, 0, 0, 1, 100, 500, 900, 999, 1000]);
            let f = match k {
                KILL => Fault::Kill { at, torn },
                PWR => Fault::Power { at, torn, seed: self.r().next() >> 16 },
                STALL => {
                    let ms = *self.r().pick(&[100, 1_000, 4_000, 6_000, 20_000]);
                    Fault::Stall { at, ms }
                }
                SHORT => Fault::Short { seed: self.r().next() >> 16, pct: *self.rng.pick(&[10, 40, 80]) },
                FULL => {
                    let slack = match self.r().below(5) {
                        0 => 0,
                        1 => self.r().below(4096),
                        2 => self.r().below(20_000),
                        3 => self.r().below(120_000),
                        _ => self.r().below(600_000),
                    };
                    Fault::Full { slack }
                }
                STDOUT => {
                    let n = o.out.len() as u64;
                    Fault::Stdout { after: self.r().below(n.max(1)), errno: *self.rng.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO]) }
                }
                OOM => {
                    let top = *self.rng.pick(&[300, 2000, 6000]);
                    let nth = 1 + self.rng.below(top);
                    Fault::Oom { nth, count: *self.rng.pick(&[1, 1, 3, 1_000_000]) }
                }
                FOREIGN => {
                    let scope = if self.id == "C17" || self.r().chance(1, 3) { Scope::Cache } else { Scope::Db };
                    let ms = *self.r().pick(&[10, 500, 2_000, 4_900, 5_200, 8_000, 60_000]);
                    let at = self.r().range(1, ops);
                    Fault::Foreign { at, ms, level: *self.rng.pick(&[1, 2, 4]), scope }
                }
                _ => {
                    let scope = match k {
                        ERRDB => Scope::Db,
                        ERRCACHE => Scope::Cache,
                        _ => Scope::Tree,
                    };
                    let have: Vec<Class> = ALL_CLASSES.iter().copied().filter(|c| o.counts[*c as usize][scope as usize] > 0).collect();
                    if have.is_empty() {
                        continue;
                    }
                    let class = *self.r().pick(&have);
                    let c = o.counts[class as usize][scope as usize];
                    let nth = if self.r().chance(1, 3) { c } else { self.r().range(1, c) };
                    let count = match self.r().below(4) {
                        0 => 1_000_000,
                        1 => self.r().range(2, 5),
                        _ => 1,
                    };
                    Fault::Err { class, scope, nth, count, errno: self.errno(class) }
                }
            };
            specs[i].faults.push(f);
        }
        Ok(())
    }

    fn run(&mut self, e: &mut Exec, mut procs: Vec<PSpec>, faults: bool) -> Res<Step> {
        let sched = if procs.len() > 1 {
            Sched::Free { seed: self.r().next() >> 16, per: *self.rng.pick(&[2, 5, 20, 60, 200]) }
        } else {
            Sched::Fixed(vec![])
        };
        if faults && self.rng.chance(u64::from(self.p.fault), 100) {
            self.add_fault(e, &mut procs)?;
        }
        let reads = |c: &Cmd| matches!(c, Cmd::Commit { .. } | Cmd::Insert { .. } | Cmd::Status | Cmd::Compare { .. } | Cmd::CheckoutHead { .. });
        if faults && procs.len() == 1 && procs[0].faults.is_empty() && reads(&procs[0].cmd) && self.rng.chance(u64::from(self.p.race), 100) {
            self.add_race(e, &mut procs)?;
        }
        Ok(Step::Run { procs, sched })
    }

    /// Files are edited while the command is reading them.
    fn add_race(&mut self, e: &mut Exec, procs: &mut [PSpec]) -> Res<()> {
        let o = match e.dry(procs)?.remove(0) {
            Some(o) if o.end != End::Hung => o,
            _ => return Ok(()),
        };
        let site = (0..self.sites.len()).find(|i| procs[0].cwd.starts_with(&self.sites[*i].root)).unwrap_or(0);
        let count = |c: Class| o.counts[c as usize][Scope::Tree as usize];
        let have: Vec<Class> = [Class::Open, Class::Open, Class::Read, Class::Stat, Class::List].iter().copied().filter(|c| count(*c) > 0).collect();
        if have.is_empty() {
            return Ok(());
        }
        let class = *self.r().pick(&have);
        let nth = self.r().range(1, count(class));
        let mut edits = vec![];
        let (files, _) = self.listing(e, site);
        if !files.is_empty() && self.rng.chance(if self.id == "C08" || self.id == "C17" { 5 } else { 2 }, 8) {
            // other files of the same names slip in all at once, just when one of them is being looked at
            let keep_time = self.rng.chance(2, 3);
            for path in files.iter().take(8) {
                let len = len_of(e, path);
                if len < 200_000 {
                    let content = self.same_len(len);
                    edits.push((path.clone(), EditOp::Replace { content, keep_time }));
                }
            }
            if edits.is_empty() {
                return Ok(());
            }
            let looks: Vec<Class> = [Class::Stat, Class::Open].iter().copied().filter(|c| count(*c) > 0).collect();
            let class = if looks.is_empty() { class } else { *self.rng.pick(&looks) };
            let nth = self.rng.range(1, count(class));
            procs[0].faults.push(Fault::Edit { class, nth, edits });
            let ms = *self.rng.pick(&[2_100, 5_000]);
            self.queue.push_back(Step::Advance { ms });
            let s = self.plain(site, Cmd::Status);
            self.queue.push_back(s);
            return Ok(());
        }
        for _ in 0..*self.r().pick(&[1, 1, 1, 2, 4]) {
            let (files, _) = self.listing(e, site);
            let v = if self.r().chance(2, 5) && !files.is_empty() {
                let path = self.r().pick(&files).clone();
                let c = self.content();
                let op = if len_of(e, &path) < 200_000 && self.r().chance(1, 2) { EditOp::Append(c) } else { EditOp::Write(c) };
                vec![Step::Edit { path, op }]
            } else {
                self.edit(e, site)
            };
            for s in v {
                match s {
                    Step::Edit { op: EditOp::Link(_), .. } | Step::Edit { op: EditOp::Chmod(_), .. } => {}
                    Step::Edit { path, op } => edits.push((path, op)),
                    _ => {}
                }
            }
        }
        if !edits.is_empty() {
            procs[0].faults.push(Fault::Edit { class, nth, edits });
        }
        Ok(())
    }

    fn plain(&self, site: usize, cmd: Cmd) -> Step {
        let s = &self.sites[site];
        Step::Run { procs: vec![PSpec { cwd: s.root.clone(), db: s.db.clone(), excl: vec![], cmd, faults: vec![] }], sched: Sched::Fixed(vec![]) }
    }

    fn start(&mut self, e: &Exec) {
        if self.id == "C06" || self.id == "C14" {
            return;
        }
        for i in 0..2u64 {
            let path = ["/home/jess/docs/letter", "/home/jess/docs/keep/me"][i as usize].to_string();
            self.queue.push_back(Step::Edit { path, op: EditOp::Write(Content::Lit("dear diary\n".into())) });
        }
        for site in 0..self.sites.len() {
            let mut n = self.r().range(1, 7);
            if self.rng.chance(u64::from(self.p.many), 100) {
                n += self.rng.range(20, 60);
            }
            for _ in 0..n {
                let path = self.new_path(e, site, false);
                let op = if self.r().chance(1, 8) { EditOp::Mkdir } else { EditOp::Write(self.content()) };
                self.queue.push_back(Step::Edit { path, op });
            }
            if self.id == "C10" || self.r().chance(1, 10) {
                // something only an exclusion hides
                let root = self.sites[site].root.clone();
                for f in ["out/x.o", "keep/deep/y.tmp"] {
                    if self.r().chance(1, 2) {
                        self.queue.push_back(Step::Edit { path: format!("{}/{}", root, f), op: EditOp::Write(Content::Lit("precious\n".into())) });
                    }
                }
            }
            let init = self.plain(site, Cmd::Init);
            self.queue.push_back(init);
            if self.r().chance(1, 2) {
                let m = self.msg();
                let c = self.plain(site, Cmd::Commit { path: None, msg: m, refname: None });
                self.queue.push_back(c);
            }
        }
        self.queue.push_back(Step::Advance { ms: *self.rng.pick(&[0, 500, 1_000, 3_000, 60_000]) });
    }

    /// Sometimes the very first init does not go well; it is repeated then.
    fn first_init(&mut self, e: &mut Exec, s: Step) -> Res<Step> {
        let (mut procs, sched) = match &s {
            Step::Run { procs, sched } if procs.len() == 1 && procs[0].cmd == Cmd::Init && procs[0].faults.is_empty() => (procs.clone(), sched.clone()),
            _ => return Ok(s),
        };
        let site = self.sites.iter().position(|x| x.root == procs[0].cwd).unwrap_or(0);
        if self.retried > 1 || !self.rng.chance(u64::from(self.p.fault), 400) {
            return Ok(s);
        }
        self.retried += 1;
        let first = if self.rng.chance(1, 3) {
            // somebody made the folder by hand
            Step::Edit { path: self.sites[site].dbdir.clone(), op: EditOp::Mkdir }
        } else {
            self.add_fault(e, &mut procs)?;
            Step::Run { procs, sched }
        };
        self.queue.push_front(s);
        for _ in 0..*self.rng.pick(&[0, 1, 2]) {
            let k = *self.rng.pick(&[STATUS, GETHEAD, LOG, SHOW, REFLOG, COMPARE, FETCH, SETHEAD, PPRINT, COMMIT, INSERT, CHEAD, RPUSH]);
            if let Some(p) = self.spec(e, site, k) {
                self.queue.push_front(Step::Run { procs: vec![p], sched: Sched::Fixed(vec![]) });
            }
        }
        Ok(first)
    }

    fn harm(&mut self) -> Harm {
        let seed = self.r().next() >> 16;
        match self.r().below(14) {
            12 | 13 => Harm::Cross { seed },
            0 => Harm::Flip { seed, bits: 1 },
            1 => Harm::Flip { seed, bits: 20 },
            2 => Harm::ZeroPage { seed },
            3 => Harm::SwapPages { seed },
            4 => Harm::StalePage { seed },
            5 => Harm::Truncate { seed },
            6 => Harm::Delete,
            7 => Harm::Garbage { seed, len: seed % 9000 },
            8 => Harm::Empty,
            9 => Harm::OldVersion { seed },
            10 => Harm::Value { seed },
            _ => match seed % 3 {
                0 => Harm::Dir,
                1 => Harm::Chmod(0),
                _ => Harm::Chmod(0o444),
            },
        }
    }

    pub fn next(&mut self, e: &mut Exec) -> Res<Option<Step>> {
        if self.scripts == 0 {
            self.scripts = 1;
            self.start(e);
        }
        if let Some(s) = self.queue.pop_front() {
            return self.first_init(e, s).map(Some);
        }
        if self.left == 0 {
            return self.end(e);
        }
        self.left -= 1;
        if self.rng.chance(u64::from(self.p.store), 100) && self.p.store > 0 {
            return Ok(Some(Step::Store(self.store_step())));
        }
        if self.p.stream > 0 && self.rng.chance(u64::from(self.p.stream), 100) {
            return Ok(Some(Step::Stream(self.stream_step())));
        }
        if self.id == "C06" {
            return Ok(Some(Step::Power { seed: self.r().next() >> 16 }));
        }
        if self.broken || self.left < self.harm_at {
            return self.damaged(e).map(Some);
        }
        let site = self.rng.below(self.sites.len() as u64) as usize;
        if self.p.hist > 0 && !self.hist && self.rng.chance(u64::from(self.p.hist), 1000) {
            self.hist = true;
            self.history(site);
            return Ok(self.queue.pop_front());
        }
        if self.p.flip > 0 && self.rng.chance(u64::from(self.p.flip), 1000) {
            self.flip(site);
            return Ok(self.queue.pop_front());
        }
        if self.p.wide > 0 && self.rng.chance(u64::from(self.p.wide), 1000) {
            self.p.wide = 0;
            self.wide(site);
            return Ok(self.queue.pop_front());
        }
        let mut w = self.p.w;
        if site == 0 && self.sites[0].root != "/home/jess/src/snapcd/repo" || site == 1 && self.sites[1].root != "/home/jess/src/snapcd/repo" {
            w[CHECKOUT] = w[CHECKOUT].min(1);
        }
        if self.sites.len() < 2 {
            w[TWIN] = 0;
        }
        let k = self.rng.weighted(&w);
        Ok(Some(match k {
            EDIT => {
                let n = *self.r().pick(&[1, 1, 2, 3]);
                for _ in 0..n {
                    let v = self.edit(e, site);
                    self.queue.extend(v);
                }
                match self.queue.pop_front() {
                    Some(s) => s,
                    None => Step::Advance { ms: 1 },
                }
            }
            ADV => {
                let neg = self.machine.gran == 1 && self.r().chance(1, 8);
                let ms = *self.r().pick(&[1, 20, 900, 1_000, 1_100, 2_500, 10_000, 3_600_000]);
                Step::Advance { ms: if neg { -ms } else { ms } }
            }
            POWER => Step::Power { seed: self.r().next() >> 16 },
            SALT => Step::Salt(self.r().next()),
            RESTORE => {
                let (files, dirs) = self.listing(e, site);
                let all: Vec<String> = files.into_iter().chain(dirs).collect();
                let root = self.sites[site].root.clone();
                let path = if all.is_empty() || self.r().chance(1, 3) { root } else { self.r().pick(&all).clone() };
                Step::Restore { path }
            }
            CACHEDMG => {
                let target = match self.r().below(8) {
                    0 => Target::CacheWal,
                    1 => Target::CacheShm,
                    2 => Target::CacheDir,
                    _ => Target::Cache,
                };
                let harm = self.harm();
                if self.rng.chance(1, 4) {
                    // a cache that is in use
                    let s = self.plain(site, Cmd::Status);
                    self.queue.push_back(s);
                    let harm = if self.rng.chance(1, 2) { Harm::Cross { seed: self.rng.next() >> 16 } } else { harm };
                    self.queue.push_back(Step::Damage { target: Target::Cache, harm });
                    let ask = if self.rng.chance(3, 4) { Cmd::Status } else { Cmd::Compare { path: None, key: None, stat: true } };
                    let s = self.plain(site, ask);
                    self.queue.push_back(s);
                    return Ok(Some(Step::Advance { ms: 2_500 }));
                }
                Step::Damage { target, harm }
            }
            TWIN => {
                // the same file name, size and time in both trees, and as far as possible the same inode number
                let n = *self.r().pick(&[1u64, 4, 20, 300, 5000]);
                let name = self.name(false);
                let (ra, rb) = (self.sites[0].root.clone(), self.sites[1].root.clone());
                let (ca, cb) = (self.same_len(n as usize), self.same_len(n as usize));
                let ia = e.w.fs.inos.get(&1).map_or(0, |x| x.0);
                let ib = e.w.fs.inos.get(&9).map_or(0, |x| x.0);
                // bring the two inode counters together
                let (lo, gap) = if ia < ib { (&ra, ib - ia) } else { (&rb, ia - ib) };
                if gap < 40 && self.machine.mounts.len() == 1 {
                    let lo = if *lo == ra && ra.starts_with("/home/jess/work") || *lo == rb && rb.starts_with("/home/jess/work") { "/home/jess/work/other" } else { "/home/jess/out" };
                    for i in 0..gap {
                        self.n += 1;
                        let n = self.n;
                        self.queue.push_back(Step::Edit { path: format!("{}/pad{}-{}", lo, n, i), op: EditOp::Mkdir });
                    }
                }
                self.queue.push_back(Step::Edit { path: format!("{}/{}", ra, name), op: EditOp::Replace { content: ca.clone(), keep_time: true } });
                self.queue.push_back(Step::Edit { path: format!("{}/tw{}", ra, self.n), op: EditOp::Write(ca) });
                self.queue.push_back(Step::Edit { path: format!("{}/tw{}", rb, self.n), op: EditOp::Write(cb) });
                if self.rng.chance(1, 2) {
                    // one repository looks at the other's files once the cache knows them
                    self.queue.push_back(Step::Advance { ms: 2_500 });
                    let s = self.plain(1, Cmd::Status);
                    self.queue.push_back(s);
                    let stat = self.rng.chance(2, 3);
                    let s = self.plain(0, Cmd::Compare { path: Some(rb.clone()), key: None, stat });
                    self.queue.push_back(s);
                }
                self.queue.pop_front().unwrap()
            }
            _ => {
                let mut procs = vec![];
                let multi = self.rng.chance(u64::from(self.p.multi), 100) && self.p.multi > 0;
                if let Some(s) = self.spec(e, site, k) {
                    procs.push(s);
                }
                if multi {
                    let n = *self.r().pick(&[1, 1, 1, 2, 2, 3]);
                    let mut cw = w;
                    for i in [EDIT, ADV, POWER, SALT, RESTORE, CACHEDMG, TWIN, DBDMG, CHECKOUT, INIT2] {
                        cw[i] = 0;
                    }
                    if k == CHECKOUT {
                        // others must not read the tree while it is being changed
                        for i in [COMMIT, INSERT, STATUS, COMPARE, CHEAD, FETCH, WALK] {
                            cw[i] = 0;
                        }
                    }
                    for _ in 0..n {
                        let st = if self.sites.len() > 1 && self.r().chance(1, 3) { 1 - site } else { site };
                        let k2 = self.rng.weighted(&cw);
                        if let Some(mut s) = self.spec(e, st, k2) {
                            // fetching into a tree that others are reading is left out
                            if let Cmd::Fetch { dest, .. } = &mut s.cmd {
                                self.n += 1;
                                *dest = format!("/home/jess/out/c{}", self.n);
                            }
                            procs.push(s);
                        }
                    }
                    if procs.len() > 1 {
                        if let Cmd::Fetch { dest, .. } = &mut procs[0].cmd {
                            self.n += 1;
                            *dest = format!("/home/jess/out/c{}", self.n);
                        }
                    }
                }
                if procs.is_empty() {
                    return Ok(Some(Step::Advance { ms: 1 }));
                }
                self.run(e, procs, true)?
            }
        }))
    }

    /// Files and directories change places between two commits, with excluded things among them.
    fn flip(&mut self, site: usize) {
        // only there can it be checked out
        let site = if self.rng.chance(5, 6) { self.sites.iter().position(|s| s.root == "/home/jess/src/snapcd/repo").unwrap_or(site) } else { site };
        let root = self.sites[site].root.clone();
        let (pat, hid) = *self.rng.pick(&[("*.keep", "k.keep"), ("**/priv", "priv"), ("*/mine/*", "mine/x"), ("*.keep", "deep/er/k.keep")]);
        let mut excl = vec![pat.to_string()];
        if self.rng.chance(1, 4) {
            excl.extend(self.excl.iter().cloned());
        }
        let dir = *self.rng.pick(&["", "", "fl/", "fl/ip/"]);
        self.n += 1;
        let base = format!("{}/{}", root, dir);
        let names: Vec<String> = (0..3).map(|i| format!("{}p{}-{}", base, self.n, i)).collect();
        let lit = |s: &str| EditOp::Write(Content::Lit(s.into()));
        let put = |g: &mut Gen, path: String, op: EditOp| g.queue.push_back(Step::Edit { path, op });
        let shapes: Vec<u64> = (0..3).map(|_| self.rng.below(4)).collect();
        let then: Vec<u64> = (0..3).map(|_| self.rng.below(5)).collect();
        for (n, k) in names.iter().zip(&shapes) {
            match k {
                0 => put(self, n.clone(), lit("a file\n")),
                1 => {
                    put(self, format!("{}/one", n), lit("1\n"));
                    put(self, format!("{}/{}", n, hid), lit("hidden\n"));
                }
                2 => put(self, n.clone(), EditOp::Mkdir),
                _ => {}
            }
        }
        let run = |g: &mut Gen, cmd: Cmd, excl: &[String]| {
            let s = match g.plain(site, cmd) {
                Step::Run { mut procs, sched } => {
                    procs[0].excl = excl.to_vec();
                    Step::Run { procs, sched }
                }
                s => s,
            };
            g.queue.push_back(s);
        };
        let seen = if self.rng.chance(2, 3) { excl.clone() } else { vec![] };
        run(self, Cmd::SetHead { refname: "master".into() }, &[]);
        run(self, Cmd::Commit { path: None, msg: format!("before{}", self.n), refname: None }, &seen);
        for ((n, k), was) in names.iter().zip(&then).zip(&shapes) {
            if *was < 3 && (*k != 1 && *k != 4 || *was == 0) {
                put(self, n.clone(), EditOp::Remove);
            }
            match k {
                0 => put(self, n.clone(), lit("another file\n")),
                1 => {
                    put(self, format!("{}/two", n), lit("2\n"));
                    put(self, format!("{}/{}", n, hid), lit("precious\n"));
                }
                2 => {
                    let to = self.rng.pick(&["/home/jess/docs", "/home/jess/docs/letter", "nowhere"]).to_string();
                    put(self, n.clone(), EditOp::Link(to));
                }
                3 => {}
                _ => put(self, format!("{}/{}", n, hid), lit("precious\n")),
            }
        }
        if self.rng.chance(1, 3) {
            run(self, Cmd::Status, &excl);
        }
        if self.rng.chance(1, 4) {
            run(self, Cmd::Commit { path: None, msg: format!("after{}", self.n), refname: Some("dev".into()) }, &excl);
        }
        run(self, Cmd::Checkout, &excl);
        run(self, Cmd::Status, &excl);
    }

    /// One directory with very many entries.
    fn wide(&mut self, site: usize) {
        let m = *self.r().pick(&[70, 70, 140, 270]);
        let d = *self.r().pick(&DIRS);
        let root = self.sites[site].root.clone();
        for i in 0..m {
            let path = format!("{}/{}/w{}", root, d, i);
            let op = if i % 9 == 3 { EditOp::Mkdir } else { EditOp::Write(Content::Lit(format!("{}\n", i / 2))) };
            self.queue.push_back(Step::Edit { path, op });
        }
        let refname = "master".to_string();
        let commits = self.r().chance(5, 6);
        if commits {
            let s = self.plain(site, Cmd::Commit { path: None, msg: "wide".into(), refname: Some(refname.clone()) });
            self.queue.push_back(s);
        }
        let tree = KeyRef::Tree { refname, remote: String::new(), back: 0 };
        for _ in 0..self.r().range(1, 5) {
            let cmd = match self.r().below(7) {
                0 => Cmd::Status,
                1 => Cmd::WalkFs { path: ".".into() },
                2 => Cmd::Log { key: None },
                3 => Cmd::Show { key: None },
                4 => Cmd::Fetch { key: tree.clone(), dest: format!("/home/jess/out/wide{}", self.queue.len()) },
                5 => Cmd::WalkTree { key: tree.clone() },
                _ => Cmd::Compare { path: None, key: Some(tree.clone()), stat: false },
            };
            let s = self.plain(site, cmd);
            self.queue.push_back(s);
            if self.r().chance(1, 3) {
                let path = format!("{}/{}/w{}", root, d, self.r().below(m));
                let op = if self.r().chance(1, 2) { EditOp::Remove } else { EditOp::Write(Content::Lit("changed\n".into())) };
                self.queue.push_back(Step::Edit { path, op });
            }
        }
    }

    /// A longer history with merges in it, and questions about it.
    fn history(&mut self, site: usize) {
        let n = match self.r().weighted(&[60, 25, 10, 5]) {
            0 => self.r().range(2, 6),
            1 => self.r().range(16, 24),
            2 => self.r().range(33, 40),
            _ => self.r().range(65, 72),
        };
        let refname = self.r().pick(&REFS).to_string();
        let root = self.sites[site].root.clone();
        let cheap = self.id == "C13";
        for i in 0..n {
            let q = if !cheap || i < 2 {
                if self.r().chance(5, 6) {
                    let path = format!("{}/h{}", root, self.r().below(4));
                    self.queue.push_back(Step::Edit { path, op: EditOp::Write(Content::Lit(format!("h{}\n", i))) });
                }
                Cmd::Commit { path: None, msg: format!("h{}", i), refname: Some(refname.clone()) }
            } else {
                let key = KeyRef::Commit { refname: refname.clone(), remote: String::new(), back: self.r().below(3) };
                let refname = if self.r().chance(1, 8) { self.r().pick(&REFS).to_string() } else { refname.clone() };
                match self.r().below(3) {
                    0 => Cmd::RefUpdate { key, refname: Some(refname) },
                    1 => Cmd::ReflogPush { key, refname, remote: None },
                    _ => Cmd::ReflogPush { key, refname, remote: Some("origin".into()) },
                }
            };
            let s = self.plain(site, q);
            self.queue.push_back(s);
        }
        let merges = if n < 10 { self.r().below(5) } else { self.r().below(2) };
        for _ in 0..merges {
            let mut parents = vec![];
            for _ in 0..*self.r().pick(&[2, 2, 2, 3, 1]) {
                let back = self.r().below(n);
                parents.push(if self.r().chance(1, 4) { KeyRef::Typed("Commit".into(), self.r().below(60)) } else { KeyRef::Commit { refname: refname.clone(), remote: String::new(), back } });
            }
            let tree = KeyRef::Tree { refname: refname.clone(), remote: String::new(), back: self.r().below(n) };
            let s = self.plain(site, Cmd::CommitTree { tree, parents });
            self.queue.push_back(s);
        }
        if merges > 0 && self.r().chance(1, 2) {
            let key = KeyRef::Typed("Commit".into(), self.r().below(60));
            let s = self.plain(site, Cmd::RefUpdate { key, refname: Some(refname.clone()) });
            self.queue.push_back(s);
            let s = self.plain(site, Cmd::Commit { path: None, msg: "after".into(), refname: Some(refname.clone()) });
            self.queue.push_back(s);
        }
        let s = self.plain(site, Cmd::RefLog { refname: Some(refname.clone()), remote: None });
        self.queue.push_back(s);
        let s = self.plain(site, Cmd::Log { key: Some(KeyRef::Ref { refname, remote: String::new() }) });
        self.queue.push_back(s);
        for _ in 0..(if n < 10 { merges * 2 } else { merges }) {
            let key = Some(KeyRef::Typed("Commit".into(), self.r().below(60)));
            let c = if self.r().chance(1, 2) { Cmd::Log { key } } else { Cmd::Show { key } };
            let s = self.plain(site, c);
            self.queue.push_back(s);
        }
    }

    fn damaged(&mut self, e: &mut Exec) -> Res<Step> {
        if !self.broken || self.r().chance(1, 6) {
            if !self.broken {
                // what is read afterwards, in short
                self.left = self.rng.range(6, 14);
            }
            self.broken = true;
            let seed = self.r().next() >> 16;
            let k = self.rng.below(if self.id == "C19" { 16 } else { 10 });
            let harm = match k.min(if k >= 10 { 7 } else { 9 }) {
                0 => Harm::Flip { seed, bits: 1 },
                1 => Harm::Flip { seed, bits: 60 },
                2 => Harm::ZeroPage { seed },
                3 => Harm::SwapPages { seed },
                4 => Harm::StalePage { seed },
                5 => Harm::Truncate { seed },
                6 => Harm::OldVersion { seed },
                7 | 8 => Harm::Object {
                    ty: if self.id == "C19" && seed % 3 > 0 { "Commit".into() } else { self.rng.pick(&["", "Commit", "FSItemDir", "FSItemFile", "FileBlob", "FileBlobTree"]).to_string() },
                    i: seed % 997,
                    seed,
                },
                _ => Harm::Value { seed },
            };
            return Ok(Step::Damage { target: Target::Db(self.sites[0].dbdir.clone()), harm });
        }
        let cwd = self.sites[0].root.clone();
        let i = self.r().below(300);
        let (refname, back) = (self.r().pick(&["master", "dev"]).to_string(), self.r().below(3));
        let remote = String::new();
        let w = if self.id == "C19" { [0, 1, 0, 0, 8, 2] } else { [8, 3, 3, 3, 3, 2] };
        let cmd = match self.r().weighted(&w) {
            0 => {
                self.n += 1;
                let key = match self.r().below(3) {
                    0 => KeyRef::Inserted(i),
                    1 => KeyRef::Typed(self.r().pick(&["FSItemDir", "FSItemFile"]).to_string(), i),
                    _ => KeyRef::Tree { refname, remote, back },
                };
                Cmd::Fetch { key, dest: format!("/home/jess/out/d{}", self.n) }
            }
            1 => Cmd::Show { key: Some(KeyRef::Typed("FSItemFile".into(), i)) },
            2 => Cmd::PrettyPrint { key: KeyRef::Object(i) },
            3 => Cmd::WalkTree { key: KeyRef::Typed("FSItemDir".into(), i) },
            4 => Cmd::Log { key: Some(KeyRef::Typed("Commit".into(), i)) },
            _ if self.id == "C19" => Cmd::Show { key: Some(KeyRef::Typed("Commit".into(), i)) },
            _ => Cmd::Show { key: Some(KeyRef::Object(i)) },
        };
        let _ = e;
        Ok(Step::Run { procs: vec![PSpec { cwd, db: self.sites[0].db.clone(), excl: vec![], cmd, faults: vec![] }], sched: Sched::Fixed(vec![]) })
    }

    fn end(&mut self, e: &mut Exec) -> Res<Option<Step>> {
        if self.ended {
            return Ok(None);
        }
        self.ended = true;
        if !self.rng.chance(u64::from(self.p.epilogue), 100) || self.broken {
            return Ok(None);
        }
        self.queue.push_back(Step::Advance { ms: 5_000 });
        for site in 0..self.sites.len() {
            if !e.repos.contains_key(&self.sites[site].dbdir) {
                continue;
            }
            let msg = self.msg();
            let all = vec![
                self.plain(site, Cmd::Commit { path: None, msg, refname: None }),
                self.plain(site, Cmd::Status),
                self.plain(site, Cmd::Log { key: None }),
            ];
            self.queue.extend(all);
            let db = self.sites[site].dbdir.clone();
            let refs: Vec<(String, Option<String>)> = e.repos[&db].obs.refs.keys().cloned().collect();
            let mut keys: Vec<KeyRef> = vec![];
            for (refname, remote) in refs {
                let n = e.repos[&db].obs.list(&refname, remote.as_deref()).len() as u64;
                let back = self.r().below(n.max(1));
                keys.push(KeyRef::Tree { refname, remote: remote.unwrap_or_default(), back });
            }
            let ins = e.inserted.iter().filter(|x| x.0 == db).count() as u64;
            for i in 0..ins.min(3) {
                keys.push(KeyRef::Inserted(i));
            }
            for key in keys {
                self.n += 1;
                let s = self.plain(site, Cmd::Fetch { key, dest: format!("/home/jess/out/end{}", self.n) });
                self.queue.push_back(s);
            }
            if self.sites[site].root == "/home/jess/src/snapcd/repo" && self.r().chance(1, 2) {
                let s = self.plain(site, Cmd::Checkout);
                self.queue.push_back(s);
            }
            let s = self.plain(site, Cmd::Status);
            self.queue.push_back(s);
        }
        Ok(self.queue.pop_front())
    }

    // ---- streams ----

    fn cuts(&mut self, len: u64, err: bool) -> Cuts {
        let r = self.r();
        let mode = if len > 1_000_000 { *r.pick(&[0, 3, 2]) } else { *r.pick(&[0, 1, 2, 2, 3, 3, 4]) };
        let max = if len > 1_000_000 { r.range(20_000, 200_000) } else { *r.pick(&[2, 7, 100, 1000, 33_000, 70_000]) };
        let intr = *r.pick(&[0, 0, 0, 5, 30]);
        let e = if err && r.chance(1, 4) {
            let at = match r.below(4) {
                0 => 0,
                1 => len,
                2 => r.below(len + 1),
                _ => (*r.pick(&[32768u64, 65536, 1, 98304])).min(len),
            };
            Some((at, r.below(8) as u8))
        } else {
            None
        };
        Cuts { seed: r.next() >> 16, mode, max, intr, err: e }
    }

    pub fn stream_content(&mut self) -> Content {
        let r = &mut self.rng;
        let near = |r: &mut Rng| {
            let base = *r.pick(&[0u64, 64, 32768, 65536, 98304, 131072, 4096, 196608]);
            (base + r.below(5)).saturating_sub(2)
        };
        match r.weighted(&[6, 8, 5, 20, 3, 10, 2, 1, 5, 2]) {
            9 => {
                // many chunks that only end because they must, and then a cut of some rank
                let mut v = vec![];
                for _ in 0..r.range(1, 3) {
                    let n = *r.pick(&[3, 17, 30, 34, 66, 130]);
                    v.push(Content::Rep(Box::new(Content::Quiet { len: 32768 }), n));
                    v.push(Content::Quiet { len: 65536 - 64 });
                    v.push(Content::Zeros(*r.pick(&crate::gear::COUNTS)));
                    if r.chance(1, 2) {
                        v.push(Content::Bin { seed: r.below(50), len: r.below(70_000) });
                    }
                }
                Content::Cat(v)
            }
            0 => Content::Bin { seed: r.below(100), len: r.below(300) },
            1 => Content::Bin { seed: r.below(100), len: near(r) },
            2 => Content::Fill { byte: *r.pick(&[0u8, 255, 81, 10]), len: near(r) },
            3 => {
                // boundaries of chosen rank at chosen places
                let mut v = vec![];
                let n = r.range(1, 9);
                for _ in 0..n {
                    v.push(Content::Quiet { len: *r.pick(&[0, 0, 1, 10, 500, 5000, 20_000]) });
                    if r.chance(5, 6) {
                        v.push(Content::Zeros(*r.pick(&crate::gear::COUNTS)));
                    }
                    if r.chance(1, 4) {
                        v.push(Content::Bin { seed: r.below(50), len: r.below(2000) });
                    }
                }
                Content::Cat(v)
            }
            4 => {
                // a chunk of more than 16 MiB
                let n = r.below(5000);
                Content::Cat(vec![Content::Quiet { len: (1 << 24) - 2500 + n }, Content::Zeros(20), Content::Bin { seed: n, len: 100 }])
            }
            5 => Content::Bin { seed: r.below(1000), len: r.range(100_000, 1_500_000) },
            6 => {
                // more than one key buffer full of chunks
                let n = r.range(20, 90);
                Content::Rep(Box::new(Content::Cat(vec![Content::Quiet { len: r.below(40) }, Content::Zeros(*r.pick(&[20, 21, 27]))])), n * 10)
            }
            7 => {
                let a = Content::Bin { seed: r.below(1000), len: r.range(1, 60_000) };
                Content::Rep(Box::new(a), r.range(2, 40))
            }
            _ => {
                // equal and different subtrees of chosen height: whole buffers that end with a cut
                let kinds: Vec<u32> = (0..r.range(1, 4)).map(|_| *r.pick(&crate::gear::COUNTS)).collect();
                let mut v = vec![];
                for _ in 0..r.range(2, 14) {
                    let half = if r.chance(1, 6) { 32768 } else { 65536 };
                    v.push(Content::Quiet { len: half - 64 });
                    v.push(Content::Zeros(*r.pick(&kinds)));
                }
                if r.chance(1, 3) {
                    v.push(Content::Lit("the end".into()));
                }
                Content::Cat(v)
            }
        }
    }

    fn stream_step(&mut self) -> StreamSpec {
        let content = self.stream_content();
        let len = content.size_hint();
        let reader = self.cuts(len, true);
        let mut writer = self.cuts(len, true);
        if let (Some((_, k)), true) = (&mut writer.err, self.r().chance(1, 4)) {
            *k = crate::stream::TAKES_NOTHING;
        }
        let again = if self.id == "C07" || self.r().chance(1, 3) { Some(self.cuts(len, false)) } else { None };
        let db = if len < 2_000_000 && self.r().chance(1, 4) { "/home/jess/out/s.db".to_string() } else { String::new() };
        StreamSpec { db, content, reader, writer, again, faults: vec![] }
    }

    // ---- store ----

    fn sop(&mut self, conns: u64) -> SOp {
        let r = self.r();
        let c = if r.chance(3, 4) { 0 } else { r.below(conns) as u8 };
        let k = r.below(18) as u8;
        let v = r.below(30) as u32;
        let (rf, rm) = (r.below(5) as u8, r.below(4) as u8);
        match r.weighted(&[5, 5, 8, 8, 3, 12, 8, 4, 6, 6, 3, 3, 8, 6, 5, 6, 6, 4, 8]) {
            0 => SOp::Open(c),
            1 => SOp::Drop(c),
            2 => SOp::Begin(c),
            3 => SOp::Commit(c),
            4 => SOp::Rollback(c),
            5 => SOp::Put(c, k, v),
            6 => SOp::Get(c, k),
            7 => SOp::Exists(c, k),
            8 => SOp::SetState(c, r.below(4) as u8, v),
            9 => SOp::GetState(c, r.below(4) as u8),
            10 => SOp::Head(c),
            11 => SOp::SetHead(c, rf),
            12 => SOp::Push(c, rf, rm, k),
            13 => SOp::Last(c, rf, rm),
            14 => SOp::Walk(c, rf, rm),
            15 => SOp::Between(c, k, r.below(80) as u8),
            16 => SOp::PutVal(c, v),
            17 => SOp::GetVal(c, v),
            _ => SOp::Resolve(c, k, *r.pick(&[1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 33, 50, 51, 52, 53, 53])),
        }
    }

    fn store_step(&mut self) -> StoreSpec {
        let db = "/home/jess/out/store.db".to_string();
        if self.id == "C14" && self.r().chance(2, 5) {
            let n = self.r().range(2, 4);
            self.n += 1;
            let db = format!("/home/jess/out/race{}.db", self.n);
            let mut racers = vec![];
            for _ in 0..n {
                let r = self.r();
                let mut faults = vec![];
                if r.chance(1, 5) {
                    let at = r.range(20, 700);
                    faults.push(match r.below(4) {
                        0 => Fault::Kill { at, torn: *r.pick(&[0, 500]) },
                        1 => Fault::Stall { at, ms: *r.pick(&[100, 5_500, 12_000]) },
                        2 => Fault::Power { at, torn: 0, seed: at * 7 },
                        _ => Fault::Err {
                            class: *r.pick(&[Class::Write, Class::Sync, Class::Read, Class::Unlink, Class::Lock, Class::Trunc]),
                            scope: Scope::Tree,
                            nth: r.range(1, 60),
                            count: *r.pick(&[1, 1, 4]),
                            errno: *r.pick(&[libc::EIO, libc::ENOSPC]),
                        },
                    });
                }
                racers.push(Racer {
                    rounds: r.range(1, 4),
                    order: r.below(3) as u8,
                    retries: r.below(3),
                    give_up: *r.pick(&[0, 0, 0, 2, 3]),
                    drop: r.chance(1, 2),
                    size: *r.pick(&[10, 600, 20_000]),
                    faults,
                });
            }
            let sched = Sched::Free { seed: self.r().next() >> 16, per: *self.rng.pick(&[2, 5, 20, 60]) };
            return StoreSpec::Race { db, racers, sched };
        }
        let n = self.r().range(8, 40);
        let conns = self.r().range(1, 3);
        let mut ops = vec![SOp::Open(0)];
        for c in 1..conns {
            ops.push(SOp::Open(c as u8));
        }
        let asking = if self.id == "C11" { 75 } else { 15 };
        if self.r().chance(asking, 100) {
            // a filled store that is only asked, with reads or locks failing now and then
            let mut ops = vec![SOp::Open(0)];
            for _ in 0..self.r().range(3, 14) {
                let r = self.r();
                let k = r.below(18) as u8;
                ops.push(SOp::Put(0, k, r.below(30) as u32));
                if r.chance(1, 3) {
                    ops.push(SOp::Push(0, r.below(5) as u8, r.below(4) as u8, k));
                }
            }
            let asked = self.r().range(6, 30);
            for _ in 0..asked {
                let r = self.r();
                if r.chance(1, 3) {
                    ops.push(SOp::Drop(0));
                    ops.push(SOp::Open(0));
                }
                loop {
                    let o = self.sop(1);
                    if matches!(o, SOp::Get(..) | SOp::Exists(..) | SOp::Last(..) | SOp::Walk(..) | SOp::Between(..) | SOp::Resolve(..) | SOp::GetVal(..)) {
                        ops.push(o);
                        break;
                    }
                }
            }
            let r = self.r();
            let mut faults = vec![];
            if r.chance(3, 4) {
                faults.push(Fault::Err {
                    class: *r.pick(&[Class::Read, Class::Read, Class::Lock, Class::Stat, Class::Open]),
                    scope: Scope::Tree,
                    nth: r.range(1, 40 + 3 * asked),
                    count: *r.pick(&[1, 1, 2, 1_000_000]),
                    errno: libc::EIO,
                });
            }
            return StoreSpec::Script { db, ops, faults };
        }
        for _ in 0..n {
            ops.push(self.sop(conns));
        }
        if self.r().chance(1, 12) {
            // a big transaction
            let r = self.r();
            let (m, from, step) = (r.range(40, 300), r.below(1000) as u32, *r.pick(&[1u32, 7, 7, 6]));
            let at = r.below(ops.len() as u64) as usize + 1;
            let mut big = vec![SOp::Begin(0)];
            for i in 0..m {
                let v = from + i as u32 * step;
                big.push(match r.below(12) {
                    0 => SOp::GetVal(0, from + r.below(m) as u32 * step),
                    1 if conns > 1 => SOp::GetVal(1, v),
                    2 => SOp::Push(0, 1, 0, (v % 18) as u8),
                    _ => SOp::PutVal(0, v),
                });
            }
            big.push(match r.below(5) {
                0 | 1 => SOp::Commit(0),
                2 | 3 => SOp::Rollback(0),
                _ => SOp::Drop(0),
            });
            for _ in 0..6 {
                big.push(SOp::GetVal(0, from + r.below(m) as u32 * step));
            }
            ops.splice(at..at, big);
        }
        let mut faults = vec![];
        let r = self.r();
        if r.chance(1, 2) {
            let at = r.range(10, 900);
            faults.push(match r.below(7) {
                0 | 1 => Fault::Kill { at, torn: *r.pick(&[0, 0, 500, 900]) },
                2 | 3 => Fault::Power { at, torn: *r.pick(&[0, 500]), seed: at * 31 + n },
                4 => Fault::Full { slack: r.below(200_000) },
                _ => Fault::Err {
                    class: *r.pick(&[Class::Write, Class::Sync, Class::Read, Class::Unlink, Class::Lock, Class::Trunc, Class::Open, Class::Stat]),
                    scope: Scope::Tree,
                    nth: r.range(1, 60),
                    count: *r.pick(&[1, 1, 4, 1_000_000]),
                    errno: *r.pick(&[libc::EIO, libc::ENOSPC]),
                },
            });
        }
        StoreSpec::Script { db, ops, faults }
    }
}

fn len_of(e: &Exec, path: &str) -> usize {
    e.w.fs.lookup(&unesc(path)).and_then(|i| e.w.fs.file(i).ok().map(|f| f.data.len())).unwrap_or(0)
}
