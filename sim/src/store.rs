//! The store interface under scripted transactions: several connections in one process, or several
//! processes; judged against a serial model.
use crate::rng::Rng;
use crate::viol::Viol;
use crate::world::{End, Fault, Outcome, Sched};
use serde::{Deserialize, Serialize};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::{DataStore, GetReflogError, Transactional};
use snapcd::key::Key;
use snapcd::Reflog;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryInto;
use std::io::Write;

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum SOp {
    Open(u8),
    Drop(u8),
    Begin(u8),
    Commit(u8),
    Rollback(u8),
    Put(u8, u8, u32),
    Get(u8, u8),
    Exists(u8, u8),
    SetState(u8, u8, u32),
    GetState(u8, u8),
    Head(u8),
    SetHead(u8, u8),
    Push(u8, u8, u8, u8),
    Last(u8, u8, u8),
    Walk(u8, u8, u8),
    Between(u8, u8, u8),
    /// content-addressed put of a value
    PutVal(u8, u32),
    GetVal(u8, u32),
    /// look an object up by the first n characters of a key's text form
    Resolve(u8, u8, u8),
}

impl SOp {
    pub fn conn(&self) -> u8 {
        use SOp::*;
        match *self {
            Open(c) | Drop(c) | Begin(c) | Commit(c) | Rollback(c) | Head(c) => c,
            Put(c, ..) | Get(c, ..) | Exists(c, ..) | SetState(c, ..) | GetState(c, ..) | SetHead(c, ..) | Push(c, ..)
            | Last(c, ..) | Walk(c, ..) | Between(c, ..) | PutVal(c, ..) | GetVal(c, ..) | Resolve(c, ..) => c,
        }
    }
    fn writes(&self) -> bool {
        use SOp::*;
        matches!(self, Put(..) | SetState(..) | SetHead(..) | Push(..) | PutVal(..))
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Racer {
    pub rounds: u64,
    /// 0: read then write, 1: write first, 2: push first
    pub order: u8,
    pub retries: u64,
    /// every n-th round is rolled back on purpose (0: never)
    pub give_up: u64,
    /// abandon the connection instead of rolling back
    pub drop: bool,
    pub size: u32,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum StoreSpec {
    Script { db: String, ops: Vec<SOp>, faults: Vec<Fault> },
    Race { db: String, racers: Vec<Racer>, sched: Sched },
}

fn key_bytes(k: u8) -> Vec<u8> {
    // neighbours, shared prefixes and extremes
    let mut v = vec![1u8];
    let body: [u8; 32] = match k % 18 {
        0 => [0; 32],
        1 => {
            let mut a = [0; 32];
            a[31] = 1;
            a
        }
        2 => [0xff; 32],
        3 => {
            let mut a = [0xff; 32];
            a[31] = 0xfe;
            a
        }
        4 => {
            let mut a = [0x55; 32];
            a[16] = 0;
            a
        }
        5 => [0x55; 32],
        // neighbours across a carry, and ones that differ late
        12 => {
            let mut a = [0x55; 32];
            a[31] = 0x54;
            a
        }
        13 => {
            let mut a = [0xff; 32];
            a[0] = 0x5f;
            a
        }
        14 => {
            let mut a = [0; 32];
            a[0] = 0x60;
            a
        }
        15 => {
            let mut a = [0xff; 32];
            a[..7].copy_from_slice(&[0x55; 7]);
            a
        }
        16 => {
            let mut a = [0; 32];
            a[..7].copy_from_slice(&[0x55; 7]);
            a[6] = 0x56;
            a
        }
        17 => {
            let mut a = [0xff; 32];
            a[0] = 0x7f;
            a
        }
        n => {
            let mut r = Rng::new(u64::from(n));
            let mut a = [0; 32];
            for x in a.iter_mut() {
                *x = r.next() as u8;
            }
            a
        }
    };
    v.extend_from_slice(&body);
    v
}

fn val(v: u32) -> Vec<u8> {
    let mut r = Rng::new(u64::from(v) ^ 0xabcd);
    let n = match v % 7 {
        0 => 0,
        1 => 1,
        2 => 40,
        3 => 700,
        4 => 5000,
        5 => 17000,
        _ => 40000,
    };
    let mut o = vec![];
    while o.len() < n {
        o.extend_from_slice(&r.next().to_le_bytes());
    }
    o.truncate(n);
    o
}

fn remote(r: u8) -> Option<String> {
    match r % 4 {
        0 => None,
        1 => Some("origin".into()),
        2 => Some(String::new()),
        _ => Some("other".into()),
    }
}

fn refname(r: u8) -> String {
    ["master", "dev", "", "Master", "feat/x"][r as usize % 5].to_string()
}

fn digest(b: &[u8]) -> String {
    format!("{}:{}", b.len(), &blake3::hash(b).to_hex()[..16])
}

fn keyname(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Text form of a database key, written down independently of the program's own encoder.
fn user(k: &[u8]) -> String {
    let mut s = String::from("b");
    let (mut acc, mut n) = (0u32, 0);
    for b in &k[1..] {
        acc = (acc << 8 | u32::from(*b)) & 0xffff;
        n += 8;
        while n >= 5 {
            n -= 5;
            s.push(b"abcdefghijklmnopqrstuvwxyz234567"[(acc >> n & 31) as usize] as char);
        }
    }
    if n > 0 {
        s.push(b"abcdefghijklmnopqrstuvwxyz234567"[(acc << (5 - n) & 31) as usize] as char);
    }
    s
}

/// The 32 bytes of a key printed as text.
pub fn key_from_text(t: &str) -> Vec<u8> {
    let (mut acc, mut n, mut out) = (0u32, 0, vec![]);
    for c in t.bytes().skip(1) {
        let v = match c {
            b'a'..=b'z' => c - b'a',
            b'2'..=b'7' => c - b'2' + 26,
            _ => return vec![],
        };
        acc = (acc << 5 | u32::from(v)) & 0xffff;
        n += 5;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
        }
    }
    out
}

fn key_of(k: u8) -> Key {
    let b = key_bytes(k);
    let a: [u8; 32] = b[1..].try_into().unwrap();
    Key::Blake3B(a)
}

fn say(s: &str) {
    // one write per line, so that what was done before a crash is known
    let mut l = s.replace('\n', " ");
    l.push('\n');
    let so = std::io::stdout();
    let mut so = so.lock();
    let _ = so.write_all(l.as_bytes());
    let _ = so.flush();
}

#[derive(Clone, PartialEq, Default, Debug)]
pub struct Db {
    data: BTreeMap<Vec<u8>, String>,
    state: BTreeMap<Vec<u8>, String>,
    reflog: Vec<(String, Option<String>, Vec<u8>)>,
}

impl Db {
    fn read(&self, op: &SOp) -> String {
        use SOp::*;
        let o = |x: Option<&String>| match x {
            Some(s) => s.clone(),
            None => "none".to_string(),
        };
        match op {
            Get(_, k) => o(self.data.get(&key_bytes(*k))),
            Exists(_, k) => self.data.contains_key(&key_bytes(*k)).to_string(),
            GetVal(_, v) => {
                let b = val(*v);
                let mut k = vec![1];
                k.extend_from_slice(blake3::hash(&b).as_bytes());
                o(self.data.get(&k))
            }
            GetState(_, k) => o(self.state.get(&vec![b's', *k])),
            Head(_) => o(self.state.get(&b"HEAD".to_vec())),
            Last(_, r, m) => {
                let (r, m) = (refname(*r), remote(*m));
                self.reflog.iter().rev().find(|e| e.0 == r && e.1 == m).map_or("none".into(), |e| keyname(&e.2))
            }
            Walk(_, r, m) => {
                let (r, m) = (refname(*r), remote(*m));
                self.reflog.iter().rev().filter(|e| e.0 == r && e.1 == m).map(|e| keyname(&e.2)).collect::<Vec<_>>().join(",")
            }
            Resolve(_, k, n) => {
                let t = user(&key_bytes(*k));
                let t = &t[..usize::from(*n).max(1).min(t.len())];
                let v: Vec<&Vec<u8>> = self.data.keys().filter(|k| user(k).starts_with(t)).collect();
                match v.len() {
                    0 => "none".into(),
                    1 => keyname(v[0]),
                    _ => "many".into(),
                }
            }
            Between(_, a, b) => {
                let (lo, hi) = between(*a, *b);
                let mut v: Vec<String> =
                    self.data.keys().filter(|k| **k >= lo && hi.as_ref().map_or(true, |h| *k < h)).map(|k| keyname(k)).collect();
                v.sort();
                v.join(",")
            }
            _ => String::new(),
        }
    }
    fn write(&mut self, op: &SOp) -> String {
        use SOp::*;
        match op {
            Put(_, k, v) => {
                self.data.entry(key_bytes(*k)).or_insert_with(|| digest(&val(*v)));
                String::new()
            }
            PutVal(_, v) => {
                let b = val(*v);
                let mut k = vec![1];
                k.extend_from_slice(blake3::hash(&b).as_bytes());
                let n = keyname(&k);
                self.data.entry(k).or_insert_with(|| digest(&b));
                n
            }
            SetState(_, k, v) => {
                self.state.insert(vec![b's', *k], digest(&val(*v)));
                String::new()
            }
            SetHead(_, r) => {
                self.state.insert(b"HEAD".to_vec(), format!("h{}", refname(*r)));
                String::new()
            }
            Push(_, r, m, k) => {
                self.reflog.push((refname(*r), remote(*m), key_bytes(*k)));
                String::new()
            }
            _ => String::new(),
        }
    }
}

fn between(a: u8, b: u8) -> (Vec<u8>, Option<Vec<u8>>) {
    let lo = key_bytes(a);
    if b % 4 == 0 {
        return (lo, None);
    }
    if b % 4 == 1 {
        return (lo[..1 + (b as usize % 7)].to_vec(), Some(key_bytes(b / 4)));
    }
    (lo, Some(key_bytes(b / 4)))
}

fn perform(ds: &mut SqliteDS, op: &SOp) -> Result<String, String> {
    use SOp::*;
    let e = |x: &dyn std::fmt::Display| x.to_string();
    Ok(match op {
        Begin(_) => ds.begin_trans().map(|_| String::new()).map_err(|x| e(&x))?,
        Commit(_) => ds.commit().map(|_| String::new()).map_err(|x| e(&x))?,
        Rollback(_) => ds.rollback().map(|_| String::new()).map_err(|x| e(&x))?,
        Put(_, k, v) => ds.raw_put(&key_bytes(*k), &val(*v)).map(|_| String::new()).map_err(|x| e(&x))?,
        PutVal(_, v) => {
            let k = ds.put(val(*v)).map_err(|x| e(&x))?;
            keyname(&k.as_db_key())
        }
        Get(_, k) => {
            if !ds.raw_exists(&key_bytes(*k)).map_err(|x| e(&x))? {
                "none".into()
            } else {
                digest(&ds.raw_get(&key_bytes(*k)).map_err(|x| e(&x))?)
            }
        }
        GetVal(_, v) => {
            let k = ds.hash(&val(*v));
            if !ds.raw_exists(&k.as_db_key()).map_err(|x| e(&x))? {
                "none".into()
            } else {
                digest(&ds.get(k).map_err(|x| e(&x))?)
            }
        }
        Exists(_, k) => ds.raw_exists(&key_bytes(*k)).map_err(|x| e(&x))?.to_string(),
        SetState(_, k, v) => ds.raw_put_state(&[b's', *k], &val(*v)).map(|_| String::new()).map_err(|x| e(&x))?,
        GetState(_, k) => match ds.raw_get_state(&[b's', *k]).map_err(|x| e(&x))? {
            Some(b) => digest(&b),
            None => "none".into(),
        },
        Head(_) => match ds.get_head().map_err(|x| e(&x))? {
            Some(h) => format!("h{}", h),
            None => "none".into(),
        },
        SetHead(_, r) => ds.put_head(&refname(*r)).map(|_| String::new()).map_err(|x| e(&x))?,
        Push(_, r, m, k) => ds
            .reflog_push(&Reflog { refname: refname(*r), remote: remote(*m), key: key_of(*k).into() })
            .map(|_| String::new())
            .map_err(|x| e(&x))?,
        Last(_, r, m) => match ds.reflog_get(&refname(*r), remote(*m).as_deref()) {
            Ok(k) => keyname(&k.inner().as_db_key()),
            Err(GetReflogError::NotFound) => "none".into(),
            Err(x) => return Err(e(&x)),
        },
        Walk(_, r, m) => ds
            .reflog_walk(&refname(*r), remote(*m).as_deref())
            .map_err(|x| e(&x))?
            .iter()
            .map(|k| keyname(&k.inner().as_db_key()))
            .collect::<Vec<_>>()
            .join(","),
        Between(_, a, b) => {
            let (lo, hi) = between(*a, *b);
            let mut v: Vec<String> = ds.raw_between(&lo, hi.as_deref()).map_err(|x| e(&x))?.iter().map(|k| keyname(k)).collect();
            v.sort();
            v.join(",")
        }
        Resolve(_, k, n) => {
            let t = user(&key_bytes(*k));
            let t = &t[..usize::from(*n).max(1).min(t.len())];
            let q: snapcd::Keyish = t.parse().map_err(|_| format!("{} is not taken for a key", t))?;
            match ds.canonicalize(q) {
                Ok(k) => keyname(&k.as_db_key()),
                Err(snapcd::ds::CanonicalizeError::NotFound(_)) => "none".into(),
                Err(snapcd::ds::CanonicalizeError::Ambigious(..)) => "many".into(),
                Err(x) => return Err(e(&x)),
            }
        }
        Open(_) | Drop(_) => String::new(),
    })
}

/// Runs in a simulated process.
pub fn script_body(db: &str, ops: &[SOp], faulty: bool) -> i32 {
    let mut conns: BTreeMap<u8, (SqliteDS, bool)> = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        let c = op.conn();
        if let SOp::Open(_) = op {
            if conns.contains_key(&c) {
                say(&format!("{} skip", i));
                continue;
            }
            match std::panic::catch_unwind(|| SqliteDS::new(db)) {
                Ok(Ok(d)) => {
                    conns.insert(c, (d, false));
                    say(&format!("{} ok ", i));
                }
                Ok(Err(e)) => {
                    say(&format!("{} err {}", i, e));
                    if faulty {
                        return 0;
                    }
                }
                Err(_) => {
                    say(&format!("{} err panic", i));
                    if faulty {
                        return 0;
                    }
                }
            }
            continue;
        }
        let (ds, broken) = match conns.get_mut(&c) {
            Some(x) => (&mut x.0, &mut x.1),
            None => {
                say(&format!("{} skip", i));
                continue;
            }
        };
        if let SOp::Drop(_) = op {
            conns.remove(&c);
            say(&format!("{} ok ", i));
            continue;
        }
        if *broken && !matches!(op, SOp::Rollback(_)) {
            say(&format!("{} skip", i));
            continue;
        }
        say(&format!("{} try", i));
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(ds, op))) {
            Ok(r) => r,
            Err(_) => Err("panic".into()),
        };
        match r {
            Ok(s) => {
                if let SOp::Rollback(_) = op {
                    *broken = false;
                }
                say(&format!("{} ok {}", i, s))
            }
            Err(e) => {
                say(&format!("{} err {}", i, e));
                *broken = true;
                if faulty {
                    // a careful client gives up: connections are dropped, nothing else is tried
                    return 0;
                }
            }
        }
    }
    say("end");
    0
}

/// Everything in the database, as seen by a fresh connection.
pub fn dump_body(db: &str) -> i32 {
    let r = (|| -> Result<(), rusqlite::Error> {
        let c = rusqlite::Connection::open(db)?;
        for t in ["data", "state"] {
            let mut st = c.prepare(&format!("SELECT key, value FROM {} ORDER BY key", t))?;
            let mut rows = st.query(rusqlite::NO_PARAMS)?;
            while let Some(r) = rows.next()? {
                let (k, v): (Vec<u8>, Vec<u8>) = (r.get(0)?, r.get(1)?);
                let v = if k == b"HEAD" { format!("h{}", String::from_utf8_lossy(&v)) } else { digest(&v) };
                say(&format!("{}\t{}\t{}", t, keyname(&k), v));
            }
        }
        let mut st = c.prepare("SELECT refname, remote, key FROM reflog ORDER BY id")?;
        let mut rows = st.query(rusqlite::NO_PARAMS)?;
        while let Some(r) = rows.next()? {
            let (n, m, k): (String, Option<String>, Vec<u8>) = (r.get(0)?, r.get(1)?, r.get(2)?);
            say(&format!("reflog\t{}\t{}\t{}", n, m.map_or("-".into(), |x| format!("+{}", x)), keyname(&k)));
        }
        Ok(())
    })();
    if let Err(e) = r {
        say(&format!("failed\t{}", e));
        return 1;
    }
    0
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

pub fn parse_dump(out: &[u8]) -> Result<Db, String> {
    let mut db = Db::default();
    for l in String::from_utf8_lossy(out).lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "data" => {
                db.data.insert(unhex(f[1]), f[2].to_string());
            }
            "state" => {
                db.state.insert(unhex(f[1]), f[2].to_string());
            }
            "reflog" => db.reflog.push((f[1].to_string(), f[2].strip_prefix('+').map(|x| x.to_string()), unhex(f[3]))),
            _ => return Err(l.to_string()),
        }
    }
    Ok(db)
}

fn show_diff(want: &Db, got: &Db) -> String {
    let mut v = vec![];
    for (k, d) in &want.data {
        match got.data.get(k) {
            None => v.push(format!("object {} missing", &keyname(k)[..12])),
            Some(g) if g != d => v.push(format!("object {} is {} instead of {}", &keyname(k)[..12], g, d)),
            _ => {}
        }
    }
    for k in got.data.keys() {
        if !want.data.contains_key(k) {
            v.push(format!("object {} should not exist", &keyname(k)[..12]));
        }
    }
    if want.state != got.state {
        v.push(format!("state {:?} instead of {:?}", got.state, want.state));
    }
    if want.reflog != got.reflog {
        v.push(format!("{} reflog entries instead of {} (or different ones)", got.reflog.len(), want.reflog.len()));
    }
    v.join("; ")
}

#[derive(Clone)]
struct Txn {
    view: Option<Db>,
    dirty: bool,
}

/// Compare what a script did with the model. Returns the possible committed states.
pub fn judge_script(start: &Db, ops: &[SOp], o: &Outcome, faulty: bool, out: &mut Vec<Viol>) -> Vec<Db> {
    let mut committed = start.clone();
    let mut conns: BTreeMap<u8, Option<Txn>> = BTreeMap::new();
    let text = String::from_utf8_lossy(&o.out).into_owned();
    let mut lines: BTreeMap<usize, (&str, &str)> = BTreeMap::new();
    let mut tried: Option<usize> = None;
    for l in text.lines() {
        let mut it = l.splitn(3, ' ');
        let (i, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
        if let Ok(i) = i.parse::<usize>() {
            if w == "try" {
                tried = Some(i);
            } else {
                tried = None;
                lines.insert(i, (w, it.next().unwrap_or("")));
            }
        }
    }
    let fail = |out: &mut Vec<Viol>, i: usize, kind: &str, d: String| {
        let tags: &[&str] = match ops[i] {
            SOp::Resolve(..) | SOp::Exists(..) | SOp::Between(..) => &["C11", "C14"],
            SOp::Last(..) | SOp::Walk(..) => &["C13", "C11", "C14"],
            SOp::Push(..) | SOp::Head(..) | SOp::SetHead(..) => &["C13", "C14"],
            _ => &["C14"],
        };
        out.push(Viol::new(tags, kind, format!("operation {} {:?}: {}", i, ops[i], d)));
    };
    for (i, op) in ops.iter().enumerate() {
        let (w, rest) = match lines.get(&i) {
            Some(x) => *x,
            None => break,
        };
        if w == "skip" {
            continue;
        }
        let c = op.conn();
        let others_open = conns.iter().any(|(k, t)| *k != c && t.is_some());
        if w == "err" {
            let in_txn = matches!(conns.get(&c), Some(Some(_)));
            let misuse = match op {
                SOp::Begin(_) => in_txn,
                SOp::Commit(_) | SOp::Rollback(_) => !in_txn,
                _ => false,
            };
            if misuse {
                continue;
            }
            if !faulty && !others_open {
                fail(out, i, "store-spurious-error", rest.to_string());
                return vec![committed];
            }
            if faulty {
                // the operation took effect wholly or not at all
                let mut cands = vec![committed.clone()];
                match op {
                    SOp::Commit(_) => {
                        if let Some(Some(Txn { view: Some(v), .. })) = conns.get(&c) {
                            cands.push(v.clone());
                        }
                    }
                    _ if op.writes() => {
                        if let Some(None) = conns.get(&c) {
                            let mut v = committed.clone();
                            v.write(op);
                            cands.push(v);
                        }
                    }
                    _ => {}
                }
                return cands;
            }
            continue;
        }
        match op {
            SOp::Open(_) => {
                conns.insert(c, None);
            }
            SOp::Drop(_) => {
                conns.remove(&c);
            }
            SOp::Begin(_) => {
                if let Some(Some(_)) = conns.get(&c) {
                    fail(out, i, "store-nested-begin", "a second begin inside a transaction succeeded".into());
                }
                conns.insert(c, Some(Txn { view: None, dirty: false }));
            }
            SOp::Commit(_) => {
                if let Some(Some(t)) = conns.get(&c) {
                    if t.dirty {
                        committed = t.view.clone().unwrap();
                    }
                }
                conns.insert(c, None);
            }
            SOp::Rollback(_) => {
                conns.insert(c, None);
            }
            _ => {
                let t = conns.entry(c).or_insert(None);
                match t {
                    None => {
                        let want = if op.writes() { committed.write(op) } else { committed.read(op) };
                        if want != rest {
                            fail(out, i, "store-wrong-result", format!("gave {:?}, expected {:?}", clip(rest), clip(&want)));
                        }
                    }
                    Some(t) => {
                        if t.view.is_none() {
                            t.view = Some(committed.clone());
                        }
                        if op.writes() {
                            if !t.dirty && t.view.as_ref() != Some(&committed) {
                                fail(out, i, "store-stale-write", "the transaction wrote on top of a state that is no longer current".into());
                            }
                            t.dirty = true;
                        }
                        let v = t.view.as_mut().unwrap();
                        let want = if op.writes() { v.write(op) } else { v.read(op) };
                        if want != rest {
                            fail(out, i, "store-wrong-result", format!("inside a transaction gave {:?}, expected {:?}", clip(rest), clip(&want)));
                        }
                    }
                }
            }
        }
        if !out.is_empty() {
            return vec![committed];
        }
    }
    let mut cands = vec![committed.clone()];
    if o.end != End::Exit(0) {
        // the crash may have come just before or just after the operation in flight took effect
        if let Some(i) = tried {
            let op = &ops[i];
            match op {
                SOp::Commit(c) => {
                    if let Some(Some(t)) = conns.get(c) {
                        if let (true, Some(v)) = (t.dirty, &t.view) {
                            cands.push(v.clone());
                        }
                    }
                }
                _ if op.writes() => {
                    if let Some(None) = conns.get(&op.conn()) {
                        let mut v = committed.clone();
                        v.write(op);
                        cands.push(v);
                    }
                }
                _ => {}
            }
        }
    }
    cands
}

fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

pub fn judge_dump(cands: &[Db], dump: &Outcome, tags: &[&str], out: &mut Vec<Viol>) -> Option<Db> {
    if dump.end != End::Exit(0) {
        out.push(Viol::new(tags, "store-unreadable", format!("afterwards the database cannot be read: {:?} {}", dump.end, clip(&String::from_utf8_lossy(&dump.out)))));
        return None;
    }
    match parse_dump(&dump.out) {
        Err(e) => {
            out.push(Viol::new(tags, "store-unreadable", e));
            None
        }
        Ok(db) => {
            if cands.iter().any(|c| *c == db) {
                Some(db)
            } else {
                let d = cands.iter().map(|c| show_diff(c, &db)).min_by_key(|d| d.len()).unwrap();
                out.push(Viol::new(tags, "store-wrong-state", format!("committed state differs: {}", clip(&d))));
                None
            }
        }
    }
}

// ---- several processes ----

pub fn race_body(db: &str, me: usize, r: &Racer) -> i32 {
    let mut ds = match SqliteDS::new(db) {
        Ok(d) => d,
        Err(e) => {
            say(&format!("noopen {}", e));
            return 0;
        }
    };
    for round in 0..r.rounds {
        let mut tries = 0;
        loop {
            // a failed attempt may have taken effect: what comes next must be told apart from it
            let round = round + 16 * tries;
            let res = race_round(&mut ds, me, round, r);
            match res {
                Ok(true) => break,
                Ok(false) => {
                    say(&format!("gaveup {}", round));
                    if r.drop {
                        drop(ds);
                    } else if let Err(e) = ds.rollback() {
                        say(&format!("norollback {}", e));
                        return 0;
                    } else {
                        break;
                    }
                    ds = match SqliteDS::new(db) {
                        Ok(d) => d,
                        Err(e) => {
                            say(&format!("noopen {}", e));
                            return 0;
                        }
                    };
                    break;
                }
                Err(e) => {
                    say(&format!("failed {} {}", round, e));
                    if ds.rollback().is_err() || r.drop {
                        drop(ds);
                        ds = match SqliteDS::new(db) {
                            Ok(d) => d,
                            Err(e) => {
                                say(&format!("noopen {}", e));
                                return 0;
                            }
                        };
                    }
                    tries += 1;
                    if tries > r.retries {
                        break;
                    }
                }
            }
        }
    }
    say("end");
    0
}

fn race_round(ds: &mut SqliteDS, me: usize, round: u64, r: &Racer) -> Result<bool, String> {
    let e = |x: &dyn std::fmt::Display| x.to_string();
    let tag = [me as u8, round as u8];
    let mut kb = [0u8; 32];
    kb[..2].copy_from_slice(&tag);
    kb[2] = 0xaa;
    let key = Key::Blake3B(kb);
    let payload: Vec<u8> = {
        let mut g = Rng::new(u64::from(tag[0]) << 8 | u64::from(tag[1]));
        (0..r.size).map(|_| g.next() as u8).collect()
    };
    ds.begin_trans().map_err(|x| e(&x))?;
    let look = |ds: &SqliteDS| -> Result<u64, String> {
        let n = match ds.raw_get_state(b"n").map_err(|x| e(&x))? {
            Some(b) => String::from_utf8_lossy(&b).parse::<u64>().map_err(|x| e(&x))?,
            None => 0,
        };
        Ok(n)
    };
    let walk = |ds: &SqliteDS| -> Result<u64, String> { Ok(ds.reflog_walk("race", None).map_err(|x| e(&x))?.len() as u64) };
    let objs = |ds: &SqliteDS| -> Result<u64, String> {
        Ok(ds.raw_between(&[1], None).map_err(|x| e(&x))?.iter().filter(|k| k.len() > 3 && k[3] == 0xaa).count() as u64)
    };
    let push = |ds: &SqliteDS| ds.reflog_push(&Reflog { refname: "race".into(), remote: None, key: key.into() }).map_err(|x| e(&x));
    let (n, wl, ol);
    match r.order % 3 {
        0 => {
            n = look(ds)?;
            wl = walk(ds)?;
            ol = objs(ds)?;
            say(&format!("view {} {} {} {}", round, n, wl, ol));
            ds.raw_put(&key.as_db_key(), &payload).map_err(|x| e(&x))?;
            push(ds)?;
            ds.raw_put_state(b"n", (n + 1).to_string().as_bytes()).map_err(|x| e(&x))?;
        }
        1 => {
            ds.raw_put(&key.as_db_key(), &payload).map_err(|x| e(&x))?;
            wl = walk(ds)?;
            n = look(ds)?;
            ol = objs(ds)?;
            say(&format!("view {} {} {} {}", round, n, wl, ol.wrapping_sub(1)));
            ds.raw_put_state(b"n", (n + 1).to_string().as_bytes()).map_err(|x| e(&x))?;
            push(ds)?;
        }
        _ => {
            push(ds)?;
            n = look(ds)?;
            ol = objs(ds)?;
            ds.raw_put_state(b"n", (n + 1).to_string().as_bytes()).map_err(|x| e(&x))?;
            wl = walk(ds)?;
            say(&format!("view {} {} {} {}", round, n, wl.wrapping_sub(1), ol));
            ds.raw_put(&key.as_db_key(), &payload).map_err(|x| e(&x))?;
        }
    }
    if r.give_up > 0 && round % 16 % r.give_up == r.give_up - 1 {
        return Ok(false);
    }
    say(&format!("committing {}", round));
    ds.commit().map_err(|x| e(&x))?;
    say(&format!("done {} {}", round, n));
    Ok(true)
}

pub fn judge_race(racers: &[Racer], outs: &[Outcome], dump: &Outcome, out: &mut Vec<Viol>) {
    let db = match parse_dump(&dump.out) {
        Ok(d) if dump.end == End::Exit(0) => d,
        _ => {
            out.push(Viol::new(&["C14", "C16"], "store-unreadable", "after the race the database cannot be read".into()));
            return;
        }
    };
    let listed: Vec<(u8, u8)> = db.reflog.iter().filter(|e| e.0 == "race").map(|e| (e.2[1], e.2[2])).collect();
    let set: BTreeSet<(u8, u8)> = listed.iter().copied().collect();
    if set.len() != listed.len() {
        out.push(Viol::new(&["C14", "C04"], "race-duplicate", "a committed entry appears twice".into()));
    }
    let objects: BTreeSet<(u8, u8)> = db.data.keys().filter(|k| k.len() == 33 && k[3] == 0xaa).map(|k| (k[1], k[2])).collect();
    if objects != set {
        out.push(Viol::new(&["C14"], "race-partial", format!("transactions took effect in part: objects of {:?}, ref entries of {:?}", objects, set)));
    }
    let n_digest = db.state.get(&b"n".to_vec()).cloned();
    let want = if set.is_empty() { None } else { Some(digest(set.len().to_string().as_bytes())) };
    if n_digest != want {
        out.push(Viol::new(&["C14", "C04"], "race-lost-update", format!("{} transactions in the ref, but the counter disagrees", set.len())));
    }
    for (p, o) in outs.iter().enumerate() {
        let full = racers.iter().any(|r| r.faults.iter().any(|f| matches!(f, Fault::Full { .. })));
        let faulty = full || !racers[p].faults.is_empty();
        if !faulty && !matches!(o.end, End::Exit(0) | End::Killed | End::Power) {
            out.push(Viol::new(&["C14"], "race-crashed", format!("process {} ended with {:?}: {}", p, o.end, clip(&String::from_utf8_lossy(&o.err)))));
        }
        let text = String::from_utf8_lossy(&o.out).into_owned();
        let mut done = BTreeSet::new();
        let mut pending: Option<u8> = None;
        for l in text.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok());
            match f[0] {
                "view" => {
                    if num(2) != num(3) || num(2) != num(4) {
                        out.push(Viol::new(&["C14"], "race-inconsistent-view", format!("process {} saw counter {}, {} entries and {} objects in one transaction", p, f[2], f[3], f[4])));
                    }
                }
                "committing" => pending = num(1).map(|x| x as u8),
                "done" => {
                    pending = None;
                    done.insert(num(1).unwrap_or(0) as u8);
                }
                "failed" if !faulty => pending = None,
                _ => {}
            }
        }
        for d in &done {
            if !set.contains(&(p as u8, *d)) {
                out.push(Viol::new(&["C14", "C04"], "race-lost-commit", format!("process {} committed round {}, which is gone", p, d)));
            }
        }
        for (q, d) in &set {
            if *q as usize == p && !done.contains(d) && pending != Some(*d) && !(faulty && text.contains(&format!("failed {} ", d))) {
                out.push(Viol::new(&["C14"], "race-ghost-commit", format!("process {} did not commit round {}, yet it is there", p, d)));
            }
        }
    }
}
