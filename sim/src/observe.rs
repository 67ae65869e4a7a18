//! Reads the whole logical state of a repository, in a process of its own on a *copy* of the simulated
//! machine, so that looking never changes what happens next.
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Info {
    pub ty: String,
    pub kids: Vec<String>,
    pub msg: Option<String>,
    pub size: u64,
    /// digest of the object's own data
    pub data: String,
}

/// path -> (is a directory, digest of the content)
pub type Flat = BTreeMap<String, (bool, String)>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Raw {
    pub missing: bool,
    pub err: Option<String>,
    pub head: Option<String>,
    /// (ref name, remote, key), oldest first
    pub refs: Vec<(String, Option<String>, String)>,
    pub keys: Vec<String>,
    pub fresh: BTreeMap<String, Info>,
    /// stored bytes do not hash to the key, or do not decode
    pub bad: BTreeMap<String, String>,
    pub trees: BTreeMap<String, Result<Flat, String>>,
}

/// What is known about a repository's database.
#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub missing: bool,
    pub err: Option<String>,
    pub head: Option<String>,
    pub refs: BTreeMap<(String, Option<String>), Vec<String>>,
    pub keys: BTreeSet<String>,
    pub bad: BTreeMap<String, String>,
}

/// Decoded objects and trees; both are determined by their key.
#[derive(Default)]
pub struct Known {
    pub objs: BTreeMap<String, Info>,
    pub trees: BTreeMap<String, Arc<Flat>>,
}

pub fn digest(b: &[u8]) -> String {
    format!("{}:{}", b.len(), &blake3::hash(b).to_hex()[..24])
}

/// Readable and injective form of a path's bytes.
pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        if (0x20..0x7f).contains(c) && *c != b'\\' {
            s.push(*c as char);
        } else {
            s.push_str(&format!("\\x{:02x}", c));
        }
    }
    s
}

pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 3 < b.len() && b[i + 1] == b'x' {
            if let Ok(v) = u8::from_str_radix(&s[i + 2..i + 4], 16) {
                o.push(v);
                i += 4;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

/// Digest of a file's content; the last letter says whether it is text.
pub fn file_digest(b: &[u8]) -> String {
    format!("{}{}", digest(b), if std::str::from_utf8(b).is_ok() { 't' } else { 'b' })
}

pub fn tree_of(ds: &snapcd::ds::sqlite::SqliteDS, key: snapcd::key::Key) -> Result<Flat, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Flat, String> {
        use std::os::unix::ffi::OsStrExt;
        let mut out = Flat::new();
        for (p, (k, dir)) in snapcd::dir::walk_fs_items(ds, key.into()).map_err(|e| e.to_string())? {
            let d = if dir {
                String::new()
            } else {
                let mut h = vec![];
                snapcd::file::read_data(ds, k.inner(), &mut h).map_err(|e| e.to_string())?;
                file_digest(&h)
            };
            out.insert(esc(p.as_os_str().as_bytes()), (dir, d));
        }
        Ok(out)
    }));
    match r {
        Ok(x) => x,
        Err(_) => Err("panicked".into()),
    }
}

fn read_all(path: &str, known: &BTreeSet<String>, have_trees: &BTreeSet<String>, want: &[String]) -> Result<Raw, String> {
    let e = |x: &dyn std::fmt::Display| x.to_string();
    let mut raw = Raw::default();
    let c = rusqlite::Connection::open(path).map_err(|x| e(&x))?;
    let tables: BTreeSet<String> = {
        let mut st = c.prepare("SELECT name FROM sqlite_master WHERE type='table'").map_err(|x| e(&x))?;
        let r = st.query_map(rusqlite::NO_PARAMS, |r| r.get::<_, String>(0)).map_err(|x| e(&x))?;
        let mut s = BTreeSet::new();
        for x in r {
            s.insert(x.map_err(|x| e(&x))?);
        }
        s
    };
    let mut roots: Vec<String> = want.to_vec();
    let mut by_name: BTreeMap<String, snapcd::key::Key> = BTreeMap::new();
    if tables.contains("state") {
        let mut st = c.prepare("SELECT value FROM state WHERE key=?").map_err(|x| e(&x))?;
        let mut rows = st.query(rusqlite::params![&b"HEAD"[..]]).map_err(|x| e(&x))?;
        if let Some(r) = rows.next().map_err(|x| e(&x))? {
            let b: Vec<u8> = r.get(0).map_err(|x| e(&x))?;
            raw.head = Some(String::from_utf8_lossy(&b).into_owned());
        }
    }
    if tables.contains("reflog") {
        let mut st = c.prepare("SELECT refname, remote, key FROM reflog ORDER BY id").map_err(|x| e(&x))?;
        let mut rows = st.query(rusqlite::NO_PARAMS).map_err(|x| e(&x))?;
        while let Some(r) = rows.next().map_err(|x| e(&x))? {
            let (n, m, k): (String, Option<String>, Vec<u8>) = (r.get(0).map_err(|x| e(&x))?, r.get(1).map_err(|x| e(&x))?, r.get(2).map_err(|x| e(&x))?);
            let k = match snapcd::key::Key::from_db_key(&k) {
                Ok(k) => k.as_user_key(),
                Err(x) => format!("?{}", x),
            };
            raw.refs.push((n, m, k));
        }
    }
    if tables.contains("data") {
        let mut st = c.prepare("SELECT key, value FROM data ORDER BY key").map_err(|x| e(&x))?;
        let mut rows = st.query(rusqlite::NO_PARAMS).map_err(|x| e(&x))?;
        while let Some(r) = rows.next().map_err(|x| e(&x))? {
            let (k, v): (Vec<u8>, Vec<u8>) = (r.get(0).map_err(|x| e(&x))?, r.get(1).map_err(|x| e(&x))?);
            let key = match snapcd::key::Key::from_db_key(&k) {
                Ok(k) => {
                    by_name.insert(k.as_user_key(), k);
                    k.as_user_key()
                }
                Err(x) => {
                    raw.bad.insert(format!("?{}", esc(&k)), x.to_string());
                    continue;
                }
            };
            raw.keys.push(key.clone());
            if k[1..] != blake3::hash(&v).as_bytes()[..] {
                raw.bad.insert(key.clone(), "stored bytes do not hash to the key".into());
                continue;
            }
            if known.contains(&key) {
                continue;
            }
            match serde_cbor::from_slice::<snapcd::Object>(&v) {
                Err(x) => {
                    raw.bad.insert(key, format!("does not decode: {}", x));
                }
                Ok(o) => {
                    let ty = format!("{:?}", o.objtype());
                    let mut msg = None;
                    if ty == "Commit" {
                        if let Ok(serde_cbor::Value::Map(m)) = serde_cbor::from_slice::<serde_cbor::Value>(o.data()) {
                            if let Some(serde_cbor::Value::Text(t)) = m.get(&serde_cbor::Value::Text("message".into())) {
                                msg = Some(t.clone());
                            }
                        }
                        if let Some(k) = o.keys().get(0) {
                            roots.push(k.as_user_key());
                        }
                    }
                    let kids = o.keys().iter().map(|k| k.as_user_key()).collect();
                    raw.fresh.insert(key, Info { ty, kids, msg, size: o.data().len() as u64, data: digest(o.data()) });
                }
            }
        }
    }
    roots.retain(|r| !have_trees.contains(r));
    if !roots.is_empty() {
        let present: BTreeSet<&String> = raw.keys.iter().collect();
        let ds = snapcd::ds::sqlite::SqliteDS::new(path).map_err(|x| e(&x))?;
        for r in roots {
            if raw.trees.contains_key(&r) || !present.contains(&r) {
                continue;
            }
            let t = tree_of(&ds, by_name[&r]);
            raw.trees.insert(r, t);
        }
    }
    Ok(raw)
}

/// `db` is the database file. `want`: further keys whose trees should be read.
pub fn observe(w: &World, db: &str, known: &mut Known, want: &[String]) -> Result<(Obs, BTreeMap<String, String>), HarnessError> {
    let mut obs = Obs::default();
    match w.fs.lookup(db.as_bytes()) {
        Some(id) if !w.fs.is_dir(id) => {}
        _ => {
            obs.missing = true;
            return Ok((obs, BTreeMap::new()));
        }
    }
    let mut copy = Box::new(w.clone());
    copy.trace = None;
    copy.capacity = None;
    copy.step_cap = 5_000_000;
    let real = world() as *mut World;
    install(&mut *copy);
    let have: BTreeSet<String> = known.objs.keys().cloned().collect();
    let have_trees: BTreeSet<String> = known.trees.keys().cloned().collect();
    let want = want.to_vec();
    let path = db.to_string();
    let job = Job {
        cwd: b"/".to_vec(),
        faults: vec![],
        body: Box::new(move || {
            let r = match std::panic::catch_unwind(|| read_all(&path, &have, &have_trees, &want)) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => Raw { err: Some(e), ..Raw::default() },
                Err(_) => Raw { err: Some("panicked".into()), ..Raw::default() },
            };
            use std::io::Write;
            let s = serde_json::to_vec(&r).unwrap();
            let so = std::io::stdout();
            let mut so = so.lock();
            let _ = so.write_all(&s);
            let _ = so.flush();
            0
        }),
    };
    let r = run(&mut copy, vec![job], Sched::Fixed(vec![]));
    install(real);
    let o = r?.remove(0);
    if o.end != End::Exit(0) {
        obs.err = Some(format!("{:?} {}", o.end, String::from_utf8_lossy(&o.err)));
        return Ok((obs, BTreeMap::new()));
    }
    let raw: Raw = serde_json::from_slice(&o.out).map_err(|e| HarnessError(format!("observer: {} in {}", e, String::from_utf8_lossy(&o.out))))?;
    obs.err = raw.err;
    obs.head = raw.head;
    for (n, m, k) in raw.refs {
        obs.refs.entry((n, m)).or_default().push(k);
    }
    obs.keys = raw.keys.into_iter().collect();
    obs.bad = raw.bad;
    known.objs.extend(raw.fresh);
    let mut failed = BTreeMap::new();
    for (k, t) in raw.trees {
        match t {
            Ok(f) => {
                known.trees.insert(k, Arc::new(f));
            }
            Err(e) => {
                failed.insert(k, e);
            }
        }
    }
    Ok((obs, failed))
}

impl Obs {
    pub fn local(&self, r: &str) -> &[String] {
        self.list(r, None)
    }
    pub fn list(&self, r: &str, m: Option<&str>) -> &[String] {
        self.refs.get(&(r.to_string(), m.map(|x| x.to_string()))).map_or(&[], |v| &v[..])
    }
    pub fn same_logical(&self, o: &Obs) -> bool {
        self.head == o.head && self.refs == o.refs
    }
}
