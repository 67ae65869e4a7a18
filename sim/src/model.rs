//! What the user is entitled to: the content of working trees as snapcd should see them, exclude
//! patterns, differences, and the parsing of what the program prints.
use crate::fs::*;
use crate::observe::{esc, file_digest, Flat};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Matching of the pattern forms the generator uses, as globset defines them (`*` also matches `/`).
pub fn glob(pat: &[u8], s: &[u8]) -> bool {
    if let Some(rest) = pat.strip_prefix(b"**/") {
        // any number of leading directories
        if glob(rest, s) || (s.first() == Some(&b'/') && glob(rest, &s[1..])) {
            return true;
        }
        return s.iter().enumerate().any(|(i, c)| *c == b'/' && glob(rest, &s[i + 1..]));
    }
    if pat == b"/**" {
        return s.len() > 1 && s[0] == b'/';
    }
    match pat.first() {
        None => s.is_empty(),
        Some(b'*') => {
            let rest = &pat[1..];
            (0..=s.len()).any(|i| glob(rest, &s[i..]))
        }
        Some(b'?') => !s.is_empty() && glob(&pat[1..], &s[1..]),
        Some(c) => s.first() == Some(c) && glob(&pat[1..], &s[1..]),
    }
}

pub fn excluded(excl: &[String], path: &[u8]) -> bool {
    // Path::strip_prefix normalises: what is left starts at the first real name
    let mut p = path;
    while let Some(rest) = p.strip_prefix(b"./") {
        p = rest;
        while p.first() == Some(&b'/') {
            p = &p[1..];
        }
    }
    excl.iter().any(|e| glob(e.as_bytes(), p))
}

pub fn join(base: &[u8], name: &[u8]) -> Vec<u8> {
    if name.first() == Some(&b'/') {
        return name.to_vec();
    }
    let mut v = base.to_vec();
    if !v.is_empty() && v.last() != Some(&b'/') {
        v.push(b'/');
    }
    v.extend_from_slice(name);
    v
}

/// Lexical absolute form (no symlinks, `.` dropped, `..` resolved).
pub fn absolute(cwd: &[u8], p: &[u8]) -> Vec<u8> {
    let j = join(cwd, p);
    let mut parts: Vec<&[u8]> = vec![];
    for c in j.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    let mut v = vec![];
    for c in parts {
        v.push(b'/');
        v.extend_from_slice(c);
    }
    if v.is_empty() {
        v.push(b'/');
    }
    v
}

pub fn under(p: &[u8], dir: &[u8]) -> bool {
    p == dir || (p.starts_with(dir) && (dir.ends_with(b"/") || p.get(dir.len()) == Some(&b'/')))
}

#[derive(Default)]
pub struct Digests {
    map: BTreeMap<usize, (Arc<Vec<u8>>, String)>,
}

impl Digests {
    pub fn of(&mut self, d: &Arc<Vec<u8>>) -> String {
        let p = Arc::as_ptr(d) as usize;
        if let Some((_, s)) = self.map.get(&p) {
            return s.clone();
        }
        let s = file_digest(d);
        self.map.insert(p, (d.clone(), s.clone()));
        s
    }
}

#[derive(Clone, Default, Debug)]
pub struct Snap {
    pub flat: Flat,
    pub root_file: bool,
    /// why a command that reads all of it cannot succeed
    pub fatal: Option<String>,
    /// why the outcome is not predicted
    pub odd: Option<String>,
    /// paths at which a snapshot may have anything
    pub vague: Vec<String>,
    /// nothing is known about what is in it
    pub opaque: bool,
    /// directories whose content could not be listed
    pub hidden_dirs: u64,
}

pub struct View<'a> {
    pub fs: &'a Fs,
    pub db: Vec<u8>,
    pub excl: &'a [String],
    /// look past permissions
    pub all: bool,
}

impl View<'_> {
    /// The tree below `base` (as the user spelled it, relative to `cwd`).
    pub fn snap(&self, dg: &mut Digests, cwd: Id, base: &[u8]) -> Snap {
        let mut s = Snap::default();
        match self.fs.resolve_at(cwd, base, true) {
            Ok((_, _, Some(id))) if self.fs.exists(id) => {
                if self.fs.is_dir(id) {
                    self.go(dg, id, base, b"", &mut s, 0);
                } else {
                    s.root_file = true;
                    self.file(dg, id, "", &mut s);
                }
            }
            _ => s.fatal = Some("no such path".into()),
        }
        s
    }

    fn file(&self, dg: &mut Digests, id: Id, rel: &str, s: &mut Snap) {
        if self.fs.node(id).mode & 0o400 == 0 && !self.all {
            s.fatal = Some(format!("{} is not readable", rel));
        }
        match self.fs.file(id) {
            Ok(f) => {
                s.flat.insert(rel.to_string(), (false, dg.of(&f.data)));
            }
            Err(_) => s.fatal = Some(format!("{} is neither file nor directory", rel)),
        }
    }

    fn go(&self, dg: &mut Digests, id: Id, spelled: &[u8], rel: &[u8], s: &mut Snap, depth: u32) {
        let mode = self.fs.node(id).mode;
        let entries = self.fs.dir(id).map_or(0, |m| m.len());
        if !self.all && (mode & 0o400 == 0 || mode & 0o100 == 0 && entries > 0) {
            if mode & 0o400 != 0 && self.fs.dir(id).map_or(false, |m| m.keys().all(|n| excluded(self.excl, &join(spelled, n)))) {
                return;
            }
            s.fatal = Some(format!("directory {} is not readable", esc(rel)));
            s.hidden_dirs += 1;
            return;
        }
        if depth > 30 {
            s.odd = Some("very deep".into());
            s.opaque = true;
            return;
        }
        let m = match self.fs.dir(id) {
            Ok(m) => m,
            Err(_) => return,
        };
        for (name, child) in m {
            let sp = join(spelled, name);
            let r = join(rel, name);
            let mut c = *child;
            if let Node::Link(_) = self.fs.node(c).node {
                match self.fs.resolve_at(id, name, true) {
                    Ok((_, _, Some(t))) => c = t,
                    _ => {
                        // does not lead anywhere: no file or directory, but nothing a command must cope with
                        if !excluded(self.excl, &sp) {
                            s.odd = Some(format!("{} is a dangling link", esc(&r)));
                            s.vague.push(esc(&r));
                        }
                        continue;
                    }
                }
            }
            let canon = self.fs.path_of(c);
            if under(&canon, &self.db) {
                continue;
            }
            if excluded(self.excl, &sp) {
                continue;
            }
            if std::str::from_utf8(name).is_err() {
                s.odd = Some(format!("{} is not UTF-8", esc(&r)));
            }
            if self.fs.is_dir(c) {
                s.flat.insert(esc(&r), (true, String::new()));
                self.go(dg, c, &sp, &r, s, depth + 1);
            } else {
                self.file(dg, c, &esc(&r), s);
            }
        }
    }
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Diff {
    /// (path, is a directory)
    pub added: BTreeSet<(String, bool)>,
    pub deleted: BTreeSet<(String, bool)>,
    pub modified: BTreeSet<String>,
}

impl Diff {
    pub fn of(new: &Flat, old: &Flat) -> Diff {
        let mut d = Diff::default();
        for (p, (dir, c)) in new {
            match old.get(p) {
                Some((od, oc)) if od == dir => {
                    if !dir && oc != c {
                        d.modified.insert(p.clone());
                    }
                }
                _ => {
                    d.added.insert((p.clone(), *dir));
                }
            }
        }
        for (p, (dir, _)) in old {
            match new.get(p) {
                Some((nd, _)) if nd == dir => {}
                _ => {
                    d.deleted.insert((p.clone(), *dir));
                }
            }
        }
        d
    }
    pub fn empty(&self) -> bool {
        self.added.is_empty() && self.deleted.is_empty() && self.modified.is_empty()
    }
    pub fn files(&self) -> BTreeSet<String> {
        let mut s = self.modified.clone();
        s.extend(self.added.iter().filter(|x| !x.1).map(|x| x.0.clone()));
        s.extend(self.deleted.iter().filter(|x| !x.1).map(|x| x.0.clone()));
        s
    }
    pub fn plain(&self) -> bool {
        self.added
            .iter()
            .map(|x| &x.0)
            .chain(self.deleted.iter().map(|x| &x.0))
            .chain(self.modified.iter())
            .all(|p| !p.contains('\\') && !p.starts_with(' ') && !p.ends_with(' '))
    }
}

fn parent_listed(set: &BTreeSet<String>, p: &str) -> bool {
    let mut q = p;
    while let Some(i) = q.rfind('/') {
        q = &q[..i];
        if set.contains(q) {
            return true;
        }
    }
    false
}

/// Does the printed difference say what `want` says? `loose`: paths that may or may not be listed.
pub fn check_diff(lines: &[&str], want: &Diff, loose: &dyn Fn(&str) -> bool) -> Result<(), String> {
    let mut sect = "";
    let mut got: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
    for l in lines {
        match *l {
            "added:" | "deleted:" | "modified:" => sect = l.trim_end_matches(':'),
            "" => {}
            _ => match l.strip_prefix("  ") {
                Some(p) if !sect.is_empty() => {
                    let p = p.strip_suffix('/').unwrap_or(p);
                    if !got.entry(sect).or_default().insert(p.to_string()) {
                        return Err(format!("{} listed twice as {}", p, sect));
                    }
                }
                _ => return Err(format!("unexpected line {:?}", l)),
            },
        }
    }
    let none = BTreeSet::new();
    let sets: [(&str, BTreeSet<String>); 3] = [
        ("added", want.added.iter().map(|x| x.0.clone()).collect()),
        ("deleted", want.deleted.iter().map(|x| x.0.clone()).collect()),
        ("modified", want.modified.clone()),
    ];
    for (name, full) in sets.iter() {
        let g = got.get(name).unwrap_or(&none);
        for p in g {
            if !full.contains(p) && !loose(p) {
                return Err(format!("{:?} is reported as {} and is not", p, name));
            }
        }
        for p in full {
            if !g.contains(p) && !(*name != "modified" && parent_listed(g, p)) && !loose(p) {
                return Err(format!("{:?} should be reported as {}", p, name));
            }
        }
    }
    Ok(())
}

/// Lines `path  +a -d`.
pub fn stat_paths(lines: &[&str]) -> Result<BTreeSet<String>, String> {
    let mut s = BTreeSet::new();
    for l in lines.iter().filter(|l| !l.is_empty()) {
        let i = l.rfind("  +").ok_or(format!("not a statistics line: {:?}", l))?;
        let rest: Vec<&str> = l[i + 2..].split(' ').collect();
        let num = |x: &str, c: char| x.strip_prefix(c).map_or(false, |n| n.parse::<u64>().is_ok());
        if rest.len() != 2 || !num(rest[0], '+') || !num(rest[1], '-') {
            return Err(format!("not a statistics line: {:?}", l));
        }
        if !s.insert(l[..i].to_string()) {
            return Err(format!("{:?} listed twice", &l[..i]));
        }
    }
    Ok(s)
}
