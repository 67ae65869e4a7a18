//! The simulated file system and disk. Pure state: no injection, no scheduling.
//!
//! Namespace operations and ordinary file data are durable at once; files that SQLite opens are
//! "tracked": writes and truncations to them stay pending until a sync, and a power loss keeps,
//! drops, reorders or tears what is pending.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Id = u64;
pub type Errno = i32;
pub type R<T> = Result<T, Errno>;

#[derive(Clone, Debug)]
pub enum Pend {
    Write(u64, Vec<u8>),
    Trunc(u64),
}

#[derive(Clone, Default)]
pub struct FileData {
    pub data: Arc<Vec<u8>>,
    pub tracked: bool,
    pub durable: Arc<Vec<u8>>,
    pub pending: Vec<Pend>,
    /// Directory entry has reached the disk.
    pub born: bool,
}

#[derive(Clone)]
pub enum Node {
    File(FileData),
    Dir(BTreeMap<Vec<u8>, Id>),
    Link(Vec<u8>),
}

#[derive(Clone)]
pub struct Inode {
    pub node: Node,
    pub dev: u32,
    pub ino: u64,
    pub nlink: u32,
    pub mode: u32,
    pub mtime: i64,
    pub ctime: i64,
    pub opens: u32,
}

#[derive(Clone)]
pub struct Fs {
    pub inodes: BTreeMap<Id, Inode>,
    pub next_id: Id,
    /// per device: (next inode number, free numbers)
    pub inos: BTreeMap<u32, (u64, BTreeSet<u64>)>,
    pub mounts: BTreeMap<Id, u32>,
    pub salt: u64,
    pub reuse: bool,
    /// timestamp granularity in ns
    pub gran: i64,
    /// un-synced deletions of tracked files: (parent, name, inode)
    pub ghosts: Vec<(Id, Vec<u8>, Inode)>,
}

pub const ROOT: Id = 1;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tree {
    File(Arc<Vec<u8>>),
    Dir(BTreeMap<Vec<u8>, Tree>),
}

impl Tree {
    pub fn empty() -> Tree {
        Tree::Dir(BTreeMap::new())
    }
    pub fn flatten(&self) -> BTreeMap<Vec<u8>, Option<Arc<Vec<u8>>>> {
        fn go(t: &Tree, p: &[u8], out: &mut BTreeMap<Vec<u8>, Option<Arc<Vec<u8>>>>) {
            match t {
                Tree::File(d) => {
                    out.insert(p.to_vec(), Some(d.clone()));
                }
                Tree::Dir(m) => {
                    if !p.is_empty() {
                        out.insert(p.to_vec(), None);
                    }
                    for (n, c) in m {
                        let mut q = p.to_vec();
                        if !q.is_empty() {
                            q.push(b'/');
                        }
                        q.extend_from_slice(n);
                        go(c, &q, out);
                    }
                }
            }
        }
        let mut out = BTreeMap::new();
        go(self, b"", &mut out);
        out
    }
    pub fn get(&self, rel: &[u8]) -> Option<&Tree> {
        let mut t = self;
        for part in rel.split(|b| *b == b'/').filter(|p| !p.is_empty() && *p != b".") {
            match t {
                Tree::Dir(m) => t = m.get(part)?,
                _ => return None,
            }
        }
        Some(t)
    }
}

pub fn show_path(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}

impl Fs {
    pub fn new() -> Fs {
        let mut fs = Fs {
            inodes: BTreeMap::new(),
            next_id: ROOT,
            inos: BTreeMap::new(),
            mounts: BTreeMap::new(),
            salt: 0,
            reuse: true,
            gran: 1,
            ghosts: vec![],
        };
        fs.alloc(1, Node::Dir(BTreeMap::new()), 0o755, 0);
        fs
    }

    fn alloc(&mut self, dev: u32, node: Node, mode: u32, now: i64) -> Id {
        let id = self.next_id;
        self.next_id += 1;
        let reuse = self.reuse;
        let pool = self.inos.entry(dev).or_insert((11, BTreeSet::new()));
        let ino = if reuse && !pool.1.is_empty() {
            let n = *pool.1.iter().next().unwrap();
            pool.1.remove(&n);
            n
        } else {
            pool.0 += 1;
            pool.0
        };
        let t = self.stamp(now);
        self.inodes.insert(id, Inode { node, dev, ino, nlink: 1, mode, mtime: t, ctime: t, opens: 0 });
        id
    }

    fn stamp(&self, now: i64) -> i64 {
        now - now.rem_euclid(self.gran)
    }

    pub fn touch(&mut self, id: Id, now: i64) {
        let t = self.stamp(now);
        if let Some(i) = self.inodes.get_mut(&id) {
            i.mtime = t;
            i.ctime = t;
        }
    }

    /// A directory somebody is in can be gone.
    pub fn exists(&self, id: Id) -> bool {
        self.inodes.contains_key(&id)
    }

    pub fn node(&self, id: Id) -> &Inode {
        &self.inodes[&id]
    }

    /// Drop an inode that has neither names nor open handles.
    pub fn gc(&mut self, id: Id) {
        let gone = match self.inodes.get(&id) {
            Some(i) => i.nlink == 0 && i.opens == 0,
            None => false,
        };
        if gone {
            let i = self.inodes.remove(&id).unwrap();
            if self.ghosts.iter().all(|g| g.2.ino != i.ino || g.2.dev != i.dev) {
                self.inos.get_mut(&i.dev).unwrap().1.insert(i.ino);
            }
        }
    }

    /// Returns (parent directory, last name, target). Symlinks in the middle are always followed;
    /// the last one only if `follow`.
    pub fn resolve_at(&self, start: Id, path: &[u8], follow: bool) -> R<(Id, Vec<u8>, Option<Id>)> {
        let mut depth = 0;
        self.resolve_in(start, path, follow, &mut depth, &mut None)
    }

    /// Also reports the canonical absolute path.
    pub fn canon(&self, start: Id, path: &[u8]) -> R<(Id, Vec<u8>)> {
        let mut depth = 0;
        let (_, _, t) = self.resolve_in(start, path, true, &mut depth, &mut None)?;
        let id = t.ok_or(libc::ENOENT)?;
        Ok((id, self.path_of(id)))
    }

    pub fn path_of(&self, id: Id) -> Vec<u8> {
        // directories have one parent; search for it (trees are small)
        fn find(fs: &Fs, at: Id, want: Id, p: &mut Vec<u8>) -> bool {
            if at == want {
                return true;
            }
            if let Node::Dir(m) = &fs.inodes[&at].node {
                for (n, c) in m {
                    let l = p.len();
                    p.push(b'/');
                    p.extend_from_slice(n);
                    if find(fs, *c, want, p) {
                        return true;
                    }
                    p.truncate(l);
                }
            }
            false
        }
        let mut p = vec![];
        find(self, ROOT, id, &mut p);
        if p.is_empty() {
            p.push(b'/');
        }
        p
    }

    fn resolve_in(&self, start: Id, path: &[u8], follow: bool, depth: &mut u32, parents: &mut Option<()>) -> R<(Id, Vec<u8>, Option<Id>)> {
        let _ = &parents;
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() > 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut stack: Vec<Id>;
        if path[0] == b'/' {
            stack = vec![ROOT];
        } else {
            stack = self.chain(start);
        }
        let must_dir = path.ends_with(b"/") || path.ends_with(b"/.");
        let parts: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|p| !p.is_empty() && *p != b".").collect();
        if parts.is_empty() {
            let id = *stack.last().unwrap();
            let par = if stack.len() > 1 { stack[stack.len() - 2] } else { id };
            return Ok((par, b".".to_vec(), Some(id)));
        }
        for (i, part) in parts.iter().enumerate() {
            let last = i + 1 == parts.len();
            let cur = *stack.last().unwrap();
            let m = match &self.inodes.get(&cur).ok_or(libc::ENOENT)?.node {
                Node::Dir(m) => m,
                _ => return Err(libc::ENOTDIR),
            };
            if self.inodes[&cur].mode & 0o100 == 0 {
                return Err(libc::EACCES);
            }
            if part.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if *part == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                if last {
                    let id = *stack.last().unwrap();
                    let par = if stack.len() > 1 { stack[stack.len() - 2] } else { id };
                    return Ok((par, b"..".to_vec(), Some(id)));
                }
                continue;
            }
            let child = m.get(*part).copied();
            let child = match child {
                None => {
                    if last {
                        return Ok((cur, part.to_vec(), None));
                    }
                    return Err(libc::ENOENT);
                }
                Some(c) => c,
            };
            if let Node::Link(t) = &self.inodes[&child].node {
                if !last || follow || must_dir {
                    *depth += 1;
                    if *depth > 40 {
                        return Err(libc::ELOOP);
                    }
                    let (p, n, r) = self.resolve_in(cur, t, true, depth, parents)?;
                    match r {
                        None => {
                            if last {
                                return Ok((p, n, None));
                            }
                            return Err(libc::ENOENT);
                        }
                        Some(id) => {
                            if last {
                                if must_dir && !self.is_dir(id) {
                                    return Err(libc::ENOTDIR);
                                }
                                return Ok((p, n, Some(id)));
                            }
                            stack = self.chain(id);
                            continue;
                        }
                    }
                }
            }
            if last {
                if must_dir && !self.is_dir(child) {
                    return Err(libc::ENOTDIR);
                }
                return Ok((cur, part.to_vec(), Some(child)));
            }
            stack.push(child);
        }
        unreachable!()
    }

    fn chain(&self, id: Id) -> Vec<Id> {
        fn find(fs: &Fs, at: Id, want: Id, st: &mut Vec<Id>) -> bool {
            st.push(at);
            if at == want {
                return true;
            }
            if let Node::Dir(m) = &fs.inodes[&at].node {
                for c in m.values() {
                    if let Node::Dir(_) = fs.inodes[c].node {
                        if find(fs, *c, want, st) {
                            return true;
                        }
                    }
                }
            }
            st.pop();
            false
        }
        if id == ROOT {
            return vec![ROOT];
        }
        let mut st = vec![];
        if !find(self, ROOT, id, &mut st) {
            st = vec![id];
        }
        st
    }

    pub fn is_dir(&self, id: Id) -> bool {
        match self.inodes.get(&id) {
            Some(i) => matches!(i.node, Node::Dir(_)),
            None => false,
        }
    }

    pub fn lookup(&self, path: &[u8]) -> Option<Id> {
        self.resolve_at(ROOT, path, true).ok()?.2
    }

    fn dir_mut(&mut self, id: Id) -> R<&mut BTreeMap<Vec<u8>, Id>> {
        match &mut self.inodes.get_mut(&id).ok_or(libc::ENOENT)?.node {
            Node::Dir(m) => Ok(m),
            _ => Err(libc::ENOTDIR),
        }
    }

    pub fn dir(&self, id: Id) -> R<&BTreeMap<Vec<u8>, Id>> {
        match &self.inodes.get(&id).ok_or(libc::ENOENT)?.node {
            Node::Dir(m) => Ok(m),
            _ => Err(libc::ENOTDIR),
        }
    }

    fn writable_dir(&self, id: Id) -> R<()> {
        if self.node(id).mode & 0o200 == 0 {
            return Err(libc::EACCES);
        }
        Ok(())
    }

    fn dev_for(&self, parent: Id) -> u32 {
        self.mounts.get(&parent).copied().unwrap_or(self.node(parent).dev)
    }

    pub fn mknode(&mut self, parent: Id, name: &[u8], node: Node, mode: u32, now: i64) -> R<Id> {
        if name == b"." || name == b".." {
            return Err(libc::EEXIST);
        }
        self.dir(parent)?;
        self.writable_dir(parent)?;
        if self.dir(parent)?.contains_key(name) {
            return Err(libc::EEXIST);
        }
        let dev = self.dev_for(parent);
        let id = self.alloc(dev, node, mode, now);
        self.dir_mut(parent)?.insert(name.to_vec(), id);
        self.touch(parent, now);
        Ok(id)
    }

    pub fn create(&mut self, parent: Id, name: &[u8], mode: u32, now: i64) -> R<Id> {
        self.mknode(parent, name, Node::File(FileData { born: true, ..FileData::default() }), mode, now)
    }

    pub fn unlink(&mut self, parent: Id, name: &[u8], synced: bool, now: i64) -> R<()> {
        let id = *self.dir(parent)?.get(name).ok_or(libc::ENOENT)?;
        if self.is_dir(id) {
            return Err(libc::EISDIR);
        }
        self.writable_dir(parent)?;
        self.dir_mut(parent)?.remove(name);
        self.touch(parent, now);
        if !synced {
            let i = self.inodes[&id].clone();
            if let Node::File(f) = &i.node {
                if f.tracked && f.born {
                    self.ghosts.push((parent, name.to_vec(), i));
                }
            }
        }
        let i = self.inodes.get_mut(&id).unwrap();
        i.nlink -= 1;
        self.gc(id);
        Ok(())
    }

    pub fn rmdir(&mut self, parent: Id, name: &[u8], now: i64) -> R<()> {
        let id = *self.dir(parent)?.get(name).ok_or(libc::ENOENT)?;
        if !self.dir(id)?.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        self.writable_dir(parent)?;
        self.dir_mut(parent)?.remove(name);
        self.touch(parent, now);
        self.inodes.get_mut(&id).unwrap().nlink = 0;
        self.gc(id);
        Ok(())
    }

    pub fn rename(&mut self, p1: Id, n1: &[u8], p2: Id, n2: &[u8], now: i64) -> R<()> {
        let id = *self.dir(p1)?.get(n1).ok_or(libc::ENOENT)?;
        if n2 == b"." || n2 == b".." {
            return Err(libc::EBUSY);
        }
        self.writable_dir(p1)?;
        self.writable_dir(p2)?;
        if self.dev_for(p1) != self.dev_for(p2) {
            return Err(libc::EXDEV);
        }
        if let Some(old) = self.dir(p2)?.get(n2).copied() {
            if old == id {
                return Ok(());
            }
            match (self.is_dir(id), self.is_dir(old)) {
                (true, true) => {
                    if !self.dir(old)?.is_empty() {
                        return Err(libc::ENOTEMPTY);
                    }
                }
                (true, false) => return Err(libc::ENOTDIR),
                (false, true) => return Err(libc::EISDIR),
                _ => {}
            }
            self.dir_mut(p2)?.remove(n2);
            let i = self.inodes.get_mut(&old).unwrap();
            i.nlink = i.nlink.saturating_sub(1);
            if let Node::Dir(_) = i.node {
                i.nlink = 0;
            }
            self.gc(old);
        }
        if self.is_dir(id) && self.chain(p2).contains(&id) {
            return Err(libc::EINVAL);
        }
        self.dir_mut(p1)?.remove(n1);
        self.dir_mut(p2)?.insert(n2.to_vec(), id);
        self.touch(p1, now);
        self.touch(p2, now);
        let t = self.stamp(now);
        self.inodes.get_mut(&id).unwrap().ctime = t;
        Ok(())
    }

    pub fn link(&mut self, id: Id, parent: Id, name: &[u8], now: i64) -> R<()> {
        self.writable_dir(parent)?;
        if self.dir(parent)?.contains_key(name) {
            return Err(libc::EEXIST);
        }
        self.dir_mut(parent)?.insert(name.to_vec(), id);
        self.touch(parent, now);
        let t = self.stamp(now);
        let i = self.inodes.get_mut(&id).unwrap();
        i.nlink += 1;
        i.ctime = t;
        Ok(())
    }

    /// A file without a name (SQLite's temporary files).
    pub fn anon(&mut self, now: i64) -> Id {
        let id = self.alloc(1, Node::File(FileData::default()), 0o600, now);
        self.inodes.get_mut(&id).unwrap().nlink = 0;
        id
    }

    /// Names in the order the simulated file system lists them.
    pub fn list(&self, id: Id) -> R<Vec<(Vec<u8>, Id)>> {
        let m = self.dir(id)?;
        let mut v: Vec<_> = m.iter().map(|(n, i)| (n.clone(), *i)).collect();
        let salt = self.salt;
        if salt != 0 {
            v.sort_by_key(|(n, _)| {
                let mut h = mix(salt ^ id);
                for b in n {
                    h = mix(h ^ u64::from(*b));
                }
                h
            });
        }
        Ok(v)
    }

    pub fn file(&self, id: Id) -> R<&FileData> {
        match &self.inodes.get(&id).ok_or(libc::EBADF)?.node {
            Node::File(f) => Ok(f),
            Node::Dir(_) => Err(libc::EISDIR),
            _ => Err(libc::EINVAL),
        }
    }

    fn file_mut(&mut self, id: Id) -> R<&mut FileData> {
        match &mut self.inodes.get_mut(&id).ok_or(libc::EBADF)?.node {
            Node::File(f) => Ok(f),
            Node::Dir(_) => Err(libc::EISDIR),
            _ => Err(libc::EINVAL),
        }
    }

    pub fn track(&mut self, id: Id, fresh: bool) {
        if let Ok(f) = self.file_mut(id) {
            if !f.tracked {
                f.tracked = true;
                f.durable = f.data.clone();
                f.born = !fresh;
            }
        }
    }

    pub fn pread(&self, id: Id, off: u64, buf: &mut [u8]) -> R<usize> {
        let f = self.file(id)?;
        let len = f.data.len() as u64;
        if off >= len {
            return Ok(0);
        }
        let n = buf.len().min((len - off) as usize);
        buf[..n].copy_from_slice(&f.data[off as usize..off as usize + n]);
        Ok(n)
    }

    fn apply(v: &mut Vec<u8>, p: &Pend) {
        match p {
            Pend::Write(off, d) => {
                let end = *off as usize + d.len();
                if v.len() < end {
                    v.resize(end, 0);
                }
                v[*off as usize..end].copy_from_slice(d);
            }
            Pend::Trunc(n) => v.resize(*n as usize, 0),
        }
    }

    pub fn pwrite(&mut self, id: Id, off: u64, data: &[u8], now: i64) -> R<()> {
        self.modify(id, Pend::Write(off, data.to_vec()), now)
    }

    pub fn truncate(&mut self, id: Id, n: u64, now: i64) -> R<()> {
        self.modify(id, Pend::Trunc(n), now)
    }

    fn modify(&mut self, id: Id, p: Pend, now: i64) -> R<()> {
        let f = self.file_mut(id)?;
        Fs::apply(Arc::make_mut(&mut f.data), &p);
        if f.tracked {
            f.pending.push(p);
        }
        self.touch(id, now);
        Ok(())
    }

    pub fn sync(&mut self, id: Id) {
        if let Ok(f) = self.file_mut(id) {
            if f.tracked {
                f.durable = f.data.clone();
                f.pending.clear();
                f.born = true;
            }
        }
        // a journalling file system flushes earlier namespace operations with it
        self.ghosts.clear();
    }

    /// The kernel gets round to writing everything back.
    pub fn flush(&mut self) {
        let ids: Vec<Id> = self.inodes.iter().filter(|(_, i)| matches!(&i.node, Node::File(f) if f.tracked)).map(|(k, _)| *k).collect();
        for id in ids {
            self.sync(id);
        }
        self.ghosts.clear();
    }

    /// The machine loses power: un-synced changes of tracked files survive in part.
    /// `mode` 0: none survive, 1: all, 2: a prefix, 3: per-change coin, 4: per-512-byte-sector coin.
    pub fn power_loss(&mut self, seed: u64) -> u64 {
        let mut rng = Rng::new(seed);
        let mode = rng.below(5);
        let mut lost = 0u64;
        let ids: Vec<Id> = self.inodes.keys().copied().collect();
        let mut vanish = vec![];
        for id in ids {
            let fmode = if rng.chance(1, 4) { rng.below(5) } else { mode };
            let p_keep = 1 + rng.below(9);
            if let Ok(f) = self.file_mut(id) {
                if !f.tracked {
                    continue;
                }
                if !f.pending.is_empty() {
                    let pend = std::mem::take(&mut f.pending);
                    let mut v = (*f.durable).clone();
                    let cut = rng.below(pend.len() as u64 + 1) as usize;
                    for (i, p) in pend.iter().enumerate() {
                        let keep = match fmode {
                            0 => false,
                            1 => true,
                            2 => i < cut,
                            _ => rng.chance(p_keep, 10),
                        };
                        match (fmode, p) {
                            (4, Pend::Write(off, d)) => {
                                let mut pos = 0usize;
                                while pos < d.len() {
                                    let n = (512 - ((*off as usize + pos) % 512)).min(d.len() - pos);
                                    if rng.chance(p_keep, 10) {
                                        Fs::apply(&mut v, &Pend::Write(*off + pos as u64, d[pos..pos + n].to_vec()));
                                    } else {
                                        lost += 1;
                                    }
                                    pos += n;
                                }
                            }
                            _ => {
                                if keep {
                                    Fs::apply(&mut v, p);
                                } else {
                                    lost += 1;
                                }
                            }
                        }
                    }
                    f.data = Arc::new(v);
                    f.durable = f.data.clone();
                }
                if !f.born {
                    if (fmode == 0 || fmode >= 2) && rng.chance(1, 2) {
                        vanish.push(id);
                    } else {
                        f.born = true;
                    }
                }
            }
        }
        for id in vanish {
            let mut at = None;
            for (d, i) in &self.inodes {
                if let Node::Dir(m) = &i.node {
                    for (n, c) in m {
                        if *c == id {
                            at = Some((*d, n.clone()));
                        }
                    }
                }
            }
            if let Some((d, n)) = at {
                self.dir_mut(d).unwrap().remove(&n);
                self.inodes.get_mut(&id).unwrap().nlink = 0;
                self.gc(id);
                lost += 1;
            }
        }
        let ghosts = std::mem::take(&mut self.ghosts);
        for (d, n, mut ino) in ghosts {
            let back = rng.chance(1, 2);
            let free = match self.dir(d) {
                Ok(m) => !m.contains_key(&n),
                Err(_) => false,
            };
            if back && free && !self.inodes.values().any(|x| x.dev == ino.dev && x.ino == ino.ino) {
                self.inos.get_mut(&ino.dev).unwrap().1.remove(&ino.ino);
                ino.opens = 0;
                ino.nlink = 1;
                if let Node::File(f) = &mut ino.node {
                    f.data = f.durable.clone();
                    f.pending.clear();
                }
                let id = self.next_id;
                self.next_id += 1;
                self.inodes.insert(id, ino);
                self.dir_mut(d).unwrap().insert(n, id);
                lost += 1;
            } else {
                let live = self.inodes.values().any(|x| x.dev == ino.dev && x.ino == ino.ino);
                if !live {
                    self.inos.get_mut(&ino.dev).unwrap().1.insert(ino.ino);
                }
            }
        }
        lost
    }

    // ---- driver-side helpers (the user's hands) ----

    pub fn set_mtime(&mut self, id: Id, t: i64) {
        if let Some(i) = self.inodes.get_mut(&id) {
            i.mtime = t;
        }
    }

    pub fn chmod(&mut self, id: Id, mode: u32, now: i64) {
        let t = self.stamp(now);
        if let Some(i) = self.inodes.get_mut(&id) {
            i.mode = mode;
            i.ctime = t;
        }
    }

    /// The medium itself changes.
    pub fn set_raw(&mut self, id: Id, data: Vec<u8>) {
        if let Ok(f) = self.file_mut(id) {
            f.data = Arc::new(data);
            f.durable = f.data.clone();
            f.pending.clear();
        }
    }

    pub fn mkdirs(&mut self, path: &[u8], now: i64) -> R<Id> {
        let mut cur = ROOT;
        for part in path.split(|b| *b == b'/').filter(|p| !p.is_empty()) {
            let next = self.dir(cur)?.get(part).copied();
            cur = match next {
                Some(id) => {
                    if !self.is_dir(id) {
                        return Err(libc::ENOTDIR);
                    }
                    id
                }
                None => self.mknode(cur, part, Node::Dir(BTreeMap::new()), 0o755, now)?,
            };
        }
        Ok(cur)
    }

    /// Remove a file or a whole subtree.
    pub fn remove_all(&mut self, path: &[u8], now: i64) -> R<()> {
        let (p, n, t) = self.resolve_at(ROOT, path, false)?;
        let id = t.ok_or(libc::ENOENT)?;
        if self.is_dir(id) {
            let kids: Vec<Vec<u8>> = self.dir(id)?.keys().cloned().collect();
            for k in kids {
                let mut q = path.to_vec();
                q.push(b'/');
                q.extend_from_slice(&k);
                self.remove_all(&q, now)?;
            }
            self.rmdir(p, &n, now)
        } else {
            self.unlink(p, &n, false, now)
        }
    }

    pub fn put_file(&mut self, path: &[u8], data: Arc<Vec<u8>>, now: i64) -> R<Id> {
        let (p, n, t) = self.resolve_at(ROOT, path, true)?;
        let id = match t {
            Some(id) => {
                self.file(id)?;
                id
            }
            None => self.create(p, &n, 0o644, now)?,
        };
        self.truncate(id, 0, now)?;
        if let Ok(f) = self.file_mut(id) {
            if f.tracked {
                f.pending.push(Pend::Write(0, data.to_vec()));
            }
            f.data = data;
        }
        self.touch(id, now);
        Ok(id)
    }

    /// Content of a subtree; symlinks are followed as snapcd follows them (dangling ones omitted).
    pub fn tree(&self, id: Id, keep: &dyn Fn(&[u8], Id) -> bool) -> Tree {
        fn go(fs: &Fs, id: Id, path: &[u8], keep: &dyn Fn(&[u8], Id) -> bool, depth: u32) -> Option<Tree> {
            match &fs.inodes[&id].node {
                Node::File(f) => Some(Tree::File(f.data.clone())),
                Node::Link(_) => None,
                Node::Dir(m) => {
                    let mut out = BTreeMap::new();
                    for (n, c) in m {
                        let mut q = path.to_vec();
                        if !q.is_empty() {
                            q.push(b'/');
                        }
                        q.extend_from_slice(n);
                        let mut c = *c;
                        if let Node::Link(_) = fs.inodes[&c].node {
                            match fs.resolve_at(id, n, true) {
                                Ok((_, _, Some(t))) if depth < 8 => c = t,
                                _ => continue,
                            }
                        }
                        if keep(&q, c) {
                            if let Some(t) = go(fs, c, &q, keep, depth + 1) {
                                out.insert(n.clone(), t);
                            }
                        }
                    }
                    Some(Tree::Dir(out))
                }
            }
        }
        go(self, id, b"", keep, 0).unwrap_or_else(Tree::empty)
    }

    pub fn tree_at(&self, path: &[u8]) -> Option<Tree> {
        let id = self.lookup(path)?;
        Some(self.tree(id, &|_, _| true))
    }
}
