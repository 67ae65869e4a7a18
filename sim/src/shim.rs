//! The C library entry points through which Rust's std (and anything else linked into this binary)
//! reaches files, directories, the clock and the kernel's randomness. In a simulated process they act
//! on the simulated machine; everywhere else they are the real functions.
use crate::arena;
use crate::fs::*;
use crate::world::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t};
use std::ffi::CStr;

pub struct G;

static OWNER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl G {
    #[inline]
    pub fn enter() -> Option<G> {
        if !in_child() {
            return None;
        }
        use std::sync::atomic::Ordering::*;
        let t = unsafe { libc::pthread_self() } as usize;
        if OWNER.load(Relaxed) == t {
            return None; // the simulator's own call
        }
        while OWNER.compare_exchange(0, t, Acquire, Relaxed).is_err() {
            unsafe { libc::sched_yield() };
        }
        arena::set(true);
        Some(G)
    }
}

impl Drop for G {
    fn drop(&mut self) {
        arena::set(false);
        OWNER.store(0, std::sync::atomic::Ordering::Release);
    }
}

pub fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

macro_rules! real {
    ($name:ident, $ty:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!(stringify!($name), "\0").as_ptr() as *const c_char) as usize;
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}
pub(crate) use real;

macro_rules! shim {
    ($( fn $name:ident ( $($a:ident : $t:ty),* ) -> $r:ty = $body:expr; )*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            match G::enter() {
                None => real!($name, unsafe extern "C" fn($($t),*) -> $r)($($a),*),
                Some(_g) => {
                    let res: Result<$r, c_int> = $body;
                    match res {
                        Ok(v) => v,
                        Err(e) => { set_errno(e); Bad::bad() }
                    }
                }
            }
        }
    )* };
}

trait Bad {
    fn bad() -> Self;
}
impl Bad for c_int {
    fn bad() -> Self {
        -1
    }
}
impl Bad for ssize_t {
    fn bad() -> Self {
        -1
    }
}
impl Bad for i64 {
    fn bad() -> Self {
        -1
    }
}
impl<T> Bad for *mut T {
    fn bad() -> Self {
        std::ptr::null_mut()
    }
}

const AT_FDCWD: c_int = libc::AT_FDCWD;

unsafe fn bytes<'a>(p: *const c_char) -> Result<&'a [u8], c_int> {
    if p.is_null() {
        return Err(libc::EFAULT);
    }
    Ok(CStr::from_ptr(p).to_bytes())
}

fn gate(class: Class, scope: Scope, detail: &[u8]) -> Result<(), c_int> {
    match world().gate(class, scope, detail, 0) {
        Gate::Go => Ok(()),
        Gate::Fail(e) => Err(e),
        Gate::Torn(_) => unreachable!(),
    }
}

fn base(dirfd: c_int) -> Result<Id, c_int> {
    let w = world();
    if dirfd == AT_FDCWD {
        return Ok(w.procs[me()].cwd);
    }
    match file(dirfd)?.1 {
        Open::Dir { id } => Ok(id),
        _ => Err(libc::ENOTDIR),
    }
}

fn abs(at: c_int, path: &[u8]) -> Vec<u8> {
    if path.starts_with(b"/") {
        return path.to_vec();
    }
    let w = world();
    let mut p = match base(at) {
        Ok(id) => w.fs.path_of(id),
        Err(_) => b"?".to_vec(),
    };
    if !p.ends_with(b"/") {
        p.push(b'/');
    }
    p.extend_from_slice(path);
    p
}

/// Gate a call that names a path.
fn gate_path(class: Class, at: c_int, path: &[u8]) -> Result<(), c_int> {
    let a = abs(at, path);
    let s = world().scope_of(&a);
    gate(class, s, &a)
}

fn file(fd: c_int) -> Result<(usize, Open), c_int> {
    let w = world();
    let o = *w.procs[me()].fds.get(&fd).ok_or(libc::EBADF)?;
    Ok((o, w.ofds[&o].1.clone()))
}

fn scope_id(id: Id) -> Scope {
    let w = world();
    let p = w.fs.path_of(id);
    w.scope_of(&p)
}

fn gate_id(class: Class, id: Id) -> Result<(), c_int> {
    let w = world();
    let p = w.fs.path_of(id);
    let s = w.scope_of(&p);
    gate(class, s, &p)
}

fn do_open(at: c_int, path: &[u8], flags: c_int, mode: mode_t) -> Result<c_int, c_int> {
    gate_path(Class::Open, at, path)?;
    let w = world();
    let p = me();
    let b = base(at)?;
    let nofollow = flags & libc::O_NOFOLLOW != 0 || (flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0);
    let (par, name, target) = w.fs.resolve_at(b, path, !nofollow)?;
    let acc = flags & libc::O_ACCMODE;
    let (read, write) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
    let id = match target {
        Some(id) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            let mode_bits = w.fs.node(id).mode;
            match &w.fs.node(id).node {
                Node::Link(_) => return Err(libc::ELOOP),
                Node::Dir(_) => {
                    if write || flags & libc::O_CREAT != 0 {
                        return Err(libc::EISDIR);
                    }
                    if mode_bits & 0o400 == 0 {
                        return Err(libc::EACCES);
                    }
                    return Ok(w.new_fd(p, Open::Dir { id }));
                }
                Node::File(_) => {}
            }
            if flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if (read && mode_bits & 0o400 == 0) || (write && mode_bits & 0o200 == 0) {
                return Err(libc::EACCES);
            }
            if flags & libc::O_TRUNC != 0 && write {
                let now = w.clock;
                w.fs.truncate(id, 0, now)?;
            }
            id
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return Err(libc::ENOENT);
            }
            if path.ends_with(b"/") {
                return Err(libc::EISDIR);
            }
            let now = w.clock;
            let m = mode as u32 & !w.procs[p].umask;
            w.fs.create(par, &name, m, now)?
        }
    };
    Ok(w.new_fd(p, Open::File { id, off: 0, append: flags & libc::O_APPEND != 0, read, write }))
}

fn shorten(scope: Scope, n: usize) -> Result<usize, c_int> {
    let w = world();
    let p = me();
    if scope != Scope::Tree || n == 0 {
        return Ok(n);
    }
    let mut fired = false;
    let mut r = Ok(n);
    if let Some((rng, pct)) = &mut w.procs[p].short {
        if rng.chance(u64::from(*pct), 100) {
            fired = true;
            r = match rng.below(4) {
                0 => Err(libc::EINTR),
                1 => Ok(1),
                2 => Ok(1 + rng.below(n as u64) as usize),
                _ => Ok(1 + rng.below(n.min(64) as u64) as usize),
            };
        }
    }
    if fired {
        w.fire_named("short_or_interrupted_io");
    }
    r
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> Result<ssize_t, c_int> {
    if fd == 0 {
        return Ok(0);
    }
    let (_, open) = file(fd)?;
    let (id, off) = match open {
        Open::Dir { .. } => return Err(libc::EISDIR),
        Open::File { id, off, read, .. } => {
            if !read {
                return Err(libc::EBADF);
            }
            (id, off)
        }
    };
    gate_id(Class::Read, id)?;
    let n = shorten(scope_id(id), n)?;
    let w = world();
    let pos = at.unwrap_or(off);
    let got = w.fs.pread(id, pos, std::slice::from_raw_parts_mut(buf, n))?;
    if at.is_none() {
        let (o, _) = file(fd)?;
        if let Open::File { off, .. } = &mut w.ofds.get_mut(&o).unwrap().1 {
            *off += got as u64;
        }
    }
    Ok(got as ssize_t)
}

fn do_write(fd: c_int, data: &[u8], at: Option<u64>) -> Result<ssize_t, c_int> {
    let w = world();
    let p = me();
    if fd == 1 || fd == 2 {
        if fd == 1 {
            let lim = w.procs[p].faults.iter().find_map(|f| match f {
                Fault::Stdout { after, errno } => Some((*after, *errno)),
                _ => None,
            });
            if let Some((after, errno)) = lim {
                let have = w.procs[p].out.len() as u64;
                if have + data.len() as u64 > after {
                    let n = (after - have.min(after)) as usize;
                    if n == 0 {
                        w.fire_named("stdout_error");
                        return Err(errno);
                    }
                    w.procs[p].out.extend_from_slice(&data[..n]);
                    return Ok(n as ssize_t);
                }
            }
            w.procs[p].out.extend_from_slice(data);
            let d = &data[..data.len().min(80)];
            w.note(p, "stdout", d, data.len() as u64);
        } else {
            w.procs[p].err.extend_from_slice(data);
            let d = &data[..data.len().min(300)];
            w.note(p, "stderr", d, data.len() as u64);
        }
        return Ok(data.len() as ssize_t);
    }
    let (o, open) = file(fd)?;
    let (id, off, append) = match open {
        Open::Dir { .. } => return Err(libc::EBADF),
        Open::File { id, off, write, append, .. } => {
            if !write {
                return Err(libc::EBADF);
            }
            (id, off, append)
        }
    };
    let path = w.fs.path_of(id);
    let scope = w.scope_of(&path);
    let g = w.gate(Class::Write, scope, &path, data.len() as u64);
    let w = world();
    let size = w.fs.file(id)?.data.len() as u64;
    let pos = at.unwrap_or(if append { size } else { off });
    let mut data = data;
    let torn = match g {
        Gate::Go => false,
        Gate::Fail(e) => return Err(e),
        Gate::Torn(n) => {
            data = &data[..(n as usize).min(data.len())];
            true
        }
    };
    let mut n = data.len();
    if !torn {
        n = shorten(scope, n)?;
    }
    let end = pos + n as u64;
    if end > size {
        let room = world().room();
        if end - size > room {
            world().fire_named("disk_full");
            let fit = (size + room).saturating_sub(pos) as usize;
            if fit == 0 {
                return Err(libc::ENOSPC);
            }
            n = n.min(fit);
        }
    }
    let w = world();
    let now = w.clock;
    w.fs.pwrite(id, pos, &data[..n], now)?;
    if torn {
        w.die_torn();
    }
    if at.is_none() {
        if let Open::File { off, .. } = &mut w.ofds.get_mut(&o).unwrap().1 {
            *off = pos + n as u64;
        }
    }
    Ok(n as ssize_t)
}

fn target(at: c_int, path: &[u8], follow: bool) -> Result<Id, c_int> {
    let w = world();
    let b = base(at)?;
    w.fs.resolve_at(b, path, follow)?.2.ok_or(libc::ENOENT)
}

fn kind_bits(n: &Node) -> u32 {
    match n {
        Node::File(_) => libc::S_IFREG,
        Node::Dir(_) => libc::S_IFDIR,
        Node::Link(_) => libc::S_IFLNK,
    }
}

fn size_of_node(n: &Node) -> u64 {
    match n {
        Node::File(f) => f.data.len() as u64,
        Node::Dir(_) => 4096,
        Node::Link(t) => t.len() as u64,
    }
}

unsafe fn fill_stat(id: Id, st: *mut libc::stat64) {
    let i = world().fs.node(id);
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    let s = &mut *st;
    s.st_dev = u64::from(i.dev);
    s.st_ino = i.ino;
    s.st_nlink = u64::from(i.nlink);
    s.st_mode = kind_bits(&i.node) | i.mode;
    s.st_uid = 1000;
    s.st_gid = 1000;
    s.st_size = size_of_node(&i.node) as i64;
    s.st_blksize = 4096;
    s.st_blocks = (s.st_size + 511) / 512;
    s.st_mtime = i.mtime.div_euclid(1_000_000_000);
    s.st_mtime_nsec = i.mtime.rem_euclid(1_000_000_000);
    s.st_ctime = i.ctime.div_euclid(1_000_000_000);
    s.st_ctime_nsec = i.ctime.rem_euclid(1_000_000_000);
    s.st_atime = s.st_mtime;
    s.st_atime_nsec = s.st_mtime_nsec;
}

unsafe fn do_stat(at: c_int, path: &[u8], flags: c_int, st: *mut libc::stat64) -> Result<c_int, c_int> {
    if path.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
        return do_fstat(at, st);
    }
    gate_path(Class::Stat, at, path)?;
    let id = target(at, path, flags & libc::AT_SYMLINK_NOFOLLOW == 0)?;
    fill_stat(id, st);
    Ok(0)
}

unsafe fn do_fstat(fd: c_int, st: *mut libc::stat64) -> Result<c_int, c_int> {
    if (0..3).contains(&fd) {
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*st).st_mode = libc::S_IFIFO | 0o600;
        return Ok(0);
    }
    let id = match file(fd)?.1 {
        Open::File { id, .. } | Open::Dir { id } => id,
    };
    gate_id(Class::Stat, id)?;
    fill_stat(id, st);
    Ok(0)
}

unsafe fn do_statx(at: c_int, path: *const c_char, flags: c_int, buf: *mut libc::statx) -> Result<c_int, c_int> {
    if path.is_null() || buf.is_null() {
        return Err(libc::EFAULT);
    }
    let mut st: libc::stat64 = std::mem::zeroed();
    let p = bytes(path)?;
    do_stat(at, p, flags, &mut st)?;
    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
    let b = &mut *buf;
    b.stx_mask = libc::STATX_BASIC_STATS;
    b.stx_blksize = 4096;
    b.stx_nlink = st.st_nlink as u32;
    b.stx_uid = st.st_uid;
    b.stx_gid = st.st_gid;
    b.stx_mode = st.st_mode as u16;
    b.stx_ino = st.st_ino;
    b.stx_size = st.st_size as u64;
    b.stx_blocks = st.st_blocks as u64;
    b.stx_dev_major = 0;
    b.stx_dev_minor = st.st_dev as u32;
    b.stx_mtime.tv_sec = st.st_mtime;
    b.stx_mtime.tv_nsec = st.st_mtime_nsec as u32;
    b.stx_ctime.tv_sec = st.st_ctime;
    b.stx_ctime.tv_nsec = st.st_ctime_nsec as u32;
    b.stx_atime = b.stx_mtime;
    Ok(0)
}

fn do_mkdir(at: c_int, path: &[u8], mode: mode_t) -> Result<c_int, c_int> {
    gate_path(Class::Mkdir, at, path)?;
    let w = world();
    let b = base(at)?;
    let (par, name, t) = w.fs.resolve_at(b, path, false)?;
    if t.is_some() {
        return Err(libc::EEXIST);
    }
    let now = w.clock;
    let m = mode as u32 & !w.procs[me()].umask;
    w.fs.mknode(par, &name, Node::Dir(Default::default()), m, now)?;
    Ok(0)
}

fn do_unlink(at: c_int, path: &[u8], flags: c_int) -> Result<c_int, c_int> {
    gate_path(Class::Unlink, at, path)?;
    let w = world();
    let b = base(at)?;
    let (par, name, t) = w.fs.resolve_at(b, path, false)?;
    let id = t.ok_or(libc::ENOENT)?;
    let now = w.clock;
    if flags & libc::AT_REMOVEDIR != 0 {
        if !w.fs.is_dir(id) {
            return Err(libc::ENOTDIR);
        }
        if name == b"." || name == b".." {
            return Err(libc::EINVAL);
        }
        w.fs.rmdir(par, &name, now)?;
    } else {
        w.fs.unlink(par, &name, false, now)?;
    }
    Ok(0)
}

fn do_rename(a1: c_int, p1: &[u8], a2: c_int, p2: &[u8], flags: c_uint) -> Result<c_int, c_int> {
    gate_path(Class::Rename, a2, p2)?;
    let w = world();
    let (b1, b2) = (base(a1)?, base(a2)?);
    let (d1, n1, t1) = w.fs.resolve_at(b1, p1, false)?;
    t1.ok_or(libc::ENOENT)?;
    let (d2, n2, t2) = w.fs.resolve_at(b2, p2, false)?;
    if flags & 1 != 0 && t2.is_some() {
        return Err(libc::EEXIST);
    }
    let now = w.clock;
    w.fs.rename(d1, &n1, d2, &n2, now)?;
    Ok(0)
}

fn do_link(a1: c_int, p1: &[u8], a2: c_int, p2: &[u8], flags: c_int) -> Result<c_int, c_int> {
    gate_path(Class::Rename, a2, p2)?;
    let w = world();
    let id = target(a1, p1, flags & libc::AT_SYMLINK_FOLLOW != 0)?;
    if w.fs.is_dir(id) {
        return Err(libc::EPERM);
    }
    let b2 = base(a2)?;
    let (d2, n2, t2) = w.fs.resolve_at(b2, p2, false)?;
    if t2.is_some() {
        return Err(libc::EEXIST);
    }
    let now = w.clock;
    w.fs.link(id, d2, &n2, now)?;
    Ok(0)
}

fn do_symlink(t: &[u8], at: c_int, path: &[u8]) -> Result<c_int, c_int> {
    gate_path(Class::Mkdir, at, path)?;
    let w = world();
    let b = base(at)?;
    let (par, name, e) = w.fs.resolve_at(b, path, false)?;
    if e.is_some() {
        return Err(libc::EEXIST);
    }
    let now = w.clock;
    w.fs.mknode(par, &name, Node::Link(t.to_vec()), 0o777, now)?;
    Ok(0)
}

unsafe fn do_readlink(at: c_int, path: &[u8], buf: *mut c_char, n: size_t) -> Result<ssize_t, c_int> {
    gate_path(Class::Path, at, path)?;
    let w = world();
    let id = target(at, path, false)?;
    match &w.fs.node(id).node {
        Node::Link(t) => {
            let k = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
            Ok(k as ssize_t)
        }
        _ => Err(libc::EINVAL),
    }
}

fn do_trunc(id: Id, n: i64) -> Result<c_int, c_int> {
    gate_id(Class::Trunc, id)?;
    if n < 0 {
        return Err(libc::EINVAL);
    }
    let w = world();
    let size = w.fs.file(id)?.data.len() as u64;
    if n as u64 > size && n as u64 - size > w.room() {
        w.fire_named("disk_full");
        return Err(libc::ENOSPC);
    }
    let now = w.clock;
    w.fs.truncate(id, n as u64, now)?;
    Ok(0)
}

fn fd_id(fd: c_int) -> Result<Id, c_int> {
    Ok(match file(fd)?.1 {
        Open::File { id, .. } | Open::Dir { id } => id,
    })
}

fn do_chmod(id: Id, mode: mode_t) -> Result<c_int, c_int> {
    gate_id(Class::Other, id)?;
    let w = world();
    let now = w.clock;
    let i = w.fs.inodes.get_mut(&id).unwrap();
    i.mode = mode as u32 & 0o7777;
    i.ctime = now;
    Ok(0)
}

unsafe fn do_utimens(id: Id, ts: *const libc::timespec) -> Result<c_int, c_int> {
    gate_id(Class::Other, id)?;
    let w = world();
    let now = w.clock;
    let mut m = now;
    if !ts.is_null() {
        let t = &*ts.add(1);
        if t.tv_nsec == libc::UTIME_OMIT {
            return Ok(0);
        }
        if t.tv_nsec != libc::UTIME_NOW {
            m = t.tv_sec * 1_000_000_000 + t.tv_nsec;
        }
    }
    let i = w.fs.inodes.get_mut(&id).unwrap();
    i.mtime = m;
    i.ctime = now;
    Ok(0)
}

fn do_sync(fd: c_int) -> Result<c_int, c_int> {
    let id = fd_id(fd)?;
    gate_id(Class::Sync, id)?;
    world().fs.sync(id);
    Ok(0)
}

fn do_seek(fd: c_int, n: i64, whence: c_int) -> Result<i64, c_int> {
    let (o, open) = file(fd)?;
    let w = world();
    match open {
        Open::Dir { .. } => Ok(0),
        Open::File { id, off, .. } => {
            let size = w.fs.file(id)?.data.len() as i64;
            let p = match whence {
                libc::SEEK_SET => n,
                libc::SEEK_CUR => off as i64 + n,
                libc::SEEK_END => size + n,
                libc::SEEK_DATA => n,
                libc::SEEK_HOLE => size,
                _ => return Err(libc::EINVAL),
            };
            if p < 0 {
                return Err(libc::EINVAL);
            }
            if let Open::File { off, .. } = &mut w.ofds.get_mut(&o).unwrap().1 {
                *off = p as u64;
            }
            Ok(p)
        }
    }
}

// ---- directory streams ----

const DIR_MAGIC: u64 = 0x5344_4952_5344_4952;

#[repr(C)]
struct SimDir {
    magic: u64,
    fd: c_int,
    pos: usize,
    entries: Vec<(Vec<u8>, u64, u8)>,
    ent: libc::dirent64,
}

fn make_dir(fd: c_int) -> Result<*mut c_void, c_int> {
    let w = world();
    let id = match file(fd)?.1 {
        Open::Dir { id } => id,
        _ => return Err(libc::ENOTDIR),
    };
    let i = w.fs.node(id).ino;
    let mut entries = vec![(b".".to_vec(), i, libc::DT_DIR), (b"..".to_vec(), i, libc::DT_DIR)];
    for (n, c) in w.fs.list(id)? {
        let node = w.fs.node(c);
        let t = match node.node {
            Node::File(_) => libc::DT_REG,
            Node::Dir(_) => libc::DT_DIR,
            Node::Link(_) => libc::DT_LNK,
        };
        entries.push((n, node.ino, t));
    }
    let d = SimDir { magic: DIR_MAGIC, fd, pos: 0, entries, ent: unsafe { std::mem::zeroed() } };
    Ok(Box::into_raw(Box::new(d)) as *mut c_void)
}

unsafe fn sim_dir<'a>(d: *mut c_void) -> Result<&'a mut SimDir, c_int> {
    let s = d as *mut SimDir;
    if s.is_null() || (*s).magic != DIR_MAGIC {
        return Err(libc::EBADF);
    }
    Ok(&mut *s)
}

unsafe fn next_entry(d: *mut c_void) -> Result<*mut libc::dirent64, c_int> {
    let s = sim_dir(d)?;
    if s.pos % 8 == 2 || s.pos >= s.entries.len() {
        let id = fd_id(s.fd)?;
        gate_id(Class::List, id)?;
    }
    if s.pos >= s.entries.len() {
        return Err(0);
    }
    let (n, ino, t) = &s.entries[s.pos];
    s.ent.d_ino = *ino;
    s.ent.d_off = s.pos as i64 + 1;
    s.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    s.ent.d_type = *t;
    for (i, b) in n.iter().enumerate() {
        s.ent.d_name[i] = *b as c_char;
    }
    s.ent.d_name[n.len()] = 0;
    s.pos += 1;
    Ok(&mut s.ent)
}

unsafe fn iov<'a>(p: *const libc::iovec, n: c_int) -> &'a [libc::iovec] {
    std::slice::from_raw_parts(p, n.max(0) as usize)
}

fn now_spec(clock: libc::clockid_t) -> (i64, i64) {
    let w = world();
    let t = match clock {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => w.clock,
        _ => w.clock - 1_590_000_000_000_000_000,
    };
    (t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000))
}

fn real_fd(fd: c_int) -> bool {
    !(0..3).contains(&fd) && fd < FD_BASE && fd != AT_FDCWD
}

macro_rules! fdcall {
    ($fd:expr, $e:expr) => {
        if real_fd($fd) {
            Err(libc::EBADF)
        } else {
            $e
        }
    };
}

shim! {
    fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int = bytes(path).and_then(|p| do_open(AT_FDCWD, p, flags, mode));
    fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int = bytes(path).and_then(|p| do_open(AT_FDCWD, p, flags, mode));
    fn openat(at: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int = bytes(path).and_then(|p| do_open(at, p, flags, mode));
    fn openat64(at: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int = bytes(path).and_then(|p| do_open(at, p, flags, mode));
    fn creat(path: *const c_char, mode: mode_t) -> c_int = bytes(path).and_then(|p| do_open(AT_FDCWD, p, libc::O_CREAT|libc::O_WRONLY|libc::O_TRUNC, mode));
    fn creat64(path: *const c_char, mode: mode_t) -> c_int = bytes(path).and_then(|p| do_open(AT_FDCWD, p, libc::O_CREAT|libc::O_WRONLY|libc::O_TRUNC, mode));
    fn close(fd: c_int) -> c_int = if (0..3).contains(&fd) || world().close_fd(me(), fd) { Ok(0) } else { Err(libc::EBADF) };
    fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t = fdcall!(fd, do_read(fd, buf as *mut u8, n, None));
    fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t = fdcall!(fd, do_read(fd, buf as *mut u8, n, Some(off as u64)));
    fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t = fdcall!(fd, do_read(fd, buf as *mut u8, n, Some(off as u64)));
    fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t = match iov(v, n).iter().find(|x| x.iov_len > 0) {
        Some(x) => do_read(fd, x.iov_base as *mut u8, x.iov_len, None),
        None => Ok(0),
    };
    fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t = fdcall!(fd, do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), None));
    fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t = fdcall!(fd, do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as u64)));
    fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t = fdcall!(fd, do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as u64)));
    fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t = if fd == 1 || fd == 2 {
        let mut all = vec![];
        for x in iov(v, n) {
            all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        do_write(fd, &all, None)
    } else {
        match iov(v, n).iter().find(|x| x.iov_len > 0) {
            Some(x) => do_write(fd, std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len), None),
            None => Ok(0),
        }
    };
    fn lseek(fd: c_int, n: off_t, whence: c_int) -> off_t = do_seek(fd, n, whence).map(|x| x as off_t);
    fn lseek64(fd: c_int, n: off_t, whence: c_int) -> off_t = do_seek(fd, n, whence).map(|x| x as off_t);
    fn ftruncate(fd: c_int, n: off_t) -> c_int = fd_id(fd).and_then(|id| do_trunc(id, n));
    fn ftruncate64(fd: c_int, n: off_t) -> c_int = fd_id(fd).and_then(|id| do_trunc(id, n));
    fn truncate(path: *const c_char, n: off_t) -> c_int = bytes(path).and_then(|p| target(AT_FDCWD, p, true)).and_then(|id| do_trunc(id, n));
    fn truncate64(path: *const c_char, n: off_t) -> c_int = bytes(path).and_then(|p| target(AT_FDCWD, p, true)).and_then(|id| do_trunc(id, n));
    fn fallocate(fd: c_int, _mode: c_int, _o: off_t, _n: off_t) -> c_int = { let _ = fd; Err(libc::EOPNOTSUPP) };
    fn fallocate64(fd: c_int, _mode: c_int, _o: off_t, _n: off_t) -> c_int = { let _ = fd; Err(libc::EOPNOTSUPP) };
    fn posix_fadvise(_fd: c_int, _o: off_t, _n: off_t, _a: c_int) -> c_int = Ok(0);
    fn posix_fadvise64(_fd: c_int, _o: off_t, _n: off_t, _a: c_int) -> c_int = Ok(0);
    fn fsync(fd: c_int) -> c_int = do_sync(fd);
    fn fdatasync(fd: c_int) -> c_int = do_sync(fd);
    fn syncfs(fd: c_int) -> c_int = do_sync(fd);
    fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int = bytes(path).and_then(|p| do_stat(AT_FDCWD, p, 0, st));
    fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int = bytes(path).and_then(|p| do_stat(AT_FDCWD, p, 0, st));
    fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int = bytes(path).and_then(|p| do_stat(AT_FDCWD, p, libc::AT_SYMLINK_NOFOLLOW, st));
    fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int = bytes(path).and_then(|p| do_stat(AT_FDCWD, p, libc::AT_SYMLINK_NOFOLLOW, st));
    fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int = do_fstat(fd, st);
    fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int = do_fstat(fd, st);
    fn fstatat(at: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int = bytes(path).and_then(|p| do_stat(at, p, flags, st));
    fn fstatat64(at: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int = bytes(path).and_then(|p| do_stat(at, p, flags, st));
    fn statx(at: c_int, path: *const c_char, flags: c_int, _mask: c_uint, buf: *mut libc::statx) -> c_int = do_statx(at, path, flags, buf);
    fn access(path: *const c_char, _m: c_int) -> c_int = bytes(path).and_then(|p| { gate_path(Class::Stat, AT_FDCWD, p)?; target(AT_FDCWD, p, true)?; Ok(0) });
    fn faccessat(at: c_int, path: *const c_char, _m: c_int, _f: c_int) -> c_int = bytes(path).and_then(|p| { gate_path(Class::Stat, at, p)?; target(at, p, true)?; Ok(0) });
    fn mkdir(path: *const c_char, mode: mode_t) -> c_int = bytes(path).and_then(|p| do_mkdir(AT_FDCWD, p, mode));
    fn mkdirat(at: c_int, path: *const c_char, mode: mode_t) -> c_int = bytes(path).and_then(|p| do_mkdir(at, p, mode));
    fn rmdir(path: *const c_char) -> c_int = bytes(path).and_then(|p| do_unlink(AT_FDCWD, p, libc::AT_REMOVEDIR));
    fn unlink(path: *const c_char) -> c_int = bytes(path).and_then(|p| do_unlink(AT_FDCWD, p, 0));
    fn remove(path: *const c_char) -> c_int = bytes(path).and_then(|p| {
        let d = target(AT_FDCWD, p, false).map(|i| world().fs.is_dir(i))?;
        do_unlink(AT_FDCWD, p, if d { libc::AT_REMOVEDIR } else { 0 })
    });
    fn unlinkat(at: c_int, path: *const c_char, flags: c_int) -> c_int = bytes(path).and_then(|p| do_unlink(at, p, flags));
    fn rename(a: *const c_char, b: *const c_char) -> c_int = bytes(a).and_then(|a| do_rename(AT_FDCWD, a, AT_FDCWD, bytes(b)?, 0));
    fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int = bytes(a).and_then(|a| do_rename(d1, a, d2, bytes(b)?, 0));
    fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_uint) -> c_int = bytes(a).and_then(|a| do_rename(d1, a, d2, bytes(b)?, f));
    fn link(a: *const c_char, b: *const c_char) -> c_int = bytes(a).and_then(|a| do_link(AT_FDCWD, a, AT_FDCWD, bytes(b)?, 0));
    fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int = bytes(a).and_then(|a| do_link(d1, a, d2, bytes(b)?, f));
    fn symlink(t: *const c_char, p: *const c_char) -> c_int = bytes(t).and_then(|t| do_symlink(t, AT_FDCWD, bytes(p)?));
    fn symlinkat(t: *const c_char, at: c_int, p: *const c_char) -> c_int = bytes(t).and_then(|t| do_symlink(t, at, bytes(p)?));
    fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t = bytes(p).and_then(|p| do_readlink(AT_FDCWD, p, buf, n));
    fn readlinkat(at: c_int, p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t = bytes(p).and_then(|p| do_readlink(at, p, buf, n));
    fn chmod(p: *const c_char, m: mode_t) -> c_int = bytes(p).and_then(|p| target(AT_FDCWD, p, true)).and_then(|id| do_chmod(id, m));
    fn fchmod(fd: c_int, m: mode_t) -> c_int = fd_id(fd).and_then(|id| do_chmod(id, m));
    fn fchmodat(at: c_int, p: *const c_char, m: mode_t, _f: c_int) -> c_int = bytes(p).and_then(|p| target(at, p, true)).and_then(|id| do_chmod(id, m));
    fn chown(_p: *const c_char, _u: c_uint, _g: c_uint) -> c_int = Ok(0);
    fn lchown(_p: *const c_char, _u: c_uint, _g: c_uint) -> c_int = Ok(0);
    fn fchown(_p: c_int, _u: c_uint, _g: c_uint) -> c_int = Ok(0);
    fn utimensat(at: c_int, p: *const c_char, ts: *const libc::timespec, f: c_int) -> c_int = bytes(p).and_then(|p| target(at, p, f & libc::AT_SYMLINK_NOFOLLOW == 0)).and_then(|id| do_utimens(id, ts));
    fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int = fd_id(fd).and_then(|id| do_utimens(id, ts));
    fn opendir(path: *const c_char) -> *mut c_void = bytes(path).and_then(|p| do_open(AT_FDCWD, p, libc::O_RDONLY | libc::O_DIRECTORY, 0)).and_then(make_dir);
    fn fdopendir(fd: c_int) -> *mut c_void = make_dir(fd);
    fn readdir64(d: *mut c_void) -> *mut libc::dirent64 = next_entry(d);
    fn readdir(d: *mut c_void) -> *mut libc::dirent64 = next_entry(d);
    fn closedir(d: *mut c_void) -> c_int = sim_dir(d).map(|s| { world().close_fd(me(), s.fd); s.magic = 0; drop(Box::from_raw(s as *mut SimDir)); 0 });
    fn dirfd(d: *mut c_void) -> c_int = sim_dir(d).map(|s| s.fd);
    fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char = {
        let w = world();
        let p = w.fs.path_of(w.procs[me()].cwd);
        if buf.is_null() {
            let b = libc::malloc(p.len() + 1) as *mut c_char;
            std::ptr::copy_nonoverlapping(p.as_ptr(), b as *mut u8, p.len());
            *b.add(p.len()) = 0;
            Ok(b)
        } else if n < p.len() + 1 {
            Err(libc::ERANGE)
        } else {
            std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
            *buf.add(p.len()) = 0;
            Ok(buf)
        }
    };
    fn chdir(p: *const c_char) -> c_int = bytes(p).and_then(|p| target(AT_FDCWD, p, true)).and_then(|id| if world().fs.is_dir(id) { world().procs[me()].cwd = id; Ok(0) } else { Err(libc::ENOTDIR) });
    fn fchdir(fd: c_int) -> c_int = base(fd).map(|id| { world().procs[me()].cwd = id; 0 });
    fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char = bytes(path).and_then(|p| {
        gate_path(Class::Path, AT_FDCWD, p)?;
        let w = world();
        let (_, c) = w.fs.canon(w.procs[me()].cwd, p)?;
        let b = if out.is_null() { libc::malloc(c.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(c.as_ptr(), b as *mut u8, c.len());
        *b.add(c.len()) = 0;
        Ok(b)
    });
    fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int = do_fcntl(fd, cmd, arg);
    fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int = do_fcntl(fd, cmd, arg);
    fn dup(fd: c_int) -> c_int = do_fcntl(fd, libc::F_DUPFD, 0);
    fn ioctl(_fd: c_int, _req: usize, _arg: usize) -> c_int = Err(libc::ENOTTY);
    fn isatty(_fd: c_int) -> c_int = { set_errno(libc::ENOTTY); Ok(0) };
    fn flock(_fd: c_int, _op: c_int) -> c_int = Ok(0);
    fn copy_file_range(_a: c_int, _b: *mut c_void, _c: c_int, _d: *mut c_void, _n: size_t, _f: c_uint) -> ssize_t = Err(libc::EXDEV);
    fn sendfile(_a: c_int, _b: c_int, _c: *mut c_void, _n: size_t) -> ssize_t = Err(libc::EINVAL);
    fn sendfile64(_a: c_int, _b: c_int, _c: *mut c_void, _n: size_t) -> ssize_t = Err(libc::EINVAL);
    fn splice(_a: c_int, _b: *mut c_void, _c: c_int, _d: *mut c_void, _n: size_t, _f: c_uint) -> ssize_t = Err(libc::EINVAL);
    fn clock_gettime(c: libc::clockid_t, ts: *mut libc::timespec) -> c_int = { let (s, n) = now_spec(c); (*ts).tv_sec = s; (*ts).tv_nsec = n; world().clock += 1; Ok(0) };
    fn gettimeofday(tv: *mut libc::timeval, _z: *mut c_void) -> c_int = { let (s, n) = now_spec(libc::CLOCK_REALTIME); (*tv).tv_sec = s; (*tv).tv_usec = n / 1000; Ok(0) };
    fn nanosleep(ts: *const libc::timespec, _r: *mut libc::timespec) -> c_int = { world().sleep((*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec); Ok(0) };
    fn clock_nanosleep(_c: libc::clockid_t, _f: c_int, ts: *const libc::timespec, _r: *mut libc::timespec) -> c_int = { world().sleep((*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec); Ok(0) };
    fn usleep(us: c_uint) -> c_int = { world().sleep(i64::from(us) * 1000); Ok(0) };
    fn getrandom(buf: *mut c_void, n: size_t, _f: c_uint) -> ssize_t = {
        let v = world().random(n);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, n);
        Ok(n as ssize_t)
    };
    fn getentropy(buf: *mut c_void, n: size_t) -> c_int = {
        let v = world().random(n);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, n);
        Ok(0)
    };
}

fn do_fcntl(fd: c_int, cmd: c_int, _arg: usize) -> Result<c_int, c_int> {
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let (o, _) = file(fd)?;
            let w = world();
            w.ofds.get_mut(&o).unwrap().0 += 1;
            Ok(w.bind_fd(me(), o))
        }
        libc::F_GETFD => {
            if !(0..3).contains(&fd) {
                file(fd)?;
            }
            Ok(libc::FD_CLOEXEC)
        }
        libc::F_GETFL => match file(fd)?.1 {
            Open::File { read: true, write: true, .. } => Ok(libc::O_RDWR),
            Open::File { write: true, .. } => Ok(libc::O_WRONLY),
            _ => Ok(libc::O_RDONLY),
        },
        _ => Ok(0),
    }
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    match G::enter() {
        None => real!(time, unsafe extern "C" fn(*mut libc::time_t) -> libc::time_t)(t),
        Some(_g) => {
            let (s, _) = now_spec(libc::CLOCK_REALTIME);
            if !t.is_null() {
                *t = s;
            }
            s
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if in_child() {
        exit_now(code & 0xff);
    }
    real!(exit, unsafe extern "C" fn(c_int) -> !)(code)
}

#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if in_child() {
        exit_now(code & 0xff);
    }
    real!(_exit, unsafe extern "C" fn(c_int) -> !)(code)
}

/// std reaches a few kernel calls this way when the C library lacks (or may lack) a wrapper.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if in_child() {
        match n {
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b, c as c_uint) as c_long,
            libc::SYS_statx => return c_long::from(statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx)),
            libc::SYS_copy_file_range => {
                set_errno(libc::EXDEV);
                return -1;
            }
            _ => {}
        }
    }
    real!(syscall, unsafe extern "C" fn(c_long, usize, usize, usize, usize, usize, usize) -> c_long)(n, a, b, c, d, e, f)
}
