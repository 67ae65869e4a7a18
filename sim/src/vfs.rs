//! SQLite's storage: a VFS over the simulated disk, with SQLite's own locking protocol, WAL index
//! memory, and a disk that may lose, reorder or tear whatever was not synced. It replaces the default
//! VFS of the real SQLite library the first time a simulated process opens a database.
use crate::fs::*;
use crate::shim::{real, G};
use crate::world::*;
use libc::{c_char, c_int, c_void};
use std::ffi::CStr;

pub const SQLITE_OK: c_int = 0;
const SQLITE_BUSY: c_int = 5;
const SQLITE_FULL: c_int = 13;
const SQLITE_CANTOPEN: c_int = 14;
const SQLITE_NOTFOUND: c_int = 12;
const IOERR_READ: c_int = 10 | (1 << 8);
const IOERR_SHORT_READ: c_int = 10 | (2 << 8);
const IOERR_WRITE: c_int = 10 | (3 << 8);
const IOERR_FSYNC: c_int = 10 | (4 << 8);
const IOERR_TRUNCATE: c_int = 10 | (6 << 8);
const IOERR_FSTAT: c_int = 10 | (7 << 8);
const IOERR_DELETE: c_int = 10 | (10 << 8);
const IOERR_ACCESS: c_int = 10 | (13 << 8);
const IOERR_LOCK: c_int = 10 | (15 << 8);
const IOERR_SHMMAP: c_int = 10 | (21 << 8);
const IOERR_SHMLOCK: c_int = 10 | (20 << 8);
const IOERR_DELETE_NOENT: c_int = 10 | (23 << 8);

const OPEN_READWRITE: c_int = 2;
const OPEN_CREATE: c_int = 4;
const OPEN_DELETEONCLOSE: c_int = 8;
const OPEN_EXCLUSIVE: c_int = 16;

#[repr(C)]
struct Methods {
    version: c_int,
    close: unsafe extern "C" fn(*mut SimFile) -> c_int,
    read: unsafe extern "C" fn(*mut SimFile, *mut c_void, c_int, i64) -> c_int,
    write: unsafe extern "C" fn(*mut SimFile, *const c_void, c_int, i64) -> c_int,
    truncate: unsafe extern "C" fn(*mut SimFile, i64) -> c_int,
    sync: unsafe extern "C" fn(*mut SimFile, c_int) -> c_int,
    file_size: unsafe extern "C" fn(*mut SimFile, *mut i64) -> c_int,
    lock: unsafe extern "C" fn(*mut SimFile, c_int) -> c_int,
    unlock: unsafe extern "C" fn(*mut SimFile, c_int) -> c_int,
    check_reserved: unsafe extern "C" fn(*mut SimFile, *mut c_int) -> c_int,
    control: unsafe extern "C" fn(*mut SimFile, c_int, *mut c_void) -> c_int,
    sector: unsafe extern "C" fn(*mut SimFile) -> c_int,
    device: unsafe extern "C" fn(*mut SimFile) -> c_int,
    shm_map: unsafe extern "C" fn(*mut SimFile, c_int, c_int, c_int, *mut *mut c_void) -> c_int,
    shm_lock: unsafe extern "C" fn(*mut SimFile, c_int, c_int, c_int) -> c_int,
    shm_barrier: unsafe extern "C" fn(*mut SimFile),
    shm_unmap: unsafe extern "C" fn(*mut SimFile, c_int) -> c_int,
}

#[repr(C)]
pub struct SimFile {
    methods: *const Methods,
    hid: u64,
    id: u64,
    level: c_int,
}

#[repr(C)]
struct Vfs {
    version: c_int,
    sz_file: c_int,
    max_path: c_int,
    next: *mut c_void,
    name: *const c_char,
    data: *mut c_void,
    open: unsafe extern "C" fn(*mut Vfs, *const c_char, *mut SimFile, c_int, *mut c_int) -> c_int,
    delete: unsafe extern "C" fn(*mut Vfs, *const c_char, c_int) -> c_int,
    access: unsafe extern "C" fn(*mut Vfs, *const c_char, c_int, *mut c_int) -> c_int,
    full: unsafe extern "C" fn(*mut Vfs, *const c_char, c_int, *mut c_char) -> c_int,
    dlopen: *const c_void,
    dlerror: *const c_void,
    dlsym: *const c_void,
    dlclose: *const c_void,
    randomness: unsafe extern "C" fn(*mut Vfs, c_int, *mut c_char) -> c_int,
    sleep: unsafe extern "C" fn(*mut Vfs, c_int) -> c_int,
    current_time: unsafe extern "C" fn(*mut Vfs, *mut f64) -> c_int,
    last_error: unsafe extern "C" fn(*mut Vfs, c_int, *mut c_char) -> c_int,
    current_time64: unsafe extern "C" fn(*mut Vfs, *mut i64) -> c_int,
}

static METHODS: Methods = Methods {
    version: 2,
    close: x_close,
    read: x_read,
    write: x_write,
    truncate: x_truncate,
    sync: x_sync,
    file_size: x_file_size,
    lock: x_lock,
    unlock: x_unlock,
    check_reserved: x_check_reserved,
    control: x_control,
    sector: x_sector,
    device: x_device,
    shm_map: x_shm_map,
    shm_lock: x_shm_lock,
    shm_barrier: x_shm_barrier,
    shm_unmap: x_shm_unmap,
};

fn guard() -> G {
    G::enter().expect("SQLite storage used outside a simulated process")
}

fn gate_id(class: Class, id: Id) -> Result<(), c_int> {
    let w = world();
    let p = w.fs.path_of(id);
    let s = w.scope_of(&p);
    match world().gate(class, s, &p, 0) {
        Gate::Go => Ok(()),
        Gate::Fail(e) => Err(e),
        Gate::Torn(_) => unreachable!(),
    }
}

unsafe extern "C" fn x_open(_v: *mut Vfs, name: *const c_char, f: *mut SimFile, flags: c_int, out: *mut c_int) -> c_int {
    let _g = guard();
    (*f).methods = std::ptr::null();
    (*f).hid = 0;
    (*f).level = 0;
    let path: Vec<u8> = if name.is_null() { vec![] } else { CStr::from_ptr(name).to_bytes().to_vec() };
    let w = world();
    let scope = w.scope_of(&path);
    match w.gate(Class::Open, scope, &path, 0) {
        Gate::Go => {}
        Gate::Fail(e) => return if e == libc::ENOSPC { SQLITE_FULL } else { SQLITE_CANTOPEN },
        Gate::Torn(_) => unreachable!(),
    }
    let w = world();
    let now = w.clock;
    let id = if path.is_empty() {
        let id = w.fs.anon(now);
        id
    } else {
        match w.fs.resolve_at(ROOT, &path, true) {
            Ok((_, _, Some(id))) => {
                if w.fs.is_dir(id) || flags & OPEN_EXCLUSIVE != 0 || w.fs.node(id).mode & 0o600 != 0o600 {
                    return SQLITE_CANTOPEN;
                }
                w.fs.track(id, false);
                id
            }
            Ok((par, n, None)) => {
                if flags & OPEN_CREATE == 0 {
                    return SQLITE_CANTOPEN;
                }
                match w.fs.create(par, &n, 0o644, now) {
                    Ok(id) => {
                        w.fs.track(id, true);
                        id
                    }
                    Err(_) => return SQLITE_CANTOPEN,
                }
            }
            Err(_) => return SQLITE_CANTOPEN,
        }
    };
    w.fs.inodes.get_mut(&id).unwrap().opens += 1;
    let hid = w.next_handle;
    w.next_handle += 1;
    let delete = if flags & OPEN_DELETEONCLOSE != 0 && !path.is_empty() { Some(path) } else { None };
    w.handles.insert(hid, Handle { proc: me(), id, scope, shm: false, delete });
    (*f).hid = hid;
    (*f).id = id;
    (*f).methods = &METHODS;
    if !out.is_null() {
        *out = (flags & !OPEN_READWRITE) | OPEN_READWRITE;
    }
    SQLITE_OK
}

unsafe extern "C" fn x_close(f: *mut SimFile) -> c_int {
    let _g = guard();
    let w = world();
    let del = w.handles.get(&(*f).hid).and_then(|h| h.delete.clone());
    w.drop_handle((*f).hid);
    if let Some(p) = del {
        if let Ok((par, n, Some(_))) = w.fs.resolve_at(ROOT, &p, false) {
            let now = w.clock;
            let _ = w.fs.unlink(par, &n, false, now);
        }
    }
    (*f).hid = 0;
    SQLITE_OK
}

unsafe extern "C" fn x_read(f: *mut SimFile, buf: *mut c_void, n: c_int, off: i64) -> c_int {
    let _g = guard();
    if gate_id(Class::Read, (*f).id).is_err() {
        return IOERR_READ;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    match world().fs.pread((*f).id, off as u64, b) {
        Ok(k) if k == b.len() => SQLITE_OK,
        Ok(k) => {
            for x in &mut b[k..] {
                *x = 0;
            }
            IOERR_SHORT_READ
        }
        Err(_) => IOERR_READ,
    }
}

unsafe extern "C" fn x_write(f: *mut SimFile, buf: *const c_void, n: c_int, off: i64) -> c_int {
    let _g = guard();
    let data = std::slice::from_raw_parts(buf as *const u8, n as usize);
    let id = (*f).id;
    let w = world();
    let p = w.fs.path_of(id);
    let s = w.scope_of(&p);
    let g = w.gate(Class::Write, s, &p, data.len() as u64);
    let w = world();
    let now = w.clock;
    match g {
        Gate::Go => {}
        Gate::Fail(e) => {
            return if e == libc::ENOSPC { SQLITE_FULL } else { IOERR_WRITE };
        }
        Gate::Torn(k) => {
            let _ = w.fs.pwrite(id, off as u64, &data[..(k as usize).min(data.len())], now);
            w.die_torn();
        }
    }
    let size = w.fs.file(id).map(|f| f.data.len() as u64).unwrap_or(0);
    let end = off as u64 + data.len() as u64;
    if end > size && end - size > w.room() {
        w.fire_named("disk_full");
        return SQLITE_FULL;
    }
    match w.fs.pwrite(id, off as u64, data, now) {
        Ok(()) => SQLITE_OK,
        Err(_) => IOERR_WRITE,
    }
}

unsafe extern "C" fn x_truncate(f: *mut SimFile, n: i64) -> c_int {
    let _g = guard();
    if gate_id(Class::Trunc, (*f).id).is_err() {
        return IOERR_TRUNCATE;
    }
    let w = world();
    let now = w.clock;
    match w.fs.truncate((*f).id, n as u64, now) {
        Ok(()) => SQLITE_OK,
        Err(_) => IOERR_TRUNCATE,
    }
}

unsafe extern "C" fn x_sync(f: *mut SimFile, _flags: c_int) -> c_int {
    let _g = guard();
    if gate_id(Class::Sync, (*f).id).is_err() {
        return IOERR_FSYNC;
    }
    world().fs.sync((*f).id);
    SQLITE_OK
}

unsafe extern "C" fn x_file_size(f: *mut SimFile, out: *mut i64) -> c_int {
    let _g = guard();
    if gate_id(Class::Stat, (*f).id).is_err() {
        return IOERR_FSTAT;
    }
    *out = world().fs.file((*f).id).map(|f| f.data.len() as i64).unwrap_or(0);
    SQLITE_OK
}

unsafe extern "C" fn x_lock(f: *mut SimFile, level: c_int) -> c_int {
    let _g = guard();
    if (*f).level >= level {
        return SQLITE_OK;
    }
    match gate_id(Class::Lock, (*f).id) {
        Ok(()) => {}
        Err(libc::EAGAIN) => return SQLITE_BUSY,
        Err(_) => return IOERR_LOCK,
    }
    let w = world();
    let ok = w.lock((*f).hid, (*f).id, level);
    if ok {
        (*f).level = level;
        SQLITE_OK
    } else {
        w.note(me(), "busy", b"", level as u64);
        if level == 4 {
            if let Some(l) = w.locks.get(&(*f).id) {
                if l.pending == (*f).hid {
                    (*f).level = 3;
                }
            }
        }
        SQLITE_BUSY
    }
}

unsafe extern "C" fn x_unlock(f: *mut SimFile, level: c_int) -> c_int {
    let _g = guard();
    if (*f).level <= level {
        return SQLITE_OK;
    }
    let w = world();
    // giving up a lock is a scheduling point too, but cannot fail
    let p = w.fs.path_of((*f).id);
    let s = w.scope_of(&p);
    let _ = w.gate(Class::Other, s, b"unlock", 0);
    let w = world();
    let (h, id) = ((*f).hid, (*f).id);
    if level == 0 {
        w.unlock_all(h, id);
    } else if let Some(l) = w.locks.get_mut(&id) {
        if l.reserved == h {
            l.reserved = 0;
        }
        if l.pending == h {
            l.pending = 0;
        }
        if l.exclusive == h {
            l.exclusive = 0;
        }
    }
    (*f).level = level;
    SQLITE_OK
}

unsafe extern "C" fn x_check_reserved(f: *mut SimFile, out: *mut c_int) -> c_int {
    let _g = guard();
    if gate_id(Class::Lock, (*f).id).is_err() {
        return 10 | (14 << 8);
    }
    let w = world();
    w.expire_foreign();
    *out = match w.locks.get(&(*f).id) {
        Some(l) => (l.reserved != 0 || l.pending != 0 || l.exclusive != 0) as c_int,
        None => 0,
    };
    SQLITE_OK
}

unsafe extern "C" fn x_control(_f: *mut SimFile, _op: c_int, _a: *mut c_void) -> c_int {
    SQLITE_NOTFOUND
}

unsafe extern "C" fn x_sector(_f: *mut SimFile) -> c_int {
    4096
}

unsafe extern "C" fn x_device(_f: *mut SimFile) -> c_int {
    0x1000 // powersafe overwrite, as SQLite's own unix VFS reports
}

unsafe extern "C" fn x_shm_map(f: *mut SimFile, region: c_int, size: c_int, extend: c_int, out: *mut *mut c_void) -> c_int {
    let _g = guard();
    assert_eq!(size as usize, REGION);
    if gate_id(Class::Shm, (*f).id).is_err() {
        return IOERR_SHMMAP;
    }
    let w = world();
    let s = w.shms.entry((*f).id).or_default();
    s.users.insert((*f).hid);
    while s.regions.len() <= region as usize {
        if extend == 0 {
            *out = std::ptr::null_mut();
            return SQLITE_OK;
        }
        s.regions.push(take_region());
    }
    *out = s.regions[region as usize] as *mut c_void;
    SQLITE_OK
}

unsafe extern "C" fn x_shm_lock(f: *mut SimFile, off: c_int, n: c_int, flags: c_int) -> c_int {
    let _g = guard();
    const UNLOCK: c_int = 1;
    const SHARED: c_int = 4;
    let h = (*f).hid;
    if flags & UNLOCK == 0 {
        match gate_id(Class::Shm, (*f).id) {
            Ok(()) => {}
            Err(libc::EAGAIN) => return SQLITE_BUSY,
            Err(_) => return IOERR_SHMLOCK,
        }
    } else {
        let _ = world().gate(Class::Other, Scope::Cache, b"shm unlock", 0);
    }
    let w = world();
    let s = w.shms.entry((*f).id).or_default();
    let slots = &mut s.slots[off as usize..(off + n) as usize];
    if flags & UNLOCK != 0 {
        for x in slots {
            if x.0 == h {
                x.0 = 0;
            }
            x.1.remove(&h);
        }
        return SQLITE_OK;
    }
    if flags & SHARED != 0 {
        if slots.iter().any(|x| x.0 != 0 && x.0 != h) {
            return SQLITE_BUSY;
        }
        for x in slots {
            x.1.insert(h);
        }
    } else {
        if slots.iter().any(|x| (x.0 != 0 && x.0 != h) || x.1.iter().any(|y| *y != h)) {
            return SQLITE_BUSY;
        }
        for x in slots {
            x.0 = h;
        }
    }
    SQLITE_OK
}

unsafe extern "C" fn x_shm_barrier(_f: *mut SimFile) {
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
}

unsafe extern "C" fn x_shm_unmap(f: *mut SimFile, _delete: c_int) -> c_int {
    let _g = guard();
    world().shm_leave((*f).hid, (*f).id);
    SQLITE_OK
}

unsafe extern "C" fn x_delete(_v: *mut Vfs, name: *const c_char, sync_dir: c_int) -> c_int {
    let _g = guard();
    let path = CStr::from_ptr(name).to_bytes().to_vec();
    let w = world();
    let scope = w.scope_of(&path);
    match w.gate(Class::Unlink, scope, &path, 0) {
        Gate::Go => {}
        _ => return IOERR_DELETE,
    }
    let w = world();
    let now = w.clock;
    match w.fs.resolve_at(ROOT, &path, false) {
        Ok((par, n, Some(_))) => match w.fs.unlink(par, &n, sync_dir != 0, now) {
            Ok(()) => SQLITE_OK,
            Err(_) => IOERR_DELETE,
        },
        Ok((_, _, None)) | Err(libc::ENOENT) => IOERR_DELETE_NOENT,
        Err(_) => IOERR_DELETE,
    }
}

unsafe extern "C" fn x_access(_v: *mut Vfs, name: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    let _g = guard();
    let path = CStr::from_ptr(name).to_bytes().to_vec();
    let w = world();
    let scope = w.scope_of(&path);
    match w.gate(Class::Stat, scope, &path, 0) {
        Gate::Go => {}
        _ => return IOERR_ACCESS,
    }
    let w = world();
    *out = match w.fs.lookup(&path) {
        None => 0,
        Some(id) => {
            if flags == 0 {
                match w.fs.file(id) {
                    Ok(f) => !f.data.is_empty() as c_int,
                    Err(_) => 1,
                }
            } else {
                (w.fs.node(id).mode & 0o600 == 0o600) as c_int
            }
        }
    };
    SQLITE_OK
}

unsafe extern "C" fn x_full(_v: *mut Vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let _g = guard();
    let path = CStr::from_ptr(name).to_bytes();
    let w = world();
    let mut p = vec![];
    if !path.starts_with(b"/") {
        p = w.fs.path_of(w.procs[me()].cwd);
        if !p.ends_with(b"/") {
            p.push(b'/');
        }
    }
    p.extend_from_slice(path);
    if p.len() + 1 > n as usize {
        return SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(p.as_ptr(), out as *mut u8, p.len());
    *out.add(p.len()) = 0;
    SQLITE_OK
}

unsafe extern "C" fn x_randomness(_v: *mut Vfs, n: c_int, out: *mut c_char) -> c_int {
    let _g = guard();
    let v = world().random(n as usize);
    std::ptr::copy_nonoverlapping(v.as_ptr(), out as *mut u8, n as usize);
    n
}

unsafe extern "C" fn x_sleep(_v: *mut Vfs, us: c_int) -> c_int {
    let _g = guard();
    world().sleep(i64::from(us.max(1)) * 1000);
    us
}

unsafe extern "C" fn x_current_time(_v: *mut Vfs, out: *mut f64) -> c_int {
    let _g = guard();
    *out = 2_440_587.5 + world().clock as f64 / 86_400e9;
    SQLITE_OK
}

unsafe extern "C" fn x_current_time64(_v: *mut Vfs, out: *mut i64) -> c_int {
    let _g = guard();
    *out = 210_866_760_000_000 + world().clock / 1_000_000;
    SQLITE_OK
}

unsafe extern "C" fn x_last_error(_v: *mut Vfs, _n: c_int, _o: *mut c_char) -> c_int {
    0
}

static mut VFS: Vfs = Vfs {
    version: 2,
    sz_file: std::mem::size_of::<SimFile>() as c_int,
    max_path: 4096,
    next: std::ptr::null_mut(),
    name: b"simulated\0".as_ptr() as *const c_char,
    data: std::ptr::null_mut(),
    open: x_open,
    delete: x_delete,
    access: x_access,
    full: x_full,
    dlopen: std::ptr::null(),
    dlerror: std::ptr::null(),
    dlsym: std::ptr::null(),
    dlclose: std::ptr::null(),
    randomness: x_randomness,
    sleep: x_sleep,
    current_time: x_current_time,
    last_error: x_last_error,
    current_time64: x_current_time64,
};

extern "C" {
    fn sqlite3_vfs_register(v: *mut c_void, default: c_int) -> c_int;
    fn sqlite3_exec(db: *mut c_void, sql: *const c_char, cb: *const c_void, a: *mut c_void, e: *mut *mut c_char) -> c_int;
}

static REGISTERED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Everything that opens a database goes through here.
#[no_mangle]
pub unsafe extern "C" fn sqlite3_open_v2(name: *const c_char, db: *mut *mut c_void, flags: c_int, vfs: *const c_char) -> c_int {
    let next = real!(sqlite3_open_v2, unsafe extern "C" fn(*const c_char, *mut *mut c_void, c_int, *const c_char) -> c_int);
    if !in_child() {
        return next(name, db, flags, vfs);
    }
    if !REGISTERED.swap(true, std::sync::atomic::Ordering::SeqCst) {
        sqlite3_vfs_register(&raw mut VFS as *mut c_void, 1);
    }
    let rc = next(name, db, flags, std::ptr::null());
    if rc == SQLITE_OK {
        let pages = {
            let _g = guard();
            world().cache_pages
        };
        if pages > 0 {
            // a small page cache, so that transactions spill to disk before they commit
            let sql = format!("PRAGMA cache_size={}; PRAGMA cache_spill={};\0", pages, pages);
            sqlite3_exec(*db, sql.as_ptr() as *const c_char, std::ptr::null(), std::ptr::null_mut(), std::ptr::null_mut());
        }
    }
    rc
}

// ---- SQLite's allocator: the real one, failing on demand ----

#[repr(C)]
struct Mem {
    malloc: unsafe extern "C" fn(c_int) -> *mut c_void,
    free: unsafe extern "C" fn(*mut c_void),
    realloc: unsafe extern "C" fn(*mut c_void, c_int) -> *mut c_void,
    size: unsafe extern "C" fn(*mut c_void) -> c_int,
    roundup: unsafe extern "C" fn(c_int) -> c_int,
    init: unsafe extern "C" fn(*mut c_void) -> c_int,
    shutdown: unsafe extern "C" fn(*mut c_void),
    data: *mut c_void,
}

unsafe fn starved() -> bool {
    let _g = match G::enter() {
        Some(g) => g,
        None => return false,
    };
    let w = world();
    let p = me();
    w.procs[p].allocs += 1;
    let n = w.procs[p].allocs;
    let hit = w.procs[p].faults.iter().any(|f| matches!(f, Fault::Oom { nth, count } if n >= *nth && n < nth.saturating_add(*count)));
    if hit {
        w.fire_named("sqlite_oom");
    }
    hit
}

unsafe extern "C" fn m_malloc(n: c_int) -> *mut c_void {
    if starved() {
        return std::ptr::null_mut();
    }
    let p = libc::malloc(n as usize + 16) as *mut u64;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    *p = n as u64;
    p.add(2) as *mut c_void
}
unsafe extern "C" fn m_free(p: *mut c_void) {
    if !p.is_null() {
        libc::free((p as *mut u64).sub(2) as *mut c_void);
    }
}
unsafe extern "C" fn m_realloc(p: *mut c_void, n: c_int) -> *mut c_void {
    if starved() {
        return std::ptr::null_mut();
    }
    let q = libc::realloc((p as *mut u64).sub(2) as *mut c_void, n as usize + 16) as *mut u64;
    if q.is_null() {
        return std::ptr::null_mut();
    }
    *q = n as u64;
    q.add(2) as *mut c_void
}
unsafe extern "C" fn m_size(p: *mut c_void) -> c_int {
    if p.is_null() {
        0
    } else {
        *(p as *mut u64).sub(2) as c_int
    }
}
unsafe extern "C" fn m_roundup(n: c_int) -> c_int {
    (n + 7) & !7
}
unsafe extern "C" fn m_init(_p: *mut c_void) -> c_int {
    0
}
unsafe extern "C" fn m_shutdown(_p: *mut c_void) {}

/// Install the failing allocator (only in processes that have such a fault planned).
pub fn arm_oom() {
    extern "C" {
        fn sqlite3_config(op: c_int, ...) -> c_int;
    }
    static MEM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    unsafe {
        let m = Box::into_raw(Box::new(Mem {
            malloc: m_malloc,
            free: m_free,
            realloc: m_realloc,
            size: m_size,
            roundup: m_roundup,
            init: m_init,
            shutdown: m_shutdown,
            data: std::ptr::null_mut(),
        }));
        MEM.store(m as usize, std::sync::atomic::Ordering::SeqCst);
        sqlite3_config(4, m as *mut c_void);
    }
}
