//! The simulated machine: processes, scheduler, clock, disk capacity, locks and fault injection.
//! It lives in the arena and is shared by the simulator and the processes forked from it; exactly one
//! of them (`turn`) may touch it at any time.
use crate::arena;
use crate::fs::*;
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Serialize, Deserialize)]
pub enum Class {
    Open,
    Read,
    Write,
    Trunc,
    Sync,
    Stat,
    Unlink,
    Mkdir,
    List,
    Rename,
    Path,
    Lock,
    Shm,
    Other,
}
pub const CLASSES: usize = 14;
pub const ALL_CLASSES: [Class; CLASSES] = [
    Class::Open,
    Class::Read,
    Class::Write,
    Class::Trunc,
    Class::Sync,
    Class::Stat,
    Class::Unlink,
    Class::Mkdir,
    Class::List,
    Class::Rename,
    Class::Path,
    Class::Lock,
    Class::Shm,
    Class::Other,
];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Serialize, Deserialize)]
pub enum Scope {
    Db,
    Cache,
    Tree,
}
pub const SCOPES: usize = 3;

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// The process is killed just before its `at`-th intercepted call; if that is a write, `torn`
    /// per mille of it still happen.
    Kill { at: u64, torn: u32 },
    /// The machine loses power at that point.
    Power { at: u64, torn: u32, seed: u64 },
    /// The process stops running for `ms` of simulated time.
    Stall { at: u64, ms: u64 },
    /// The `nth` call of this kind, and the `count`-1 after it, fail.
    Err { class: Class, scope: Scope, nth: u64, count: u64, errno: i32 },
    /// Reads and writes of ordinary files transfer less than asked or are interrupted.
    Short { seed: u64, pct: u32 },
    /// The disk has room for this many more bytes.
    Full { slack: u64 },
    /// Some other program locks a database for a while (level 1 shared, 2 reserved, 4 exclusive).
    Foreign { at: u64, ms: u64, level: u8, scope: Scope },
    /// Writing to standard output fails after so many bytes.
    Stdout { after: u64, errno: i32 },
    /// SQLite's allocator fails.
    Oom { nth: u64, count: u64 },
    /// The user (an editor, a build) changes files just before the process's `nth` call of a kind on
    /// the working tree.
    Edit { class: Class, nth: u64, edits: Vec<(String, crate::scen::EditOp)> },
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::Kill { .. } => "process_kill",
            Fault::Power { .. } => "power_loss",
            Fault::Stall { .. } => "stall",
            Fault::Err { errno, .. } if *errno == libc::ENOSPC => "enospc_error",
            Fault::Err { class: Class::Sync, .. } => "sync_error",
            Fault::Err { class: Class::Read, .. } => "read_error",
            Fault::Err { class: Class::Write, .. } => "write_error",
            Fault::Err { class: Class::Lock, .. } => "lock_error",
            Fault::Err { .. } => "other_io_error",
            Fault::Short { .. } => "short_or_interrupted_io",
            Fault::Full { .. } => "disk_full",
            Fault::Foreign { .. } => "foreign_lock",
            Fault::Stdout { .. } => "stdout_error",
            Fault::Oom { .. } => "sqlite_oom",
            Fault::Edit { .. } => "concurrent_edit",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Running,
    Exit(i32),
    Killed,
    Power,
    Hung,
    Signal(i32),
    /// the harness itself failed inside the process
    Harness,
}

#[derive(Clone)]
pub enum Open {
    File { id: Id, off: u64, append: bool, read: bool, write: bool },
    Dir { id: Id },
}

#[derive(Clone)]
pub struct Proc {
    pub cwd: Id,
    pub fds: BTreeMap<i32, usize>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: u64,
    pub counts: [[u64; SCOPES]; CLASSES],
    pub end: End,
    pub wake: i64,
    pub faults: Vec<Fault>,
    pub fired: Vec<u64>,
    pub rnd: u64,
    pub umask: u32,
    pub allocs: u64,
    pub short: Option<(Rng, u32)>,
    pub pid: i32,
}

#[derive(Clone, Default)]
pub struct Lk {
    pub shared: BTreeSet<u64>,
    pub reserved: u64,
    pub pending: u64,
    pub exclusive: u64,
}

#[derive(Clone)]
pub struct Handle {
    pub proc: usize,
    pub id: Id,
    pub scope: Scope,
    pub shm: bool,
    pub delete: Option<Vec<u8>>,
}

#[derive(Default, Clone)]
pub struct ShmState {
    pub regions: Vec<usize>,
    pub users: BTreeSet<u64>,
    /// per slot: (exclusive holder, shared holders)
    pub slots: [(u64, BTreeSet<u64>); 8],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Switch {
    pub proc: usize,
    pub at: u64,
    pub to: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sched {
    Free { seed: u64, per: u64 },
    Fixed(Vec<Switch>),
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub fired: BTreeMap<String, u64>,
    pub sites: BTreeSet<u64>,
}

#[derive(Clone)]
pub struct World {
    pub fs: Fs,
    pub clock: i64,
    pub procs: Vec<Proc>,
    pub ofds: BTreeMap<usize, (u32, Open)>,
    pub next_ofd: usize,
    pub handles: BTreeMap<u64, Handle>,
    pub next_handle: u64,
    pub locks: BTreeMap<Id, Lk>,
    pub shms: BTreeMap<Id, ShmState>,
    /// (inode, handle id, until)
    pub foreign: Vec<(Id, u64, i64)>,
    pub capacity: Option<u64>,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    pub sched: Sched,
    pub srng: Rng,
    pub switches: Vec<Switch>,
    pub step_cap: u64,
    pub run_steps: u64,
    pub stats: Stats,
    pub power_seed: Option<u64>,
    pub seed: u64,
    pub cache_pages: i64,
    pub db_name: Vec<u8>,
    pub cache_root: Vec<u8>,
    /// where edits really went, links followed
    pub through: Vec<Vec<u8>>,
}

pub enum Gate {
    Go,
    Fail(i32),
    /// a write that is to be torn: do this many bytes, then die
    Torn(u64),
}

static W: AtomicUsize = AtomicUsize::new(0);
static TURN: AtomicUsize = AtomicUsize::new(0);
static CHILD: AtomicBool = AtomicBool::new(false);
static ME: AtomicUsize = AtomicUsize::new(0);

pub const DRIVER: u32 = u32::MAX;
pub const OP_NS: i64 = 10_000;

pub fn install(w: *mut World) {
    W.store(w as usize, Ordering::SeqCst);
}

#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe { &mut *(W.load(Ordering::Relaxed) as *mut World) }
}

pub fn in_child() -> bool {
    CHILD.load(Ordering::Relaxed)
}

pub fn me() -> usize {
    ME.load(Ordering::Relaxed)
}

fn turn() -> &'static AtomicU32 {
    unsafe { &*(TURN.load(Ordering::Relaxed) as *const AtomicU32) }
}

pub fn setup() {
    assert!(arena::on());
    TURN.store(arena::raw(64) as usize, Ordering::SeqCst);
    REGIONS.store(Box::into_raw(Box::new(Vec::<usize>::new())) as usize, Ordering::SeqCst);
    turn().store(DRIVER, Ordering::SeqCst);
}

unsafe fn raw_syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

fn futex_wait(val: u32, ms: Option<u64>) {
    let ts;
    let p = match ms {
        Some(ms) => {
            ts = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
            &ts as *const _ as usize
        }
        None => 0,
    };
    unsafe {
        raw_syscall6(libc::SYS_futex, turn() as *const _ as usize, libc::FUTEX_WAIT as usize, val as usize, p, 0, 0);
    }
}

fn pass_turn(to: u32) {
    turn().store(to, Ordering::SeqCst);
    unsafe {
        raw_syscall6(libc::SYS_futex, turn() as *const _ as usize, libc::FUTEX_WAKE as usize, 64, 0, 0, 0);
    }
}

fn wait_turn(me: u32) {
    let mut spins = 0;
    loop {
        let t = turn().load(Ordering::SeqCst);
        if t == me {
            return;
        }
        spins += 1;
        if spins > 50 {
            futex_wait(t, None);
        }
    }
}

pub fn leave() -> ! {
    unsafe {
        raw_syscall6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}

/// A line to the real standard error, without allocating.
pub fn raw_say(a: std::fmt::Arguments<'_>) {
    struct Buf([u8; 256], usize);
    impl std::fmt::Write for Buf {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes().chain(None) {
                if self.1 < 255 {
                    self.0[self.1] = b;
                    self.1 += 1;
                }
            }
            Ok(())
        }
    }
    let mut b = Buf([0; 256], 0);
    let _ = std::fmt::Write::write_fmt(&mut b, a);
    b.0[b.1] = b'\n';
    unsafe {
        raw_syscall6(libc::SYS_write, 2, b.0.as_ptr() as usize, b.1 + 1, 0, 0, 0);
    }
}

/// Ends this (real) process.
pub fn leave_with(code: i32) -> ! {
    unsafe {
        raw_syscall6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl World {
    pub fn new(seed: u64) -> World {
        World {
            fs: Fs::new(),
            clock: 1_600_000_000_000_000_000,
            procs: vec![],
            ofds: BTreeMap::new(),
            next_ofd: 1,
            handles: BTreeMap::new(),
            next_handle: 1,
            locks: BTreeMap::new(),
            shms: BTreeMap::new(),
            foreign: vec![],
            capacity: None,
            hash: 0xcbf2_9ce4_8422_2325,
            trace: None,
            sched: Sched::Fixed(vec![]),
            srng: Rng::new(0),
            switches: vec![],
            step_cap: 400_000,
            run_steps: 0,
            stats: Stats::default(),
            power_seed: None,
            seed,
            cache_pages: 0,
            db_name: b".snapcd".to_vec(),
            cache_root: b"/home/jess/.cache".to_vec(),
            through: vec![],
        }
    }

    pub fn note(&mut self, who: usize, what: &str, detail: &[u8], n: u64) {
        self.hash = mix(fnv(fnv(self.hash ^ who as u64, what.as_bytes()), detail) ^ n);
        if let Some(t) = &mut self.trace {
            let mut d = String::from_utf8_lossy(detail).into_owned();
            if d.len() > 120 {
                d.truncate(d.char_indices().take(100).last().map_or(0, |x| x.0));
                d.push('…');
            }
            t.push(format!("{:>12} p{} {} {} {}", (self.clock - 1_600_000_000_000_000_000) / 1000, who as i64, what, d, n));
        }
    }

    pub fn scope_of(&self, path: &[u8]) -> Scope {
        if path.starts_with(&self.cache_root) {
            return Scope::Cache;
        }
        if path.split(|b| *b == b'/').any(|p| p == &self.db_name[..]) {
            return Scope::Db;
        }
        Scope::Tree
    }

    fn site(&mut self, p: usize, class: Class, scope: Scope, kind: u64) {
        let n = self.procs[p].counts[class as usize][scope as usize];
        // call number within its kind, coarsened, so that the set measures where faults landed
        let bucket = 64 - n.leading_zeros() as u64;
        let s = mix(kind << 32 | (class as u64) << 16 | (scope as u64) << 8 | bucket);
        self.stats.sites.insert(s);
    }

    fn fire(&mut self, p: usize, i: usize) {
        if self.procs[p].fired[i] == 0 {
            let name = self.procs[p].faults[i].name().to_string();
            *self.stats.fired.entry(name).or_insert(0) += 1;
        }
        self.procs[p].fired[i] += 1;
        let d = format!("{:?}", self.procs[p].faults[i]);
        self.note(p, "FAULT", d.as_bytes(), 0);
    }

    /// Every intercepted call passes here first. `len` is the size of a write (0: not tearable).
    pub fn gate(&mut self, class: Class, scope: Scope, detail: &[u8], len: u64) -> Gate {
        let p = me();
        self.clock += OP_NS;
        self.stats.steps += 1;
        self.run_steps += 1;
        self.procs[p].ops += 1;
        self.procs[p].counts[class as usize][scope as usize] += 1;
        let ops = self.procs[p].ops;
        self.note(p, &format!("{:?}", class), detail, len);
        if self.run_steps > self.step_cap {
            self.note(p, "STEPCAP", b"", 0);
            self.finish(End::Hung);
        }
        let nth = self.procs[p].counts[class as usize][scope as usize];
        for i in 0..self.procs[p].faults.len() {
            match self.procs[p].faults[i].clone() {
                Fault::Kill { at, torn } if at == ops => {
                    self.fire(p, i);
                    self.site(p, class, scope, 1);
                    let n = len * u64::from(torn) / 1000;
                    if n > 0 {
                        return Gate::Torn(n);
                    }
                    self.finish(End::Killed);
                }
                Fault::Power { at, torn, seed } if at == ops => {
                    self.fire(p, i);
                    self.site(p, class, scope, 2);
                    self.power_seed = Some(seed);
                    let n = len * u64::from(torn) / 1000;
                    if n > 0 {
                        return Gate::Torn(n);
                    }
                    self.finish(End::Power);
                }
                Fault::Stall { at, ms } if at == ops => {
                    self.fire(p, i);
                    self.site(p, class, scope, 3);
                    self.sleep(ms as i64 * 1_000_000);
                }
                Fault::Foreign { at, ms, level, scope: s } if at == ops => {
                    if self.foreign_lock(s, ms as i64 * 1_000_000, level) {
                        self.fire(p, i);
                        self.site(p, class, scope, 4);
                    }
                }
                Fault::Edit { class: c, nth: n, edits } if c == class && scope == Scope::Tree && nth == n => {
                    self.fire(p, i);
                    self.site(p, class, scope, 4000);
                    for (path, op) in &edits {
                        crate::exec::apply_edit(self, path, op);
                    }
                }
                Fault::Err { class: c, scope: s, nth: n, count, errno } if c == class && s == scope && nth >= n && nth < n.saturating_add(count) => {
                    self.fire(p, i);
                    self.site(p, class, scope, 5 + errno as u64);
                    self.preempt();
                    return Gate::Fail(errno);
                }
                _ => {}
            }
        }
        self.preempt();
        Gate::Go
    }

    pub fn die_torn(&mut self) -> ! {
        if self.power_seed.is_some() {
            self.finish(End::Power)
        } else {
            self.finish(End::Killed)
        }
    }

    fn runnable(&self) -> Vec<usize> {
        (0..self.procs.len()).filter(|i| self.procs[*i].end == End::Running && self.procs[*i].wake <= self.clock).collect()
    }

    /// Who goes next, when the current process cannot. None: nobody is left.
    fn successor(&mut self, me: usize, at: u64) -> Option<usize> {
        let mut r = self.runnable();
        if r.is_empty() {
            let t = self.procs.iter().filter(|p| p.end == End::Running).map(|p| p.wake).min()?;
            self.clock = self.clock.max(t);
            r = self.runnable();
        }
        let to = match &self.sched {
            Sched::Free { .. } => r[self.srng.below(r.len() as u64) as usize],
            Sched::Fixed(v) => {
                let want = v.iter().find(|s| s.proc == me && s.at == at).map(|s| s.to);
                match want {
                    Some(t) if r.contains(&t) => t,
                    _ => r[0],
                }
            }
        };
        if r.len() > 1 || me == usize::MAX >> 1 {
            self.switches.push(Switch { proc: me, at, to });
        }
        Some(to)
    }

    fn preempt(&mut self) {
        if self.procs.len() < 2 {
            return;
        }
        let p = me();
        let at = self.procs[p].ops;
        let to = match &self.sched {
            Sched::Free { per, .. } => {
                let per = *per;
                if !self.srng.chance(1, per) {
                    return;
                }
                let r = self.runnable();
                if r.len() < 2 {
                    return;
                }
                r[self.srng.below(r.len() as u64) as usize]
            }
            Sched::Fixed(v) => match v.iter().find(|s| s.proc == p && s.at == at) {
                Some(s) => s.to,
                None => return,
            },
        };
        if to == p || to >= self.procs.len() || self.procs[to].end != End::Running || self.procs[to].wake > self.clock {
            return;
        }
        self.switches.push(Switch { proc: p, at, to });
        self.hand_over(to);
    }

    fn hand_over(&mut self, to: usize) {
        let p = me();
        if to == p {
            return;
        }
        self.stats.switches += 1;
        self.note(p, "switch", b"", to as u64);
        std::hint::black_box(self as *mut World);
        pass_turn(to as u32);
        wait_turn(p as u32);
    }

    pub fn sleep(&mut self, ns: i64) {
        let p = me();
        self.procs[p].ops += 1;
        self.run_steps += 1;
        if self.run_steps > self.step_cap {
            self.finish(End::Hung);
        }
        self.procs[p].wake = self.clock + ns;
        let at = self.procs[p].ops;
        let to = self.successor(p, at).expect("a sleeper remains");
        self.hand_over(to);
        // resumed only when runnable
        self.procs[p].wake = 0;
    }

    /// The calling process ends here.
    pub fn finish(&mut self, end: End) -> ! {
        let p = me();
        let code = match &end {
            End::Exit(c) => *c as u64,
            End::Killed => 1000,
            End::Power => 1001,
            _ => 1002,
        };
        self.note(p, "END", b"", code);
        let power = end == End::Power;
        if !power && end != End::Exit(0) {
            // Whether an unacknowledged command still takes effect must not depend on a second
            // accident much later: what it left behind gets written back first.
            self.fs.flush();
        }
        self.retire(p, end);
        if power {
            for i in 0..self.procs.len() {
                if self.procs[i].end == End::Running {
                    self.retire(i, End::Power);
                }
            }
            pass_turn(DRIVER);
        } else {
            self.go_on(p);
        }
        leave()
    }

    fn go_on(&mut self, p: usize) {
        match self.successor(p, u64::MAX) {
            Some(t) => pass_turn(t as u32),
            None => pass_turn(DRIVER),
        }
    }

    fn retire(&mut self, p: usize, end: End) {
        self.procs[p].end = end;
        let fds: Vec<i32> = self.procs[p].fds.keys().copied().collect();
        for fd in fds {
            self.close_fd(p, fd);
        }
        let hs: Vec<u64> = self.handles.iter().filter(|(_, h)| h.proc == p).map(|(k, _)| *k).collect();
        for h in hs {
            self.drop_handle(h);
        }
    }

    pub fn close_fd(&mut self, p: usize, fd: i32) -> bool {
        let o = match self.procs[p].fds.remove(&fd) {
            Some(o) => o,
            None => return false,
        };
        let (refs, open) = self.ofds.get_mut(&o).unwrap();
        *refs -= 1;
        if *refs == 0 {
            let id = match open {
                Open::File { id, .. } | Open::Dir { id } => *id,
            };
            self.ofds.remove(&o);
            if let Some(i) = self.fs.inodes.get_mut(&id) {
                i.opens -= 1;
            }
            self.fs.gc(id);
        }
        true
    }

    pub fn new_fd(&mut self, p: usize, open: Open) -> i32 {
        let id = match &open {
            Open::File { id, .. } | Open::Dir { id } => *id,
        };
        self.fs.inodes.get_mut(&id).unwrap().opens += 1;
        let o = self.next_ofd;
        self.next_ofd += 1;
        self.ofds.insert(o, (1, open));
        self.bind_fd(p, o)
    }

    pub fn bind_fd(&mut self, p: usize, o: usize) -> i32 {
        let mut fd = FD_BASE;
        while self.procs[p].fds.contains_key(&fd) {
            fd += 1;
        }
        self.procs[p].fds.insert(fd, o);
        fd
    }

    // ---- database locks ----

    pub fn unlock_all(&mut self, h: u64, id: Id) {
        if let Some(l) = self.locks.get_mut(&id) {
            l.shared.remove(&h);
            if l.reserved == h {
                l.reserved = 0;
            }
            if l.pending == h {
                l.pending = 0;
            }
            if l.exclusive == h {
                l.exclusive = 0;
            }
            if l.shared.is_empty() && l.reserved == 0 && l.pending == 0 && l.exclusive == 0 {
                self.locks.remove(&id);
            }
        }
    }

    pub fn drop_handle(&mut self, h: u64) {
        if let Some(hd) = self.handles.remove(&h) {
            self.unlock_all(h, hd.id);
            self.shm_leave(h, hd.id);
            if let Some(i) = self.fs.inodes.get_mut(&hd.id) {
                i.opens -= 1;
            }
            self.fs.gc(hd.id);
        }
    }

    pub fn shm_leave(&mut self, h: u64, id: Id) {
        let mut gone = false;
        if let Some(s) = self.shms.get_mut(&id) {
            s.users.remove(&h);
            for slot in s.slots.iter_mut() {
                if slot.0 == h {
                    slot.0 = 0;
                }
                slot.1.remove(&h);
            }
            gone = s.users.is_empty();
        }
        if gone {
            let s = self.shms.remove(&id).unwrap();
            for r in s.regions {
                free_region(r);
            }
        }
    }

    pub fn expire_foreign(&mut self) {
        let now = self.clock;
        let done: Vec<(Id, u64)> = self.foreign.iter().filter(|f| f.2 <= now).map(|f| (f.0, f.1)).collect();
        for (id, h) in done {
            self.unlock_all(h, id);
        }
        self.foreign.retain(|f| f.2 > now);
    }

    fn foreign_lock(&mut self, scope: Scope, ns: i64, level: u8) -> bool {
        let ids: BTreeSet<Id> = self
            .handles
            .values()
            .filter(|h| h.scope == scope && matches!(&self.fs.inodes.get(&h.id), Some(i) if i.nlink > 0))
            .map(|h| h.id)
            .collect();
        let id = match ids.iter().find(|i| self.fs.path_of(**i).ends_with(b".db")) {
            Some(i) => *i,
            None => return false,
        };
        let h = (1 << 40) + self.next_handle;
        self.next_handle += 1;
        let ok = self.lock(h, id, 1) && (level < 2 || self.lock(h, id, 2)) && (level < 4 || self.lock(h, id, 4));
        if !ok {
            self.unlock_all(h, id);
            return false;
        }
        self.foreign.push((id, h, self.clock + ns));
        true
    }

    /// The rules of SQLite's five-state file lock.
    pub fn lock(&mut self, h: u64, id: Id, level: i32) -> bool {
        self.expire_foreign();
        let l = self.locks.entry(id).or_default();
        match level {
            1 => {
                if (l.pending != 0 && l.pending != h) || (l.exclusive != 0 && l.exclusive != h) {
                    return false;
                }
                l.shared.insert(h);
                true
            }
            2 => {
                if (l.reserved != 0 && l.reserved != h) || (l.pending != 0 && l.pending != h) || (l.exclusive != 0 && l.exclusive != h) {
                    return false;
                }
                l.reserved = h;
                true
            }
            _ => {
                if (l.pending != 0 && l.pending != h) || (l.exclusive != 0 && l.exclusive != h) || (l.reserved != 0 && l.reserved != h) {
                    return false;
                }
                l.pending = h;
                if level == 3 {
                    return true;
                }
                if l.shared.iter().any(|x| *x != h) {
                    return false;
                }
                l.exclusive = h;
                true
            }
        }
    }

    // ---- disk capacity ----

    pub fn room(&self) -> u64 {
        match self.capacity {
            None => u64::MAX,
            Some(c) => {
                let used = self.used();
                c.saturating_sub(used)
            }
        }
    }

    pub fn used(&self) -> u64 {
        self.fs
            .inodes
            .values()
            .map(|i| match &i.node {
                Node::File(f) => f.data.len() as u64,
                _ => 0,
            })
            .sum()
    }

    pub fn random(&mut self, n: usize) -> Vec<u8> {
        let p = me();
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            self.procs[p].rnd += 1;
            let v = mix(self.seed ^ mix(p as u64 + 77) ^ mix(self.procs[p].rnd) ^ self.stats.steps);
            out.extend_from_slice(&v.to_le_bytes());
        }
        out.truncate(n);
        out
    }
}

// WAL index pages: recycled through a plain list, because their addresses must not move.
static REGIONS: AtomicUsize = AtomicUsize::new(0);
pub const REGION: usize = 32768;

fn regions() -> &'static mut Vec<usize> {
    unsafe { &mut *(REGIONS.load(Ordering::Relaxed) as *mut Vec<usize>) }
}

pub fn take_region() -> usize {
    let p = match regions().pop() {
        Some(p) => p,
        None => arena::raw(REGION) as usize,
    };
    unsafe { std::ptr::write_bytes(p as *mut u8, 0, REGION) };
    p
}

fn free_region(p: usize) {
    regions().push(p);
}

pub const FD_BASE: i32 = 1 << 20;

pub struct Job<'a> {
    pub cwd: Vec<u8>,
    pub faults: Vec<Fault>,
    pub body: Box<dyn Fn() -> i32 + 'a>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: u64,
    pub counts: [[u64; SCOPES]; CLASSES],
    pub fired: Vec<u64>,
}

pub struct HarnessError(pub String);

/// Run these processes to their ends, under the given schedule and faults.
pub fn run(w: &mut World, jobs: Vec<Job>, sched: Sched) -> Result<Vec<Outcome>, HarnessError> {
    assert!(arena::on());
    w.procs.clear();
    w.switches.clear();
    w.run_steps = 0;
    w.power_seed = None;
    w.srng = match &sched {
        Sched::Free { seed, .. } => Rng::new(*seed),
        _ => Rng::new(0),
    };
    w.sched = sched;
    let mut cap: Option<u64> = None;
    for j in &jobs {
        let cwd = match w.fs.lookup(&j.cwd) {
            Some(id) if w.fs.is_dir(id) => id,
            _ => return Err(HarnessError(format!("no such directory: {}", show_path(&j.cwd)))),
        };
        let mut short = None;
        for f in &j.faults {
            if let Fault::Short { seed, pct } = f {
                short = Some((Rng::new(*seed), *pct));
            }
            if let Fault::Full { slack } = f {
                let c = w.used() + slack;
                cap = Some(cap.map_or(c, |x| x.min(c)));
            }
        }
        w.procs.push(Proc {
            cwd,
            fds: BTreeMap::new(),
            out: vec![],
            err: vec![],
            ops: 0,
            counts: [[0; SCOPES]; CLASSES],
            end: End::Running,
            wake: 0,
            fired: vec![0; j.faults.len()],
            faults: j.faults.clone(),
            rnd: 0,
            umask: 0o022,
            allocs: 0,
            short,
            pid: 0,
        });
    }
    w.capacity = cap;
    let mut pids = vec![];
    for (i, j) in jobs.iter().enumerate() {
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            return Err(HarnessError("fork failed".into()));
        }
        if pid == 0 {
            child(i, j);
        }
        pids.push(pid);
        w.procs[i].pid = pid;
    }
    let first = w.successor(usize::MAX >> 1, 0).unwrap();
    std::hint::black_box(w as *mut World);
    pass_turn(first as u32);
    let mut idle = 0u32;
    let mut last = (0u64, 0u32);
    let mut reaped: BTreeSet<usize> = BTreeSet::new();
    loop {
        let t = turn().load(Ordering::SeqCst);
        if t == DRIVER {
            break;
        }
        futex_wait(t, Some(20));
        let t = turn().load(Ordering::SeqCst);
        if t == DRIVER {
            break;
        }
        // has the process whose turn it is died without saying so?
        let i = t as usize;
        let mut st = 0;
        let r = unsafe { libc::waitpid(pids[i], &mut st, libc::WNOHANG) };
        if r == pids[i] {
            reaped.insert(i);
            if turn().load(Ordering::SeqCst) == t && w.procs[i].end == End::Running {
                if arena::locked() {
                    // what it was doing to the shared memory is half done: nothing here can be trusted
                    raw_say(format_args!("process ended (status {:#x}) inside the allocator", st));
                    leave_with(9);
                }
                let (sig, code) = (st & 0x7f, (st >> 8) & 0xff);
                let end = if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                    // used up its share of the processor: it computes for ever
                    End::Hung
                } else if sig != 0 {
                    End::Signal(sig)
                } else if code == 250 {
                    End::Harness
                } else {
                    End::Exit(code)
                };
                w.note(i, "DIED", format!("{:?}", end).as_bytes(), 0);
                w.retire(i, end);
                w.go_on(i);
            }
            continue;
        }
        let now = (w.stats.steps, t);
        if now == last {
            idle += 1;
        } else {
            idle = 0;
            last = now;
        }
        // waits for something that never comes (computing for ever is stopped by RLIMIT_CPU)
        if idle > 6000 {
            unsafe {
                libc::kill(pids[i], libc::SIGKILL);
                libc::waitpid(pids[i], &mut st, 0);
            }
            reaped.insert(i);
            w.note(i, "SPIN", b"", 0);
            w.retire(i, End::Hung);
            w.go_on(i);
            idle = 0;
        }
    }
    for (i, pid) in pids.iter().enumerate() {
        if !reaped.contains(&i) {
            let mut st = 0;
            unsafe {
                if w.procs[i].end == End::Power {
                    libc::kill(*pid, libc::SIGKILL);
                }
                libc::waitpid(*pid, &mut st, 0);
            }
        }
    }
    if let Some(s) = w.power_seed {
        w.power_off(s);
    }
    w.capacity = None;
    w.foreign.clear();
    w.locks.clear();
    let mut out = vec![];
    for p in w.procs.drain(..) {
        if p.end == End::Harness {
            return Err(HarnessError(format!("simulated process failed in the harness: {}", String::from_utf8_lossy(&p.err))));
        }
        out.push(Outcome { end: p.end, out: p.out, err: p.err, ops: p.ops, counts: p.counts, fired: p.fired });
    }
    Ok(out)
}

impl World {
    pub fn power_off(&mut self, seed: u64) -> u64 {
        for (_, s) in std::mem::take(&mut self.shms) {
            for r in s.regions {
                free_region(r);
            }
        }
        self.locks.clear();
        let lost = self.fs.power_loss(seed);
        self.note(usize::MAX, "POWER", b"", lost);
        lost
    }

    pub fn fire_named(&mut self, kind: &str) {
        let p = me();
        for i in 0..self.procs[p].faults.len() {
            if self.procs[p].faults[i].name() == kind {
                self.fire(p, i);
                return;
            }
        }
        // a full disk is everybody's
        for q in 0..self.procs.len() {
            for i in 0..self.procs[q].faults.len() {
                if self.procs[q].faults[i].name() == kind {
                    self.fire(q, i);
                    return;
                }
            }
        }
    }
}

fn child(i: usize, j: &Job) -> ! {
    arena::set(false);
    ME.store(i, Ordering::SeqCst);
    CHILD.store(true, Ordering::SeqCst);
    unsafe {
        // a runaway computation or allocation ends here rather than taking the machine with it
        let lim = libc::rlimit { rlim_cur: 20, rlim_max: 21 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    wait_turn(i as u32);
    // a panic must not unwind into the driver's frames below, whose objects are shared
    let code = crate::proc::run(|| (j.body)());
    exit_now(code)
}

/// End of the current simulated process with this status.
pub fn exit_now(code: i32) -> ! {
    arena::set(true);
    world().finish(End::Exit(code))
}
