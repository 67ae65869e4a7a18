//! Memory shared between the simulator and the simulated processes (which are forked from it).
//! Everything in the simulated world lives here; a process allocates here only while it is inside
//! the simulator (`on` is set), and from its private heap otherwise.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Arena;

static BASE: AtomicUsize = AtomicUsize::new(0);
static END: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
const SIZE: usize = 8 << 30;

#[repr(C)]
struct Head {
    lock: AtomicUsize,
    bump: usize,
    free: [usize; 48],
    pub used: usize,
}

pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "cannot map the arena");
        let h = p as *mut Head;
        (*h).bump = p as usize + 4096;
        END.store(p as usize + SIZE, Ordering::SeqCst);
        BASE.store(p as usize, Ordering::SeqCst);
    }
}

pub fn on() -> bool {
    ON.load(Ordering::Relaxed)
}

pub fn set(v: bool) -> bool {
    ON.swap(v, Ordering::Relaxed)
}

pub fn used() -> usize {
    unsafe { (*(BASE.load(Ordering::Relaxed) as *const Head)).used }
}

/// Is the allocator's lock held? (Looked at only when nobody can be running: a process died in it.)
pub fn locked() -> bool {
    unsafe { (*(BASE.load(Ordering::Relaxed) as *const Head)).lock.load(Ordering::SeqCst) != 0 }
}

/// High-water mark: how much of the mapping has ever been handed out.
pub fn high() -> usize {
    let b = BASE.load(Ordering::Relaxed);
    unsafe { (*(b as *const Head)).bump - b }
}

/// A zeroed block that is never freed (for shared synchronisation words and WAL index pages).
pub fn raw(size: usize) -> *mut u8 {
    unsafe {
        let p = take(size.max(64));
        std::ptr::write_bytes(p, 0, size);
        p
    }
}

fn class(size: usize) -> (usize, usize) {
    // four steps per power of two
    let s = size.max(16);
    let pow = (usize::BITS - (s - 1).leading_zeros()) as usize;
    if pow <= 6 {
        return (pow, 1 << pow);
    }
    if s > 1 << 16 {
        return (pow, 1 << pow);
    }
    (pow, 1 << pow)
}

unsafe fn take(size: usize) -> *mut u8 {
    let base = BASE.load(Ordering::Relaxed);
    let h = base as *mut Head;
    while (*h).lock.compare_exchange(0, 1, Ordering::Acquire, Ordering::Relaxed).is_err() {
        libc::sched_yield();
    }
    let (c, sz) = class(size);
    let p = (*h).free[c];
    let p = if p != 0 {
        (*h).free[c] = *(p as *const usize);
        p
    } else {
        let p = (*h).bump;
        let p = (p + 63) & !63;
        if p + sz > END.load(Ordering::Relaxed) {
            (*h).lock.store(0, Ordering::Release);
            return std::ptr::null_mut();
        }
        (*h).bump = p + sz;
        p
    };
    (*h).used += sz;
    (*h).lock.store(0, Ordering::Release);
    p as *mut u8
}

unsafe fn give(p: *mut u8, size: usize) {
    let h = BASE.load(Ordering::Relaxed) as *mut Head;
    while (*h).lock.compare_exchange(0, 1, Ordering::Acquire, Ordering::Relaxed).is_err() {
        libc::sched_yield();
    }
    let (c, sz) = class(size);
    *(p as *mut usize) = (*h).free[c];
    (*h).free[c] = p as usize;
    (*h).used -= sz;
    (*h).lock.store(0, Ordering::Release);
}

fn inside(p: *mut u8) -> bool {
    let p = p as usize;
    p >= BASE.load(Ordering::Relaxed) && p < END.load(Ordering::Relaxed)
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on() && l.align() <= 64 {
            take(l.size().max(l.align()))
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if inside(p) {
            give(p, l.size().max(l.align()))
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if inside(p) {
            let old = l.size().max(l.align());
            if class(old).0 == class(n.max(l.align())).0 {
                let h = BASE.load(Ordering::Relaxed) as *mut Head;
                let _ = h;
                return p;
            }
            let q = if on() { take(n.max(l.align())) } else { System.alloc(Layout::from_size_align_unchecked(n, l.align())) };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                give(p, old);
            }
            q
        } else if on() {
            // a private block grown while inside the simulator: moves to the arena
            let q = take(n.max(l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                System.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}
