//! What runs inside a simulated process.
use std::ffi::CString;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

static ARGV: AtomicUsize = AtomicUsize::new(0);
static ARGC: AtomicUsize = AtomicUsize::new(0);

/// The same vector std reads the arguments from; processes put their own command line there.
extern "C" fn grab(argc: i32, argv: *mut *mut i8, _env: *mut *mut i8) {
    ARGC.store(argc as usize, Ordering::SeqCst);
    ARGV.store(argv as usize, Ordering::SeqCst);
}

#[used]
#[link_section = ".init_array"]
static GRAB: extern "C" fn(i32, *mut *mut i8, *mut *mut i8) = grab;

const SLOTS: usize = 96;

/// Re-executes this binary with enough argument slots, if necessary.
pub fn ensure_slots() {
    if std::env::var_os("SNAPSIM_SLOTS").is_some() {
        return;
    }
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new("/proc/self/exe");
    c.args(std::env::args_os().skip(1));
    let have = std::env::args_os().count();
    for _ in have..SLOTS {
        c.arg("");
    }
    c.env("SNAPSIM_SLOTS", "1");
    panic!("cannot re-execute: {}", c.exec());
}

pub fn set_env() {
    // the standard hook names the kernel's thread id, which differs from run to run
    std::panic::set_hook(Box::new(|i| {
        eprintln!("thread 'main' panicked: {}", i);
    }));
    for (k, _) in std::env::vars_os() {
        if k != "SNAPSIM_SLOTS" && k != "PATH" {
            std::env::remove_var(k);
        }
    }
    std::env::set_var("HOME", "/home/jess");
    std::env::set_var("XDG_CACHE_HOME", "/home/jess/.cache");
    std::env::set_var("NO_COLOR", "1");
}

fn set_args(args: &[Vec<u8>]) {
    let argv = ARGV.load(Ordering::SeqCst) as *mut *mut i8;
    let argc = ARGC.load(Ordering::SeqCst);
    assert!(args.len() + 1 <= argc, "too few argument slots");
    unsafe {
        *argv = CString::new("snapcd").unwrap().into_raw();
        for (i, a) in args.iter().enumerate() {
            *argv.add(i + 1) = CString::new(&a[..]).unwrap().into_raw();
        }
        *argv.add(args.len() + 1) = std::ptr::null_mut();
    }
}

/// Run snapcd's own main with this command line; the value is the exit status.
pub fn cli(args: &[Vec<u8>]) -> i32 {
    set_args(args);
    run(|| simcli::__sim_main())
}

pub fn run(f: impl FnOnce() -> i32) -> i32 {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // what the Rust runtime does at exit
    let _ = std::io::stdout().flush();
    match r {
        Ok(c) => c,
        Err(_) => 101,
    }
}
