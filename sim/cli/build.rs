//! Copies /repo/src (so that `mod x;` in main.rs would still resolve), drops main.rs's crate-level
//! inner attributes (not legal in an included file) and appends one function that runs its `main`
//! and yields the exit status the way the Rust runtime does.
use std::{env, fs, path::Path, path::PathBuf};

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let dst = to.join(e.file_name());
        if e.path().is_dir() {
            copy(&e.path(), &dst);
        } else {
            fs::write(dst, fs::read(e.path()).unwrap()).unwrap();
        }
    }
}

fn main() {
    let src = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("../../../repo/src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=build.rs");
    let dst = PathBuf::from(env::var("OUT_DIR").unwrap()).join("src");
    copy(&src, &dst);
    let main_rs = fs::read_to_string(src.join("main.rs")).expect("read /repo/src/main.rs");
    let mut out = String::new();
    let mut skip = false;
    for line in main_rs.lines() {
        let t = line.trim_start();
        if !skip && t.starts_with("#![") && !t.trim_end().ends_with(']') {
            skip = true;
        } else if skip {
            skip = !t.trim_end().ends_with(']');
        } else if !t.starts_with("#![") && !t.starts_with("//!") {
            out.push_str(line);
        }
        out.push('\n');
    }
    out.push_str(
        "\npub fn __sim_main() -> i32 {\n    let code = std::process::Termination::report(main());\n    if code == std::process::ExitCode::SUCCESS { 0 } else { 1 }\n}\n",
    );
    fs::write(dst.join("cli_main.rs"), out).unwrap();
}
