fn main() {
    // the simulator's definitions of libc and SQLite entry points must win over the libraries'
    println!("cargo:rustc-link-arg=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
