fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var("CARGO_CFG_MIRI").is_ok() {
        return;
    }
    // MPFR is installed as a runtime library only (no libmpfr.so, no headers).
    for d in ["/usr/lib/x86_64-linux-gnu", "/usr/lib64", "/usr/lib", "/usr/lib/aarch64-linux-gnu"] {
        let p = format!("{d}/libmpfr.so.6");
        if std::path::Path::new(&p).exists() {
            println!("cargo:rustc-link-arg={p}");
            return;
        }
    }
    println!("cargo:rustc-link-arg=-l:libmpfr.so.6");
}
