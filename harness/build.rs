fn main() {
    // Lets dlsym() users (std's weak symbols) find the interposed entry points too.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
