fn main() {
    // libz3 is installed by the distribution (libz3-dev).
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
