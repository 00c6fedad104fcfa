fn main() {
    println!("cargo:rustc-link-lib=dylib=python3.12");
    println!("cargo:rerun-if-changed=build.rs");
}
