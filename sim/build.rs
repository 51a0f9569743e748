fn main() {
    // The simulated entropy source and clock are defined in this executable;
    // export them so that look-ups through dlsym find them as well.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
