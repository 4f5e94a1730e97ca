fn main() {
    // Export our `getrandom` so that both std (weak symbol) and the getrandom
    // crate (dlsym) resolve to it: the entropy seam of the simulator.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
