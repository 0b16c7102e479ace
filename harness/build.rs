use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=tsan.c");
    let out = format!("{}/tsan.o", std::env::var("OUT_DIR").unwrap());
    let ok = Command::new("gcc").args(["-O2", "-fPIC", "-c", "tsan.c", "-o", &out]).status().unwrap().success();
    assert!(ok, "gcc failed");
    println!("cargo:rustc-link-arg={out}");
}
