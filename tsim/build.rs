use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let ok = Command::new("gcc").args(["-O1", "-g", "-fPIC", "-Wall", "-c"]).arg(format!("{dir}/rt.c")).arg("-o").arg(format!("{out}/rt.o")).status().expect("gcc").success();
    assert!(ok);
    println!("cargo:rustc-link-arg={out}/rt.o");
    println!("cargo:rustc-link-arg=-ldl");
    println!("cargo:rerun-if-changed=rt.c");
}
