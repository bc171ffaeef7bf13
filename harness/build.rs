//! Compiles the C side of the harness against the header of the library.
use std::env;
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=src/shim.c");
    println!("cargo:rerun-if-changed=/repo/include/dcv_color_primitives.h");
    if env::var_os("CARGO_FEATURE_ISA").is_some() {
        return;
    }
    let out = env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/shim.o");
    let lib = format!("{out}/libshim.a");
    let ok = Command::new("gcc")
        .args(["-O1", "-g", "-Wall", "-c", "src/shim.c", "-o", &obj, "-I/repo/include"])
        .status()
        .unwrap()
        .success();
    assert!(ok, "shim.c does not compile against the header");
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=shim");
}
