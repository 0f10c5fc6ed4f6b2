//! Compiles the shim around LLVM's demangler (the independent implementation the `llvm` oracle
//! compares with). Without LLVM's library the crate still builds; the oracle then reports itself
//! unavailable.
use std::path::Path;
use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=shim/llvm.cpp");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(have_llvm)");
    let out = std::env::var("OUT_DIR").unwrap();
    let (inc, lib) = ("/usr/include/llvm-18", "/usr/lib/llvm-18/lib");
    if !Path::new(lib).join("libLLVMDemangle.a").exists() {
        return;
    }
    let obj = format!("{out}/llvm.o");
    let ok = Command::new("g++")
        .args(["-O1", "-std=c++17", "-fPIC", "-c", "shim/llvm.cpp", "-I", inc, "-o", &obj])
        .status()
        .is_ok_and(|s| s.success());
    if !ok {
        return;
    }
    let ar = format!("{out}/libverifllvm.a");
    let _ = std::fs::remove_file(&ar);
    let ok = Command::new("ar").args(["crs", &ar, &obj]).status().is_ok_and(|s| s.success());
    if !ok {
        return;
    }
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-search=native={lib}");
    println!("cargo:rustc-link-lib=static=verifllvm");
    println!("cargo:rustc-link-lib=static=LLVMDemangle");
    println!("cargo:rustc-link-lib=stdc++");
    println!("cargo:rustc-cfg=have_llvm");
}
