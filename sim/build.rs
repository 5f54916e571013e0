//! Compiles the C calls against the repository's C header. If they do not fit
//! it, C17 says so, and everything else calls the functions directly.
use std::{env, fs, process::Command};

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=shim.c");
    println!("cargo:rerun-if-changed=/repo/c/divans");
    println!("cargo:rustc-check-cfg=cfg(c_header)");
    let cc = env::var("CC").unwrap_or("cc".to_string());
    let obj = format!("{}/shim.o", out);
    let r = Command::new(&cc)
        .args(["-O1", "-fPIC", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-I/repo/c", "-c", "shim.c", "-o", &obj])
        .output();
    let say = |s: &str| fs::write(format!("{}/header.txt", out), s).unwrap();
    match r {
        Ok(r) if r.status.success() => {
            let lib = format!("{}/libdivshim.a", out);
            let _ = fs::remove_file(&lib);
            assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
            println!("cargo:rustc-link-search=native={}", out);
            println!("cargo:rustc-link-lib=static=divshim");
            println!("cargo:rustc-cfg=c_header");
            say("");
        },
        Ok(r) => {
            let e = String::from_utf8_lossy(&r.stderr).into_owned();
            say(e.lines().find(|l| l.contains("error")).unwrap_or("it does not compile"));
        },
        Err(e) => panic!("{}: {}", cc, e),
    }
}
