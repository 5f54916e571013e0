//! Takes the command line tool's source from the repository and makes it use
//! `simstd` for `std`; everything else stays as it is.
use std::{env, fs, path::Path};

const BIN: &str = "/repo/src/bin";

fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
/// `std` as the head of a path becomes `simstd`.
fn seam(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    let mut from = 0;
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"std::") && (i == 0 || !word(b[i - 1])) {
            out.push_str(&s[from..i]);
            out.push_str("simstd::");
            i += 5;
            from = i;
        } else {
            i += 1;
        }
    }
    out.push_str(&s[from..]);
    out
}
fn take(dir: &Path, file: &Path) -> String {
    println!("cargo:rerun-if-changed={}", file.display());
    let src = fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
    let mut out = String::new();
    for line in src.lines() {
        let t = line.trim();
        if t.starts_with("include!") && t.contains("version.rs") {
            out.push_str("include!(concat!(env!(\"OUT_DIR\"), \"/version.rs\"));\n".replace("env!", "core::env!").as_str());
            continue;
        }
        if t.starts_with("#![") {
            if t.replace(' ', "") == "#![cfg(test)]" {
                return String::new();
            }
            out.push('\n');
            continue;
        }
        let m = t.trim_start_matches("pub ").trim_start_matches("pub(crate) ");
        if m.starts_with("mod ") && m.ends_with(';') {
            let name = m[4..m.len() - 1].trim();
            let one = dir.join(format!("{}.rs", name));
            let two = dir.join(name).join("mod.rs");
            let body = if one.exists() { take(&dir.join(name), &one) } else { take(&dir.join(name), &two) };
            out.push_str(&format!("{} {{\n{}\n}}\n", &line[..line.len() - 1 - (line.len() - line.trim_end().len())], body));
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    seam(&out)
}
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let out = Path::new(&out);
    let bin = Path::new(BIN);
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={}", BIN);
    fs::write(out.join("cli.rs"), take(bin, &bin.join("divans.rs"))).unwrap();
    let mut v = String::new();
    for f in ["now", "short_now", "sha", "short_sha", "commit_date", "target", "semver"] {
        v.push_str(&format!("#[allow(dead_code)] pub fn {}() -> &'static str {{ \"simulated\" }}\n", f));
    }
    fs::write(out.join("version.rs"), v).unwrap();
}
