use std::path::{Path, PathBuf};
use std::{env, fs};
const FROM: &str = "/repo/unreal_mod_manager/src";
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap().flatten() {
        let (f, t) = (e.path(), to.join(e.file_name()));
        if f.is_dir() {
            copy(&f, &t);
        } else {
            fs::copy(&f, &t).unwrap();
        }
    }
}
fn main() {
    let here = PathBuf::from(env::var_os("CARGO_MANIFEST_DIR").unwrap());
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=src");
    println!("cargo:rerun-if-changed={FROM}");
    let to = PathBuf::from(env::var_os("OUT_DIR").unwrap()).join("mm");
    fs::remove_dir_all(&to).ok();
    copy(Path::new(FROM), &to);
    fs::remove_dir_all(to.join("app")).ok();
    fs::copy(here.join("src/app_standin.rs"), to.join("app.rs")).unwrap();
    // inner attributes and inner documentation cannot be included into the root module
    let lib = to.join("lib.rs");
    let text: String = fs::read_to_string(&lib)
        .unwrap()
        .lines()
        .filter(|l| !l.starts_with("#![") && !l.starts_with("//!"))
        .map(|l| format!("{l}\n"))
        .collect();
    fs::write(lib, text).unwrap();
}
