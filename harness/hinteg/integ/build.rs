use std::{env, fs, path::PathBuf};
fn main() {
    let from = PathBuf::from(env::var_os("CARGO_MANIFEST_DIR").unwrap()).join("../standin");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={}", from.display());
    let to = PathBuf::from(env::var_os("OUT_DIR").unwrap())
        .join("ModIntegrator/Saved/Cooked/WindowsNoEditor/ModIntegrator/Content/Integrator");
    fs::create_dir_all(&to).unwrap();
    for e in fs::read_dir(&from).unwrap().flatten() {
        fs::copy(e.path(), to.join(e.file_name())).unwrap();
    }
}
