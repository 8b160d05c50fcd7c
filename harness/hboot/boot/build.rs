use std::{env, fs, path::PathBuf};
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = PathBuf::from(env::var_os("OUT_DIR").unwrap());
    for (var, name) in [("CPP_LOADER_DLL_PATH", "loader.dll"), ("CPP_LOADER_PROXY_PATH", "proxy.dll")] {
        let p = out.join(name);
        fs::write(&p, name).unwrap();
        println!("cargo:rustc-env={var}={}", p.display());
    }
}
