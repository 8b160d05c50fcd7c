//! Writes the stand-ins of the integrator's cooked assets into the directory given.
#[allow(dead_code)]
mod mini;
use mini::Mini;
use std::fs;
use std::path::Path;

fn main() {
    let dir = std::env::args().nth(1).expect("a directory");
    let put = |n: &str, m: Mini| {
        let (a, b) = m.build();
        fs::write(Path::new(&dir).join(format!("{n}.uasset")), a).unwrap();
        fs::write(Path::new(&dir).join(format!("{n}.uexp")), b).unwrap();
    };
    // the table of mods, with one row
    let mut m = Mini::default();
    let table = m.class("/Script/Engine", "DataTable");
    let pk = m.import("/Script/CoreUObject", "Package", 0, "/Game/Integrator/Mod");
    let row = m.import("/Script/Engine", "UserDefinedStruct", pk, "Mod");
    let mut w = vec![];
    m.obj_prop(&mut w, "RowStruct", row);
    m.end(&mut w);
    w.extend(0i32.to_le_bytes());
    w.extend(1i32.to_le_bytes());
    w.extend(m.name("ExampleMod"));
    for (k, n) in ["Name_2_0A", "Author_5_1B", "Description_8_2C", "Version_11_3D", "GameBuild_14_4E"].iter().enumerate() {
        m.str_prop(&mut w, n, &format!("text {k}"));
    }
    m.enum_byte_prop(&mut w, "Sync_17_5F", "SyncMode", "SyncMode::NewEnumerator1");
    m.str_prop(&mut w, "Homepage_20_6A", "https://example.com");
    m.bool_prop(&mut w, "Optional_23_7B", false);
    m.end(&mut w);
    m.export(table, 0, "ListOfMods", w);
    put("ListOfMods", m);
    // the statics: a class with default values
    let mut m = Mini::default();
    let c = m.class("/Script/Engine", "BlueprintFunctionLibraryX");
    let plain = |m: &mut Mini, name: &str, v: i32| {
        let mut w = vec![];
        m.int_prop(&mut w, "Value", v);
        m.end(&mut w);
        w.extend([0; 4]);
        m.export(c, 0, name, w)
    };
    plain(&mut m, "IntegratorStatics_BP", 1);
    plain(&mut m, "IntegratorStatics_BP_C", 2);
    let mut w = vec![];
    m.str_prop(&mut w, "IntegratorVersion", "unset");
    m.bool_prop(&mut w, "RefuseMismatchedConnections", false);
    m.end(&mut w);
    w.extend([0; 4]);
    m.export(2, 0, "Default__IntegratorStatics_BP_C", w);
    let mut w = vec![];
    m.int_prop(&mut w, "Value", 3);
    m.end(&mut w);
    w.extend([0; 4]);
    m.export(c, 0, "ExecuteUbergraph", w);
    put("IntegratorStatics_BP", m);
    for (k, n) in ["Mod", "ModIntegrator", "ModIntegratorComponent", "ModMismatchWidget", "SyncMode"].iter().enumerate() {
        let mut m = Mini::default();
        let c = m.class("/Script/Engine", "Thing");
        let mut w = vec![];
        m.int_prop(&mut w, "Value", k as i32 * 7);
        m.end(&mut w);
        w.extend([0; 4]);
        m.export(c, 0, n, w);
        put(n, m);
    }
}
