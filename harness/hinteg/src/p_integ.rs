//! Integration of mods: what the generated pak holds, who gets called with what, and what failures leave.
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs::{self};
use unreal_asset_exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset_properties::int_property::BytePropertyValue;
use unreal_asset_properties::{Property as P, PropertyDataTrait};
use unreal_mod_integrator::helpers::{find_asset, get_asset, write_asset};
use unreal_mod_integrator::*;
use unreal_pak::{pakversion::PakVersion, PakMemory};
use vkit::*;

macro_rules! stand {
    ($($n:literal),*) => { &[ $( ($n, include_bytes!(concat!("../standin/", $n))) ),* ] };
}
const COPIED: &[(&str, &[u8])] = stand!(
    "Mod.uasset", "Mod.uexp", "ModIntegrator.uasset", "ModIntegrator.uexp", "ModIntegratorComponent.uasset",
    "ModIntegratorComponent.uexp", "ModMismatchWidget.uasset", "ModMismatchWidget.uexp", "SyncMode.uasset", "SyncMode.uexp"
);
const COLUMNS: [&str; 8] =
    ["Name_2_0A", "Author_5_1B", "Description_8_2C", "Version_11_3D", "GameBuild_14_4E", "Sync_17_5F", "Homepage_20_6A", "Optional_23_7B"];

pub struct World {
    pub dir: Scratch,
    pub game: usize,
    pub refuse: bool,
    pub conf: Config,
    /// the mods given, in order: a pak with this metadata, or a dynamic mod
    pub given: Vec<Given>,
    pub games: Vec<Vec<String>>,
    pub before: Option<Vec<u8>>,
}
pub enum Given {
    File(std::path::PathBuf, Meta, Tree),
    Dynamic(String, Act),
}
fn sync_name(m: &Meta) -> &'static str {
    match m.sync {
        None | Some("serverclient") => "SyncMode::NewEnumerator3",
        Some("server") => "SyncMode::NewEnumerator2",
        Some("client") => "SyncMode::NewEnumerator1",
        _ => "SyncMode::NewEnumerator0",
    }
}
fn blob_tree(s: &mut Src, n: usize, pre: &str) -> Tree {
    (0..s.size(n))
        .map(|k| {
            let l = s.size(40);
            (format!("{pre}/{}{k}.bin", s.ascii_ident(4)), s.blob(l))
        })
        .collect()
}

impl World {
    pub fn gen(s: &mut Src, mods: usize, dynamic: bool, keys: &[&str]) -> World {
        let dir = Scratch::new();
        let game = s.below(2);
        // the game
        let mut games = vec![];
        for k in 0..s.urange(1, 3) {
            let mut t = blob_tree(s, 3, "Game/Content");
            t.insert(format!("marker{k}"), vec![k as u8]);
            games.push(t.keys().cloned().collect());
            write_pak(s, &dir.at(&format!("game/pakchunk{k}.pak")), &t);
        }
        games.sort();
        for n in ["readme.txt", "pak", "x.pak.sig", "y.ucas"] {
            if s.chance(1, 4) {
                fs::write(dir.at(&format!("game/{n}")), b"not a pak").unwrap();
            }
        }
        // the mods
        let mut given = vec![];
        for k in 0..mods {
            let id = mod_id(s, k);
            if dynamic && s.chance(1, 4) {
                let a = Act { put: vec![(format!("dyn/{k}"), vec![k as u8]), ("shared".into(), vec![k as u8])], fail: false };
                given.push(Given::Dynamic(id, a));
                continue;
            }
            let mut m = Meta::gen(s, id);
            for key in keys {
                if s.chance(2, 3) {
                    let v = value(s, 2);
                    m.integrator.insert(key.to_string(), v);
                }
            }
            let mut t = blob_tree(s, 3, "Game/Content/Mods");
            t.insert("metadata.json".into(), m.json());
            t.insert(format!("mod{k}"), vec![]);
            let p = dir.at(&format!("mods/{k:03}-mod.pak"));
            write_pak(s, &p, &t);
            given.push(Given::File(p, m, t));
        }
        // mods that come with the program
        let mut baked = vec![];
        for k in 0..s.size(3) {
            let mut meta = Meta::gen(s, format!("Baked{k}"));
            for key in keys {
                if s.chance(1, 3) {
                    let v = value(s, 1);
                    meta.integrator.insert(key.to_string(), v);
                }
            }
            let mut t = Tree::new();
            t.insert("metadata.json".into(), meta.json());
            t.insert(format!("baked{k}"), vec![]);
            let data: &'static [u8] = Box::leak(pak_bytes(s, &t).into_boxed_slice());
            // an older and longer file may be there already
            let file = ["800-B0_P.pak", "801-B1_P.pak", "802-B2_P.pak"][k];
            let core = s.chance(2, 3);
            if core && s.chance(1, 4) {
                fs::write(dir.at("paks").join(file), vec![7; data.len() + 100]).unwrap();
            }
            baked.push(Baked { meta, core, file, data });
        }
        // shorter or longer than the new one
        let before = s.chance(1, 3).then(|| {
            let n = if s.flag() { 5000 } else { 400_000 };
            vec![s.byte(); n]
        });
        if let Some(b) = &before {
            fs::write(dir.at("paks").join(INTEGRATOR_PAK_FILE_NAME), b).unwrap();
        }
        let conf = Config { data: s.below(8) as u64, baked, ..Default::default() };
        World { dir, game, refuse: s.flag(), conf, given, games, before }
    }
    pub fn mods(&self) -> Vec<IntegratorMod<Oops>> {
        self.given
            .iter()
            .enumerate()
            .map(|(k, g)| match g {
                Given::File(p, m, _) => FileMod { path: p.clone(), mod_id: m.id.clone(), priority: k as u32 }.into(),
                Given::Dynamic(id, a) => IntegratorMod::Dynamic(Box::new(Dynamic { id: id.clone(), act: a.clone(), log: self.conf.log.clone() })),
            })
            .collect()
    }
    pub fn metas(&self) -> Vec<&Meta> {
        let f = self.given.iter().filter_map(|g| match g {
            Given::File(_, m, _) => Some(m),
            _ => None,
        });
        f.chain(self.conf.baked.iter().filter(|b| b.core).map(|b| &b.meta)).collect()
    }
    pub fn run(&self) -> Result<Result<(), Error>, (String, String)> {
        integrate(self.game, &self.conf, &self.mods(), &self.dir.at("paks"), &self.dir.at("game"), self.refuse)
    }
    pub fn name(&self) -> &'static str {
        GAMES[self.game].0
    }
    pub fn out(&self) -> std::path::PathBuf {
        self.dir.at("paks").join(INTEGRATOR_PAK_FILE_NAME)
    }
    pub fn must(&self, s: &mut Src) -> Res {
        for m in self.metas() {
            s.note(clip(&format!("{m:?}")));
        }
        match self.run() {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => fail(format!("integrate: refused: {}", norm(&e.to_string())), e.to_string()),
            Err((m, at)) => fail(format!("integrate: panic {}", norm(&m)), format!("{m} at {at}")),
        }
    }
}

fn text(p: &P) -> Option<String> {
    match p {
        P::StrProperty(x) => Some(x.value.clone().unwrap_or_default()),
        P::ByteProperty(x) => match &x.value {
            BytePropertyValue::FName(n) => Some(format!("{}:{}", x.enum_type.as_ref().map(|e| e.get_owned_content()).unwrap_or_default(), n.get_owned_content())),
            v => Some(format!("{v:?}")),
        },
        P::BoolProperty(x) => Some(x.value.to_string()),
        P::IntProperty(x) => Some(x.value.to_string()),
        P::ObjectProperty(x) => Some(format!("->{}", x.value.index)),
        _ => None,
    }
}
fn row(props: &[P]) -> Vec<(String, Option<String>, i32)> {
    props.iter().map(|p| (p.get_name().get_owned_content(), text(p), p.get_duplication_index())).collect()
}

/// the table of mods and the statics
fn check_assets(s: &mut Src, w: &World, t: &Tree) -> Res {
    let pre = format!("{}/Content/Integrator/", w.name());
    let a = parse(t, &format!("{pre}ListOfMods.uasset"))?;
    ensure_eq!(s, a.asset_data.exports.len(), 1, "list: exports", "exports of the list of mods");
    let Export::DataTableExport(d) = &a.asset_data.exports[0] else {
        return fail("list: not a table", "the export of the list of mods is no data table");
    };
    let head = row(&d.normal_export.properties);
    ensure_eq!(s, head, vec![("RowStruct".to_string(), Some("->-4".to_string()), 0)], "list: head", "properties of the list of mods");
    let metas = w.metas();
    let ids: Vec<String> = d.table.data.iter().map(|r| r.name.get_owned_content()).collect();
    let want: Vec<String> = metas.iter().map(|m| m.id.clone()).collect();
    ensure_eq!(s, ids, want, "list: the mods listed", "ids of the listed mods");
    for (r, m) in d.table.data.iter().zip(&metas) {
        let st = r.struct_type.as_ref().map(|e| e.get_owned_content());
        ensure_eq!(s, st.as_deref(), Some("Mod"), "list: row type", "type of the row");
        let e = |x: &Option<String>| x.clone().unwrap_or_default();
        let vals = [
            m.name.clone(),
            e(&m.author),
            e(&m.description),
            m.version.clone(),
            e(&m.build),
            format!("SyncMode:{}", sync_name(m)),
            e(&m.homepage),
            "true".to_string(),
        ];
        let want: Vec<(String, Option<String>, i32)> = COLUMNS.iter().zip(vals).map(|(c, v)| (c.to_string(), Some(v), 0)).collect();
        let got = row(&r.value);
        for (g, x) in got.iter().zip(&want) {
            ensure_eq!(s, g, x, format!("list: column {}", x.0), "{} of mod {}", x.0, m.id);
        }
        ensure_eq!(s, got.len(), 8, "list: number of columns", "columns of a row");
    }
    let a = parse(t, &format!("{pre}IntegratorStatics_BP.uasset"))?;
    let got: Vec<(String, Vec<(String, Option<String>, i32)>)> = a
        .asset_data
        .exports
        .iter()
        .map(|e| (e.get_base_export().object_name.get_owned_content(), e.get_normal_export().map(|n| row(&n.properties)).unwrap_or_default()))
        .collect();
    let int = |n: &str, v: i32| (n.to_string(), vec![("Value".to_string(), Some(v.to_string()), 0)]);
    let want = vec![
        int("IntegratorStatics_BP", 1),
        int("IntegratorStatics_BP_C", 2),
        (
            "Default__IntegratorStatics_BP_C".to_string(),
            vec![
                ("IntegratorVersion".to_string(), Some(GAMES[w.game].1.to_string()), 0),
                ("RefuseMismatchedConnections".to_string(), Some(w.refuse.to_string()), 0),
            ],
        ),
        int("ExecuteUbergraph", 3),
    ];
    ensure_eq!(s, got, want, "statics", "the integrator statics");
    Ok(())
}
pub fn fixed_entries(w: &World) -> Vec<String> {
    let pre = format!("{}/Content/Integrator/", w.name());
    let mut v: Vec<String> = COPIED.iter().map(|e| format!("{pre}{}", e.0)).collect();
    for n in ["ListOfMods.uasset", "ListOfMods.uexp", "IntegratorStatics_BP.uasset", "IntegratorStatics_BP.uexp"] {
        v.push(format!("{pre}{n}"));
    }
    v.push("metadata.json".into());
    v.sort();
    v
}
fn check_copied(s: &mut Src, w: &World, t: &Tree) -> Res {
    for (n, d) in COPIED {
        let k = format!("{}/Content/Integrator/{n}", w.name());
        ensure!(s, t.get(&k).map(|e| &e[..]) == Some(*d), "copied: differs", "{k} is not the file that comes with the integrator");
    }
    let m: Value = match serde_json::from_slice(&t["metadata.json"]) {
        Ok(m) => m,
        Err(e) => return fail("metadata: not json", e.to_string()),
    };
    ensure_eq!(s, m["mod_id"], json!("AstroModIntegrator"), "metadata: id", "the id in the metadata of the integrated pak");
    Ok(())
}

fn output(s: &mut Src) -> Res {
    let n = s.size(5);
    let w = World::gen(s, n, true, &["item_lists"]);
    let disk = [files(&w.dir.at("game")), files(&w.dir.at("mods"))];
    w.must(s)?;
    let now = [files(&w.dir.at("game")), files(&w.dir.at("mods"))];
    ensure!(s, disk == now, "files: changed", "files of the game or the mods changed");
    // mods that come with the program and are always there are put beside the pak
    let mut beside = files(&w.dir.at("paks"));
    let out = beside.remove(INTEGRATOR_PAK_FILE_NAME);
    let want: Tree = w.conf.baked.iter().filter(|b| b.core).map(|b| (b.file.to_string(), b.data.to_vec())).collect();
    ensure!(s, beside == want, "baked mods: files", "files beside the integrated pak: {:?}, expected {:?}", beside.keys(), want.keys());
    if n == 0 {
        s.class("no mods");
        ensure!(s, out == w.before, "no mods: pak touched", "without mods the integrated pak was written");
        return Ok(());
    }
    s.class(format!("{n} mods"));
    if w.metas().len() > 1 {
        s.nontrivial();
    }
    let t = read_pak(&w.out())?;
    let mut want = fixed_entries(&w);
    for g in &w.given {
        if let Given::Dynamic(_, a) = g {
            s.class("dynamic mod");
            want.extend(a.put.iter().map(|e| e.0.clone()));
        }
    }
    want.sort();
    want.dedup();
    ensure_eq!(s, t.keys().cloned().collect::<Vec<_>>(), want, "output: entries", "entries of the integrated pak");
    check_copied(s, &w, &t)?;
    check_assets(s, &w, &t)
}

/// mods that are optional come in only with a mod of their id
fn optional(s: &mut Src) -> Res {
    let n = s.urange(1, 3);
    let mut w = World::gen(s, n, false, &["item_lists"]);
    for k in 0..w.conf.baked.len() {
        w.conf.baked[k].core = false;
        let at = w.dir.at("paks").join(w.conf.baked[k].file);
        fs::remove_file(&at).ok();
        let id = w.conf.baked[k].meta.id.clone();
        match s.below(5) {
            0 | 1 => {
                w.given.push(Given::Dynamic(id, Act::default()));
                if s.chance(1, 3) {
                    fs::write(at, vec![7; w.conf.baked[k].data.len() + 100]).unwrap();
                }
                s.nontrivial();
            }
            2 => {
                // another mod
                let id = match s.below(3) {
                    0 => id.to_uppercase(),
                    1 => id.to_lowercase(),
                    _ => format!("{id}x"),
                };
                w.given.push(Given::Dynamic(id, Act::default()));
                s.nontrivial();
            }
            _ => {}
        }
    }
    w.must(s)?;
    let on: Vec<&Baked> = w
        .conf
        .baked
        .iter()
        .filter(|b| w.given.iter().any(|g| matches!(g, Given::Dynamic(id, _) if *id == b.meta.id)))
        .collect();
    let mut beside = files(&w.dir.at("paks"));
    beside.remove(INTEGRATOR_PAK_FILE_NAME);
    let want: Tree = on.iter().map(|b| (b.file.to_string(), b.data.to_vec())).collect();
    ensure!(s, beside == want, "optional mods: files", "files beside the integrated pak: {:?}, expected {:?}", beside.keys(), want.keys());
    let t = read_pak(&w.out())?;
    let a = parse(&t, &format!("{}/Content/Integrator/ListOfMods.uasset", w.name()))?;
    let Export::DataTableExport(d) = &a.asset_data.exports[0] else {
        return fail("list: not a table", "the export of the list of mods is no data table");
    };
    let ids: Vec<String> = d.table.data.iter().map(|r| r.name.get_owned_content()).collect();
    let mut want: Vec<String> = w.metas().iter().map(|m| m.id.clone()).collect();
    want.extend(on.iter().map(|b| b.meta.id.clone()));
    ensure_eq!(s, ids, want, "optional mods: listed", "ids of the listed mods");
    Ok(())
}

fn failures(s: &mut Src) -> Res {
    let n = s.urange(1, 4);
    let mut w = World::gen(s, n, true, &["h0"]);
    let files_at: Vec<std::path::PathBuf> = w
        .given
        .iter()
        .filter_map(|g| match g {
            Given::File(p, ..) => Some(p.clone()),
            _ => None,
        })
        .collect();
    let kind = s.below(if files_at.is_empty() { 5 } else { 9 });
    let what = ["no game", "damaged game pak", "failing handler", "failing dynamic mod", "core mod in the way", "damaged mod pak", "mod without metadata", "invalid metadata", "missing mod file"][kind];
    s.class(what);
    match kind {
        0 => {
            for e in fs::read_dir(w.dir.at("game")).unwrap().flatten() {
                if e.path().extension().map_or(false, |x| x == "pak") {
                    fs::remove_file(e.path()).unwrap();
                }
            }
        }
        1 => {
            let l = s.size(300);
            let b = s.blob(l);
            fs::write(w.dir.at("game/pakchunk0.pak"), b).unwrap();
        }
        2 => {
            for k in 0..s.urange(1, 3) {
                w.conf.handlers.insert(format!("h{k}"), Act { put: vec![], fail: k == 0 });
            }
        }
        3 => {
            let at = s.below(w.given.len() + 1);
            w.given.insert(at, Given::Dynamic("Failing".into(), Act { put: vec![("x".into(), vec![1])], fail: true }));
        }
        4 => {
            // a directory where a core mod has to be written
            let meta = Meta::gen(s, "Core9".into());
            let data: &'static [u8] = Box::leak(pak_bytes(s, &[("metadata.json".to_string(), meta.json())].into()).into_boxed_slice());
            w.conf.baked.push(Baked { meta, core: true, file: "809-B9_P.pak", data });
            fs::create_dir(w.dir.at("paks").join("809-B9_P.pak")).unwrap();
        }
        8 => {
            let p = s.pick(&files_at).clone();
            fs::remove_file(p).unwrap();
        }
        5 => {
            let p = s.pick(&files_at).clone();
            let l = s.size(300);
            let b = s.blob(l);
            fs::write(p, b).unwrap();
        }
        6 => {
            let p = s.pick(&files_at).clone();
            write_pak(s, &p, &[("a".to_string(), vec![1])].into());
        }
        _ => {
            let p = s.pick(&files_at).clone();
            let j = s.pick(&["", "{", "[]", "{\"schema_version\":2}", "{\"schema_version\":99,\"name\":\"a\",\"mod_id\":\"b\",\"version\":\"1\"}", "null"]).as_bytes().to_vec();
            write_pak(s, &p, &[("metadata.json".to_string(), j)].into());
        }
    }
    s.nontrivial();
    let disk = [files(&w.dir.at("game")), files(&w.dir.at("mods"))];
    match w.run() {
        Ok(Err(e)) => {
            let m = e.to_string();
            match kind {
                0 => ensure_eq!(s, m, "Game not found", "failures: wrong error without a game", "error"),
                2 => ensure_eq!(s, m, "oops h0", "failures: wrong error of a handler", "error"),
                3 => ensure_eq!(s, m, "oops Failing", "failures: wrong error of a dynamic mod", "error"),
                _ => {}
            };
        }
        Ok(Ok(())) => return fail(format!("failures: {what} goes unnoticed"), "integration succeeded"),
        Err((m, at)) => return fail(format!("integrate: panic {}", norm(&m)), format!("{what}: {m} at {at}")),
    }
    ensure!(s, fs::read(w.out()).ok() == w.before, "failures: pak touched", "a failed integration ({what}) changed the integrated pak");
    let now = [files(&w.dir.at("game")), files(&w.dir.at("mods"))];
    ensure!(s, disk == now, "files: changed", "files of the game or the mods changed");
    Ok(())
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}

/// child process of `disk_full`: integrates where no file may grow beyond a little less than what is needed
pub fn limited(seed: u64) {
    let mut s = Src::random(seed);
    let n = s.urange(1, 4);
    let w = World::gen(&mut s, n, true, &["h0"]);
    if !matches!(w.run(), Ok(Ok(()))) {
        println!("unlimited-fails");
        return;
    }
    let size = fs::metadata(w.out()).map(|m| m.len()).unwrap_or(0);
    let less = if s.chance(2, 3) { s.urange(1, 500) } else { s.urange(1, 9000) } as u64;
    let mut s = Src::random(seed);
    let n = s.urange(1, 4);
    let w = World::gen(&mut s, n, true, &["h0"]);
    let limit = size.saturating_sub(less);
    unsafe {
        signal(25, 1); // SIGXFSZ: have the write fail instead
        setrlimit(1, &[limit, limit]); // RLIMIT_FSIZE
    }
    match w.run() {
        Ok(Err(_)) => println!("refused"),
        Ok(Ok(())) => {
            let readable = fs::read(w.out()).ok().map_or(false, |b| {
                let mut p = unreal_pak::PakReader::new(std::io::Cursor::new(b));
                p.load_index().is_ok() && p.iter().all(|(_, d)| d.is_ok())
            });
            println!("{}", if readable { "complete" } else { "cut-off" });
        }
        Err((m, _)) => println!("panic {m}"),
    }
}

/// the disk fills up while the integrated pak is written
fn disk_full(s: &mut Src) -> Res {
    let seed = s.draw(1 << 40);
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("limited").arg(seed.to_string()).output().expect("child process");
    let said = String::from_utf8_lossy(&o.stdout).trim().to_string();
    s.note(format!("seed {seed}: {said}"));
    s.class(said.split(' ').next().unwrap_or("").to_string());
    if said == "refused" || said == "cut-off" {
        s.nontrivial();
    }
    ensure!(s, said != "cut-off", "disk-full: unreported", "integration succeeded although the integrated pak was cut off");
    ensure!(s, !said.starts_with("panic"), "disk-full: panic", "integration panicked on a full disk: {said}");
    Ok(())
}

fn calls(s: &mut Src) -> Res {
    const KEYS: [&str; 4] = ["linked_actor_components", "item_list_entries", "h €", "unused"];
    let n = s.urange(1, 5);
    let mut w = World::gen(s, n, true, &KEYS);
    for k in 0..4 {
        if s.chance(2, 3) {
            let name = if k == 3 { "nobody" } else { KEYS[k] };
            let put = if s.flag() { vec![(format!("handler/{k}"), vec![k as u8; 3])] } else { vec![] };
            w.conf.handlers.insert(name.to_string(), Act { put, fail: false });
        }
    }
    w.must(s)?;
    let log = w.conf.log.borrow().clone();
    let mut mods: Vec<Vec<String>> = w
        .given
        .iter()
        .filter_map(|g| match g {
            Given::File(_, _, t) => Some(t.keys().cloned().collect()),
            _ => None,
        })
        .collect();
    for (k, b) in w.conf.baked.iter().enumerate() {
        if b.core {
            mods.push(vec![format!("baked{k}"), "metadata.json".to_string()]);
        }
    }
    let mut entries: std::collections::BTreeSet<String> = fixed_entries(&w).into_iter().collect();
    // dynamic mods, in order
    let mut at = 0;
    let mut final_puts: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for g in &w.given {
        let Given::Dynamic(id, a) = g else { continue };
        s.class("dynamic mod");
        let want = Call { who: id.clone(), data: 0, args: vec![], entries: entries.iter().cloned().collect(), mods: mods.clone(), games: w.games.clone() };
        ensure_eq!(s, log.get(at), Some(&want), "calls: dynamic mod", "call of a dynamic mod");
        at += 1;
        entries.extend(a.put.iter().map(|e| e.0.clone()));
        final_puts.extend(a.put.iter().cloned());
    }
    // handlers, each once, in any order
    let mut left = w.conf.handlers.clone();
    for c in &log[at..] {
        let Some(a) = left.remove(&c.who) else {
            return fail("calls: unexpected call", format!("{c:?}"));
        };
        let args: Vec<Value> = w.metas().iter().filter_map(|m| m.integrator.get(&c.who).cloned()).collect();
        if args.len() > 1 {
            s.nontrivial();
        }
        let want = Call { who: c.who.clone(), data: w.conf.data, args, entries: entries.iter().cloned().collect(), mods: mods.clone(), games: w.games.clone() };
        ensure_eq!(s, *c, want, "calls: handler", "call of a handler");
        entries.extend(a.put.iter().map(|e| e.0.clone()));
        final_puts.extend(a.put.iter().cloned());
    }
    ensure!(s, left.is_empty(), "calls: handler not called", "not called: {:?}", left.keys());
    let t = read_pak(&w.out())?;
    ensure_eq!(s, t.keys().cloned().collect::<Vec<_>>(), entries.into_iter().collect::<Vec<_>>(), "calls: output entries", "entries of the integrated pak");
    for (n, d) in final_puts {
        ensure!(s, t[&n] == d, "calls: output content", "entry {n} is not what was put there last");
    }
    Ok(())
}

fn lookup(s: &mut Src) -> Res {
    let dir = Scratch::new();
    let pool = ["G/Content/A.uasset", "G/Content/A.umap", "G/Content/Sub/B.uasset", "G/Content/dotted.name.uasset", "C.uasset"];
    let mut next = 0;
    let mut single = BTreeSet::new();
    // per place: name -> value
    let mut place = |s: &mut Src, t: &mut Tree, have: &mut BTreeMap<String, i32>, p: u64, damage: bool| {
        for n in pool {
            // both end up with the same export data file
            if n == "G/Content/A.umap" && have.contains_key("G/Content/A.uasset") {
                continue;
            }
            if s.chance(p, 4) {
                next += 1;
                let (a, b) = small(next);
                let data = std::path::Path::new(n).with_extension("uexp").to_str().unwrap().to_string();
                // one that cannot be read is still the one that is found
                match if damage { s.below(16) } else { s.urange(2, 15) } {
                    0 => {
                        t.insert(n.to_string(), a[..a.len() / 2].to_vec());
                        t.insert(data, b);
                        have.insert(n.to_string(), -next);
                    }
                    1 => {
                        t.insert(n.to_string(), a);
                        have.insert(n.to_string(), -next);
                    }
                    // all in one file; export data elsewhere is not its own
                    2..=4 => {
                        s.class("in one file");
                        single.insert(next);
                        t.insert(n.to_string(), [a, b].concat());
                        have.insert(n.to_string(), next);
                    }
                    _ => {
                        t.insert(n.to_string(), a);
                        t.insert(data, b);
                        have.insert(n.to_string(), next);
                    }
                }
            }
        }
        if s.flag() {
            t.insert("other.bin".into(), vec![1, 2, 3]);
        }
    };
    let mut t = Tree::new();
    let mut integrated = BTreeMap::new();
    place(s, &mut t, &mut integrated, 1, false);
    let mut mem = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    for (n, d) in t {
        mem.set_entry(n, d);
    }
    let mut layers: Vec<Vec<BTreeMap<String, i32>>> = vec![];
    let mut paks: Vec<Paks> = vec![];
    for (l, p) in [("mods", 1), ("game", 2)] {
        let mut hs = vec![];
        let mut paths = vec![];
        for k in 0..s.size(3) {
            let mut t = Tree::new();
            let mut h = BTreeMap::new();
            place(s, &mut t, &mut h, p, true);
            let at = dir.at(&format!("{l}/{k}.pak"));
            write_pak(s, &at, &t);
            hs.push(h);
            paths.push(at);
        }
        layers.push(hs);
        paks.push(open_paks(&paths));
    }
    let mut game = paks.pop().unwrap();
    let mut mods = paks.pop().unwrap();
    for _ in 0..s.urange(1, 6) {
        let name = s.pick(&pool).to_string();
        let first = |l: &[BTreeMap<String, i32>]| l.iter().position(|h| h.contains_key(&name));
        ensure_eq!(s, find_asset(&mods, &name), first(&layers[0]), "find: mods", "the mod pak that holds {name}");
        ensure_eq!(s, find_asset(&game, &name), first(&layers[1]), "find: game", "the game pak that holds {name}");
        let want = integrated.get(&name).copied().or_else(|| first(&layers[0]).map(|k| layers[0][k][&name])).or_else(|| first(&layers[1]).map(|k| layers[1][k][&name]));
        let holders = integrated.contains_key(&name) as usize + layers.iter().flatten().filter(|h| h.contains_key(&name)).count();
        s.class(format!("held by {}", holders.min(3)));
        if holders > 1 {
            s.nontrivial();
        }
        let got = match guarded(|| get_asset(&mem, &mut game, &mut mods, &name, unreal_asset::engine_version::EngineVersion::VER_UE4_23)) {
            Ok(r) => r,
            Err((m, at)) => return fail(format!("lookup: panic {}", norm(&m)), format!("{m} at {at}")),
        };
        match (got, want) {
            (Err(e), None) => ensure_eq!(s, e.to_string(), format!("Asset {name:?} not found"), "lookup: wrong error", "error"),
            (Ok(a), Some(v)) if v < 0 => return fail("lookup: passed over", format!("{name}: the first one is damaged, but {:?} was found", value_of(&a))),
            (Err(_), Some(v)) if v < 0 => s.class("damaged"),
            (Err(e), Some(_)) => return fail("lookup: not found", format!("{name}: {e}")),
            (Ok(_), None) => return fail("lookup: found what is nowhere", name),
            (Ok(a), Some(v)) => {
                let v0 = value_of(&a);
                let one = single.contains(&v);
                ensure_eq!(s, a.asset_data.use_event_driven_loader, !one, "lookup: export data", "whether {name} has export data of its own");
                ensure_eq!(s, v0, Some(v), "lookup: the wrong package", "the package found for {name} (each holds a number)");
                // edit it and put it back
                if s.chance(1, 3) {
                    if name == "G/Content/A.umap" && integrated.contains_key("G/Content/A.uasset") || name == "G/Content/A.uasset" && integrated.contains_key("G/Content/A.umap") {
                        continue;
                    }
                    let mut a = a;
                    next_value(&mut a, v + 1000);
                    if let Err(e) = write_asset(&mut mem, &a, &name) {
                        return fail("lookup: cannot be written", e.to_string());
                    }
                    if one {
                        single.insert(v + 1000);
                    }
                    integrated.insert(name.clone(), v + 1000);
                }
            }
        };
    }
    Ok(())
}
fn value_of(a: &A) -> Option<i32> {
    match a.asset_data.exports.first()?.get_normal_export()?.properties.first()? {
        P::IntProperty(x) => Some(x.value),
        _ => None,
    }
}
fn next_value(a: &mut A, v: i32) {
    if let Some(P::IntProperty(x)) = a.asset_data.exports[0].get_normal_export_mut().and_then(|n| n.properties.first_mut()) {
        x.value = v;
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C29",
            rule: "output: at least two mods are listed; optional: an optional mod is switched on; failures: always (one fault each); disk-full: the integrated pak does not fit",
            assumptions: &["the cooked assets the integrator is built with are stand-ins of the same shape"],
            facets: vec![
                Facet { name: "output", quick: 60_000, thorough: 800_000, run: output },
                Facet { name: "optional", quick: 22_500, thorough: 300_000, run: optional },
                Facet { name: "failures", quick: 45_000, thorough: 600_000, run: failures },
                Facet { name: "disk-full", quick: 3_000, thorough: 40_000, run: disk_full },
            ],
        },
        Property {
            id: "C30",
            rule: "calls: a handler gets the entries of at least two mods; lookup: a package asked for is held by at least two paks",
            assumptions: &[],
            facets: vec![
                Facet { name: "calls", quick: 60_000, thorough: 800_000, run: calls },
                Facet { name: "lookup", quick: 90_000, thorough: 1_000_000, run: lookup },
            ],
        },
    ]
}
