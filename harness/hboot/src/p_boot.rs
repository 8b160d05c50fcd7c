//! C39: unpacking the native libraries of mods for the loader.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use unreal_cpp_bootstrapper::{bootstrap, config};
use unreal_pak::{pakversion::PakVersion, PakWriter};
use vkit::*;

type Tree = BTreeMap<String, Vec<u8>>;

/// A scratch directory that is removed when the case ends. Work happens a few levels below its root, so
/// that names with a few `..` in them still end up inside it.
pub struct Scratch {
    pub root: PathBuf,
    pub dir: PathBuf,
}
static COUNT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let root = base.join(format!("hboot.{}.{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
        fs::remove_dir_all(&root).ok();
        let dir = root.join("l1/l2/l3/l4/work");
        fs::create_dir_all(&dir).expect("scratch directory");
        Scratch { root, dir }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.root).ok();
    }
}
/// all files (and empty directories, with a slash) below a directory, by relative path
fn get(dir: &Path) -> Tree {
    fn go(d: &Path, pre: &str, out: &mut Tree) {
        let Ok(r) = fs::read_dir(d) else { return };
        let mut any = false;
        for e in r.flatten() {
            any = true;
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                go(&e.path(), &format!("{n}/"), out);
            } else {
                out.insert(n, fs::read(e.path()).unwrap_or_default());
            }
        }
        if !any && !pre.is_empty() {
            out.insert(pre.to_string(), vec![]);
        }
    }
    let mut out = Tree::new();
    go(dir, "", &mut out);
    out
}

#[derive(Clone, Debug)]
enum Meta {
    None,
    Listed(Vec<String>),
    Bad(String),
}
#[derive(Clone, Debug)]
struct Mod {
    file: String,
    entries: Vec<(String, Vec<u8>)>,
    meta: Meta,
    bytes: Vec<u8>,
}

fn content(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[2, 12, 2]) {
        0 => vec![],
        1 => {
            let n = s.size(300);
            s.blob(n)
        }
        _ => {
            let n = 65530 + s.below(12);
            let m = s.urange(1, 255);
            (0..n).map(|k| (k * m / 7 % 251) as u8).collect()
        }
    }
}
/// the base name of a library and what it becomes on disk
fn base(s: &mut Src) -> (String, String) {
    let n = match s.below(4) {
        0 => s.pick(&["a", "b", "mod"]).to_string(),
        1 => format!("{} {}", s.ascii_ident(3), s.ascii_ident(3)),
        2 => format!("{}{}", s.pick(&["é", "日本", "$0", "%41"]), s.ascii_ident(3)),
        _ => s.ascii_ident(6),
    };
    match s.weighted(&[8, 2, 2]) {
        0 => (format!("{n}.dll"), format!("{n}.dll")),
        1 => (format!("{n}.x.dll"), format!("{n}.x.dll")),
        _ => (n.clone(), format!("{n}.uasset")),
    }
}
fn pak(s: &mut Src, entries: &[(String, Vec<u8>)]) -> Vec<u8> {
    let v = *s.pick(&[
        PakVersion::RelativeChunkOffsets,
        PakVersion::FnameBasedCompressionMethod,
        PakVersion::IndexEncryption,
        PakVersion::EncryptionKeyGuid,
        PakVersion::CompressionEncryption,
        PakVersion::FrozenIndex,
    ]);
    let mut out = Cursor::new(vec![]);
    let mut p = PakWriter::new(&mut out, v);
    for (n, d) in entries {
        let z = s.flag();
        p.write_entry(n, d, z).expect("write an entry");
    }
    p.finish_write().expect("finish a pak");
    out.into_inner()
}
fn metadata(s: &mut Src, id: &str, dlls: &[String]) -> Vec<u8> {
    let mut m = serde_json::json!({
        "schema_version": 2,
        "name": s.text(6),
        "mod_id": id,
        "version": "1.2.3",
    });
    if !dlls.is_empty() || s.flag() {
        m["cpp_loader_dlls"] = serde_json::json!(dlls);
    }
    if s.flag() {
        m["sync"] = serde_json::json!("client");
    }
    if s.flag() {
        m["integrator"] = serde_json::json!({"persistent_actors": ["/Game/X/Y"]});
    }
    m.to_string().into_bytes()
}

struct World {
    game: String,
    mods: Vec<Mod>,
    /// acceptable contents by base name
    want: BTreeMap<String, BTreeSet<Vec<u8>>>,
    listed: usize,
    ok: bool,
}
fn world(s: &mut Src, faults: bool) -> World {
    let game = s.pick(&["Astro", "G", "$0", "My Game", "Ga.me", "Ünreal"]).to_string();
    let mut w = World { game: game.clone(), mods: vec![], want: BTreeMap::new(), listed: 0, ok: true };
    let n = s.size(4);
    for i in 0..n {
        let id = format!("m{i}");
        let file = match s.below(3) {
            0 => format!("000-{id}-1.0.0_P.pak"),
            1 => format!("{id}.pak"),
            _ => format!("{id} {}", s.ascii_ident(4)),
        };
        let mut entries: Vec<(String, Vec<u8>)> = vec![];
        let mut dlls = vec![];
        for _ in 0..s.size(4) {
            let (path, disk) = base(s);
            let mut dir = String::new();
            for _ in 0..s.below(3) {
                dir += &s.ascii_ident(4);
                dir.push('/');
            }
            let name = format!("{game}/Content/{dir}{disk}");
            if entries.iter().any(|(e, _)| *e == name) {
                continue;
            }
            let data = content(s);
            let list = s.chance(4, 5);
            if list {
                w.listed += 1;
                dlls.push(format!("/Game/{dir}{path}"));
                w.want.entry(disk.clone()).or_default().insert(data.clone());
            }
            entries.push((name, data));
        }
        // listed, but not part of the game's content
        if s.chance(1, 4) {
            let (path, disk) = base(s);
            let prefix = *s.pick(&["/Engine/", "Game/", "/game/", "/Gamex/", "", "x/Game/", "//Game/", " /Game/"]);
            dlls.push(format!("{prefix}{path}"));
            for e in [format!("{prefix}{path}"), format!("{game}/Content/{disk}")] {
                if s.flag() && !entries.iter().any(|(o, _)| *o == e) && !e.is_empty() {
                    let data = content(s);
                    entries.push((e, data));
                }
            }
        }
        let mut meta = match s.weighted(&[8, 1]) {
            0 => Meta::Listed(dlls),
            _ => Meta::None,
        };
        if faults && s.chance(1, 4) {
            match s.below(3) {
                // a library that is not there
                0 => {
                    if let Meta::Listed(l) = &mut meta {
                        l.push("/Game/missing/none.dll".to_string());
                        w.ok = false;
                    }
                }
                1 => {
                    meta = Meta::Bad(
                        s.pick(&["", "{", "[]", "null", "{\"schema_version\": 2}", "{\"schema_version\": 77}", "{\"schema_version\":2,\"name\":\"a\",\"mod_id\":\"a\",\"version\":\"1.0.0\",\"cpp_loader_dlls\":[1]}"]).to_string(),
                    );
                    w.ok = false;
                }
                // a name no file can have
                _ => {
                    if let Meta::Listed(l) = &mut meta {
                        let long = "x".repeat(300);
                        l.push(format!("/Game/{long}.dll"));
                        entries.push((format!("{game}/Content/{long}.dll"), vec![1]));
                        w.ok = false;
                    }
                }
            }
        }
        match &meta {
            Meta::Listed(l) => {
                let m = metadata(s, &id, l);
                entries.push(("metadata.json".into(), m));
            }
            Meta::Bad(t) => entries.push(("metadata.json".into(), t.clone().into_bytes())),
            Meta::None => {
                // nothing of this one counts
                if s.flag() {
                    entries.push(("x/metadata.json".into(), vec![1]));
                }
            }
        }
        if s.flag() {
            entries.sort();
        }
        let bytes = pak(s, &entries);
        w.mods.push(Mod { file, entries, meta, bytes });
    }
    // only listed ones of mods that have metadata
    w.want.clear();
    for m in &w.mods {
        if let Meta::Listed(l) = &m.meta {
            for e in l {
                let Some(rest) = e.strip_prefix("/Game/") else { continue };
                let b = rest.rsplit('/').next().unwrap();
                let (disk, full) = if b.contains('.') { (b.to_string(), rest.to_string()) } else { (format!("{b}.uasset"), format!("{rest}.uasset")) };
                let name = format!("{game}/Content/{full}");
                if let Some((_, d)) = m.entries.iter().find(|(n, _)| *n == name) {
                    w.want.entry(disk).or_default().insert(d.clone());
                }
            }
        }
    }
    w
}
fn describe(w: &World) -> String {
    let m: Vec<String> = w
        .mods
        .iter()
        .map(|m| {
            let e: Vec<String> = m.entries.iter().map(|(n, d)| format!("{n} ({} bytes)", d.len())).collect();
            format!("{}: {} listing {:?}", m.file, e.join(", "), m.meta)
        })
        .collect();
    format!("game {:?}; {}", w.game, m.join("; "))
}

fn put_mods(dir: &Path, w: &World) {
    fs::remove_dir_all(dir).ok();
    fs::create_dir_all(dir).unwrap();
    for m in &w.mods {
        fs::write(dir.join(&m.file), &m.bytes).unwrap();
    }
}
fn run(s: &mut Src, w: &World, out: &Path, mods: &Path) -> Result<Result<(), String>, Fail> {
    match guarded(|| bootstrap(&w.game, &out.to_path_buf(), &mods.to_path_buf()).map_err(|e| e.to_string())) {
        Ok(r) => Ok(r),
        Err((_, m)) => {
            s.class("panic");
            fail("panic", format!("panic: {m}"))
        }
    }
}

/// after every run of a history the directory holds what the mods of that time list, and nothing else
fn unpack(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let (out, mods) = (sc.dir.join(s.pick(&["out", "a/b/out", "o u t"])), sc.dir.join("mods"));
    let earlier = s.below(3);
    if earlier > 0 {
        fs::create_dir_all(out.join("old/deep")).unwrap();
        fs::write(out.join("old/deep/a.dll"), b"old").unwrap();
        fs::write(out.join("a.dll"), vec![7; 400]).unwrap();
    }
    fs::write(sc.dir.join("bystander"), b"x").unwrap();
    let rounds = 1 + s.below(3);
    for r in 0..rounds {
        let w = world(s, false);
        put_mods(&mods, &w);
        s.note(format!("{}round {r}: {}", if r == 0 { "" } else { " | " }, describe(&w)));
        if w.listed > 1 && w.mods.len() > 1 {
            s.nontrivial();
        }
        s.class(if w.want.values().any(|v| v.len() > 1) { "same base name" } else { "distinct" });
        if let Err(e) = run(s, &w, &out, &mods)? {
            return fail("unpack: error", format!("round {r}: {e}"));
        }
        let got = get(&out);
        ensure_eq!(s, got.keys().cloned().collect::<Vec<_>>(), w.want.keys().cloned().collect::<Vec<_>>(), "unpack: names", "files of the directory in round {r}");
        for (n, d) in &got {
            ensure!(s, w.want[n].contains(d), "unpack: content", "round {r}: {n} has {} bytes, which no library of that name has; wanted one of {:?} bytes", d.len(), w.want[n].iter().map(|e| e.len()).collect::<Vec<_>>());
        }
        let kept: Tree = w.mods.iter().map(|m| (m.file.clone(), m.bytes.clone())).collect();
        ensure!(s, get(&mods) == kept, "unpack: mods", "the mods changed: {:?}", get(&mods).keys().collect::<Vec<_>>());
    }
    let pre = format!("{}/", out.strip_prefix(&sc.root).unwrap().display());
    let rest: Vec<String> = get(&sc.root).into_keys().filter(|n| !n.starts_with(&pre) && !n.starts_with("l1/l2/l3/l4/work/mods/")).collect();
    ensure_eq!(s, rest, vec!["l1/l2/l3/l4/work/bystander".to_string()], "unpack: elsewhere", "files outside of the directory");
    Ok(())
}

/// what cannot be unpacked is reported
fn errors(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let (out, mods) = (sc.dir.join("out"), sc.dir.join("mods"));
    let mut w = world(s, true);
    put_mods(&mods, &w);
    s.note(describe(&w));
    match s.below(8) {
        0 => {
            fs::remove_dir_all(&mods).unwrap();
            w.ok = false;
            s.note(" | no mods directory");
        }
        1 => {
            let n = s.size(200);
            let d = s.blob(n);
            s.note(format!(" | a file of {n} bytes that is not a pak"));
            fs::write(mods.join("zzz.pak"), d).unwrap();
            w.ok = false;
        }
        2 if !w.mods.is_empty() => {
            let k = s.below(w.mods.len());
            let m = &w.mods[k];
            let n = s.below(m.bytes.len());
            s.note(format!(" | {} cut to {n}", m.file));
            fs::write(mods.join(&m.file), &m.bytes[..n]).unwrap();
            w.ok = false;
        }
        3 => {
            fs::write(sc.dir.join("file"), b"x").unwrap();
            let o = sc.dir.join("file/out");
            s.note(" | the directory cannot be made");
            let r = run(s, &w, &o, &mods)?;
            ensure!(s, r.is_err(), "errors: reported", "success although the directory cannot be made");
            return Ok(());
        }
        _ => {}
    }
    if !w.ok {
        s.nontrivial();
    }
    s.class(if w.ok { "fine" } else { "faulty" });
    let before = get(&mods);
    let r = run(s, &w, &out, &mods)?;
    ensure_eq!(s, r.is_ok(), w.ok, "errors: reported", "result {r:?}");
    ensure!(s, get(&mods) == before, "errors: mods", "the mods changed");
    Ok(())
}

/// whatever names and bytes the mods have: no panic, and nothing is written elsewhere
fn hostile(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let (out, mods) = (sc.dir.join("out"), sc.dir.join("mods"));
    let mut w = world(s, true);
    w.game = s.pick(&["G", "..", ".", "a/..", "../../x", "mods", ""]).to_string();
    let mut entries = vec![];
    let mut dlls = vec![];
    for _ in 0..1 + s.below(4) {
        let rest = match s.below(8) {
            0 => "..".to_string(),
            1 => "../..".to_string(),
            2 => format!("{}/..", s.ascii_ident(3)),
            3 => format!("../{}.dll", s.ascii_ident(3)),
            4 => s.pick(&[".", "", "/", "./.", "a/.", "x\0y.dll", "\0"]).to_string(),
            5 => format!("..\\{}.dll", s.ascii_ident(3)),
            6 => format!("../../mods/{}.pak", s.ascii_ident(2)),
            _ => s.text(6).replace('/', "_"),
        };
        let lib = format!("/Game/{rest}");
        let plain = format!("{}/Content/{rest}", w.game);
        let p = Path::new(&plain);
        let disk = match p.extension() {
            Some(_) => plain.clone(),
            None => p.with_extension("uasset").to_str().unwrap().to_string(),
        };
        dlls.push(lib);
        if !entries.iter().any(|(e, _): &(String, Vec<u8>)| *e == disk) && !disk.is_empty() {
            let d = content(s);
            entries.push((disk, d));
        }
    }
    let m = metadata(s, "h", &dlls);
    entries.push(("metadata.json".into(), m));
    let mut bytes = pak(s, &entries);
    let damage = s.chance(1, 3);
    if damage {
        for _ in 0..1 + s.below(3) {
            let from = if s.flag() { bytes.len().saturating_sub(400) } else { 0 };
            let k = from + s.below(bytes.len() - from);
            bytes[k] = s.u8v();
        }
    }
    w.mods.truncate(1);
    w.mods.push(Mod { file: "h.pak".into(), entries, meta: Meta::Listed(dlls), bytes });
    put_mods(&mods, &w);
    s.note(format!("{}{}", if damage { "damaged; " } else { "" }, describe(&w)));
    s.nontrivial();
    fs::write(sc.dir.join("bystander"), b"x").unwrap();
    let before = get(&sc.root);
    let r = run(s, &w, &out, &mods)?;
    s.class(if r.is_ok() { "unpacked" } else { "refused" });
    let after: Tree = get(&sc.root).into_iter().filter(|(n, _)| !n.starts_with("l1/l2/l3/l4/work/out/")).collect();
    ensure!(s, after == before, "hostile: elsewhere", "files outside of the directory changed: {:?}, before {:?}", after.keys().collect::<Vec<_>>(), before.keys().collect::<Vec<_>>());
    Ok(())
}

/// the loader's configuration survives being written and read
fn settings(s: &mut Src) -> Res {
    use config::*;
    fn opt<T>(s: &mut Src, f: impl Fn(&mut Src) -> T) -> Option<T> {
        if s.flag() {
            Some(f(s))
        } else {
            None
        }
    }
    fn txt(s: &mut Src) -> String {
        s.text(8)
    }
    fn n(s: &mut Src) -> u32 {
        s.u32v()
    }
    let ext = |s: &mut Src| ExtendedPattern { pattern: txt(s), first_op_codes: n(s), total_byte_instruction: n(s) };
    let c = ModLoaderConfig {
        mods_path: txt(s),
        settings: GameSettings {
            is_using_fchunked_fixed_uobject_array: s.flag(),
            uses_fname_pool: s.flag(),
            is_using_deferred_spawn: s.flag(),
            is_using_4_22: s.flag(),
            is_default_object_arrayed: s.flag(),
            delay_gui_spawn: s.flag(),
            begin_play_overwrite: opt(s, txt),
            g_info_settings: opt(s, |s| {
                if s.flag() {
                    GInfo::Patterns(GInfoPatterns { g_name: opt(s, ext), g_object: opt(s, ext), g_world: opt(s, ext) })
                } else {
                    GInfo::Offsets(GInfoOffsets { g_name: opt(s, n), g_object: opt(s, n), g_world: opt(s, n) })
                }
            }),
            uobject_def_settings: opt(s, |s| UObjectDef { index: n(s), class: n(s), name: n(s), outer: n(s) }),
            ufield_def_settings: opt(s, |s| UFieldDef { next: n(s) }),
            ustruct_def_settings: opt(s, |s| UStructDef { super_struct: n(s), children: n(s), properties_size: n(s) }),
            ufunction_def_settings: opt(s, |s| UFunctionDef { function_flags: n(s), func: n(s) }),
            property_settings: opt(s, |s| config::Property { array_dim: n(s), offset: n(s), fproperty: opt(s, |s| FField { name: n(s), next: n(s) }) }),
            function_info_settings: opt(s, |s| {
                if s.flag() {
                    FunctionInfo::Patterns(FunctionInfoPatterns {
                        game_state_init: opt(s, txt),
                        begin_play: opt(s, txt),
                        static_load_object: opt(s, txt),
                        spawn_actor_ftrans: opt(s, txt),
                        call_function_by_name_with_arguments: opt(s, txt),
                        process_event: opt(s, txt),
                        create_default_object: opt(s, txt),
                    })
                } else {
                    FunctionInfo::Offsets(FunctionInfoOffsets {
                        game_state_init: opt(s, n),
                        begin_play: opt(s, n),
                        static_load_object: opt(s, n),
                        spawn_actor_ftrans: opt(s, n),
                        call_function_by_name_with_arguments: opt(s, n),
                        process_event: opt(s, n),
                        create_default_object: opt(s, n),
                    })
                }
            }),
            process_internal_function_settings: opt(s, |s| ProcessInternalFunction { process_internal: txt(s) }),
            static_construct_object_internal_info_settings: opt(s, |s| StaticConstructObject_InternalInfo {
                is_using_updated_static_construct: s.flag(),
                static_construct_object_internal_function: txt(s),
            }),
        },
    };
    s.note(format!("{c:?}"));
    s.nontrivial();
    let text = serde_json::to_string(&c).map_err(|e| Fail { sig: "settings: write".into(), msg: e.to_string() })?;
    let back: ModLoaderConfig = match serde_json::from_str(&text) {
        Ok(b) => b,
        Err(e) => return fail("settings: read", format!("{e}: {text}")),
    };
    ensure_eq!(s, back, c, "settings: same", "read back from {text}");
    Ok(())
}

pub fn props() -> Vec<vkit::Property> {
    vec![vkit::Property {
        id: "C39",
        rule: "two or more mods listing two or more libraries; a fault is present; hostile names; any configuration",
        assumptions: &["the libraries the crate embeds are stand-ins: its build script needs the network"],
        facets: vec![
            Facet { name: "unpack", quick: 6_000, thorough: 150_000, run: unpack },
            Facet { name: "errors", quick: 6_000, thorough: 150_000, run: errors },
            Facet { name: "hostile", quick: 6_000, thorough: 150_000, run: hostile },
            Facet { name: "settings", quick: 3_000, thorough: 50_000, run: settings },
        ],
    }]
}
