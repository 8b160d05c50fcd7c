//! Installing: what is in the game's Paks folder after an integration.
use crate::net::*;
use crate::p_graph::{matches, requirement};
use crate::world::*;
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Cursor;
use std::path::Path;
use std::sync::OnceLock;
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::exports::{Export, ExportNormalTrait};
use unreal_asset::properties::Property as P;
use unreal_asset::Asset;
use unreal_mod_manager::drive::*;
use vkit::*;

/// (id, version, needs, core)
const BAKED: [(&str, V3, &str, bool); 4] = [
    ("CoreMod", (1, 1, 0), "", true),
    ("Helper", (0, 2, 0), "", false),
    ("Base.lib", (2, 1, 1), "Helper", false),
    ("SecondCore", (1, 0, 1), "", true),
];
fn baked_pool() -> &'static Vec<(Spec, Baked)> {
    static B: OnceLock<Vec<(Spec, Baked)>> = OnceLock::new();
    B.get_or_init(|| {
        BAKED
            .iter()
            .map(|(id, v, d, core)| {
                let mut x = Spec { id: id.to_string(), version: *v, priority: 800, name: format!("baked {id}"), salt: 7, ..Default::default() };
                if !d.is_empty() {
                    x.depends.insert(d.to_string(), ("*".into(), None));
                }
                let b = Baked {
                    id: id.to_string(),
                    file: Box::leak(x.file().into_boxed_str()),
                    data: Box::leak(x.bytes().into_boxed_slice()),
                    priority: 800,
                    core: *core,
                };
                (x, b)
            })
            .collect()
    })
}
fn sha(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}
/// the setting inside the game
fn refuses(t: &Tree) -> Result<Option<bool>, Fail> {
    let n = format!("{GAME}/Content/Integrator/IntegratorStatics_BP");
    let (Some(a), Some(u)) = (t.get(&format!("{n}.uasset")), t.get(&format!("{n}.uexp"))) else {
        return fail("the statics are missing", format!("{:?}", t.keys()));
    };
    let a = match guarded(|| Asset::new(Cursor::new(a.clone()), Some(Cursor::new(u.clone())), EngineVersion::VER_UE4_23, None)) {
        Ok(Ok(a)) => a,
        e => return fail("the statics cannot be read", format!("{:?}", e.err())),
    };
    let all = a.asset_data.exports.iter().filter_map(|e| e.get_normal_export()).flat_map(|e| &e.properties);
    let found = all.filter_map(|p| match p {
        P::BoolProperty(x) if x.name.get_owned_content() == "RefuseMismatchedConnections" => Some(x.value),
        _ => None,
    });
    Ok(found.last())
}
/// (mod, version) rows of the list of mods
fn listed(t: &Tree) -> Result<Vec<(String, String)>, Fail> {
    let n = format!("{GAME}/Content/Integrator/ListOfMods");
    let (Some(a), Some(u)) = (t.get(&format!("{n}.uasset")), t.get(&format!("{n}.uexp"))) else {
        return fail("the list of mods is missing", format!("{:?}", t.keys()));
    };
    let a = match guarded(|| Asset::new(Cursor::new(a.clone()), Some(Cursor::new(u.clone())), EngineVersion::VER_UE4_23, None)) {
        Ok(Ok(a)) => a,
        e => return fail("the list of mods cannot be read", format!("{:?}", e.err())),
    };
    let Some(Export::DataTableExport(d)) = a.asset_data.exports.first() else {
        return fail("the list of mods is no table", "no table");
    };
    let version = |l: &[P]| {
        l.iter().find_map(|p| match p {
            P::StrProperty(x) if x.name.get_owned_content().starts_with("Version") => x.value.clone(),
            _ => None,
        })
    };
    Ok(d.table.data.iter().map(|r| (r.name.get_owned_content(), version(&r.value).unwrap_or_default())).collect())
}

/// everything a pak in the Paks folder says about itself
#[derive(Debug, Clone)]
struct Inst {
    id: String,
    version: String,
    needs: BTreeMap<String, String>,
    dlls: bool,
}
fn inst(b: &[u8]) -> Option<Inst> {
    let t = read_pak(b)?;
    let m: Value = serde_json::from_slice(t.get("metadata.json")?).ok()?;
    let needs = m["dependencies"]
        .as_object()
        .map(|d| {
            d.iter()
                .map(|(k, v)| (k.clone(), v.as_str().or_else(|| v["version"].as_str()).unwrap_or("*").to_string()))
                .collect()
        })
        .unwrap_or_default();
    Some(Inst {
        id: m["mod_id"].as_str()?.into(),
        version: m["version"].as_str()?.into(),
        needs,
        dlls: m["cpp_loader_dlls"].as_array().map(|l| !l.is_empty()).unwrap_or(false),
    })
}
/// all files below a directory
fn walk(d: &Path, pre: &str, out: &mut Tree) {
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        let n = format!("{pre}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            walk(&e.path(), &format!("{n}/"), out);
        } else {
            out.insert(n, fs::read(e.path()).unwrap_or_default());
        }
    }
}

struct Remote {
    /// version -> (file of it, whether it can be had)
    versions: BTreeMap<String, (Spec, bool)>,
    /// the index file can be had
    index: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// every mod has one version; nothing goes wrong; no conflicts
    Plain,
    /// several versions with the same needs; nothing goes wrong
    Many,
    /// as before, and of some mods only some of the versions fit; index files may name unusable files besides
    Pick,
    Wild,
}
struct Plan {
    mode: Mode,
    /// what everybody requires of a mod
    fixed: BTreeMap<String, String>,
    ids: Vec<String>,
}
fn needs(s: &mut Src, p: &Plan, site: &Site, who: &str, versions: &BTreeMap<String, Vec<String>>) -> BTreeMap<String, (String, Option<String>)> {
    let mut out = BTreeMap::new();
    if p.ids.is_empty() {
        return out;
    }
    for _ in 0..s.size(2) {
        let d = s.pick(&p.ids).clone();
        if d == who && p.mode != Mode::Wild {
            continue;
        }
        let r = match p.mode {
            Mode::Wild => requirement(s),
            _ if p.fixed.contains_key(&d) && !s.chance(1, 3) => p.fixed[&d].clone(),
            // a requirement that all or the one version meets
            _ => match s.below(4) {
                0 => "*".to_string(),
                1 => ">=0.0.0".to_string(),
                2 => match versions.get(&d) {
                    Some(l) if l.len() == 1 => format!("={}", l[0]),
                    _ => "*".to_string(),
                },
                _ => "<99.0.0".to_string(),
            },
        };
        let url = if p.mode == Mode::Wild && s.chance(1, 6) { None } else { Some(site.url(&format!("index/{d}"))) };
        let url = if s.chance(1, 10) && p.mode == Mode::Wild { Some(site.url("index/nowhere")) } else { url };
        out.insert(d, (r, url));
    }
    out
}

fn small_version(s: &mut Src) -> V3 {
    (s.size(2) as u64, s.size(2) as u64, if s.chance(1, 8) { s.urange(10, 29) } else { s.size(2) } as u64)
}

fn install(s: &mut Src) -> Res {
    let w = Scratch::new();
    let site = Site::new();
    let mode = match s.below(6) {
        0 => Mode::Plain,
        1 => Mode::Many,
        2 => Mode::Pick,
        _ => Mode::Wild,
    };
    let pool = baked_pool();
    let baked: Vec<&(Spec, Baked)> = pool.iter().filter(|_| s.chance(2, 3)).collect();
    // (what Base.lib needs is there as well)
    let baked: Vec<&(Spec, Baked)> = if baked.iter().any(|b| b.1.id == "Helper") { baked } else { baked.into_iter().filter(|b| b.1.id != "Base.lib").collect() };
    let mine: Vec<String> = (0..s.urange(1, 3)).map(|k| format!("L{k}")).collect();
    let far: Vec<String> = (0..s.size(3)).map(|k| format!("R{k}")).collect();
    let mut ids: Vec<String> = mine.iter().chain(&far).cloned().collect();
    ids.extend(baked.iter().map(|b| b.1.id.clone()));
    if mode == Mode::Wild {
        ids.push("Nowhere".into());
    }
    // mods nobody needs, of which every version needs something else
    let alone: BTreeSet<String> = if mode == Mode::Many { mine.iter().filter(|_| s.chance(1, 2)).cloned().collect() } else { BTreeSet::new() };
    ids.retain(|i| !alone.contains(i));
    let mut plan = Plan { mode, fixed: BTreeMap::new(), ids: ids.clone() };
    // the versions there are
    let mut versions: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for b in &baked {
        versions.insert(b.1.id.clone(), vec![vtext(&b.0.version)]);
    }
    for id in mine.iter().chain(&far) {
        let n = if mode == Mode::Plain {
            1
        } else if mode == Mode::Pick && far.contains(id) {
            s.urange(1, 6)
        } else {
            s.urange(1, 3)
        };
        let l: BTreeSet<V3> = (0..n).map(|_| small_version(s)).collect();
        let l: Vec<String> = l.iter().map(vtext).collect();
        if mode == Mode::Pick && far.contains(id) {
            let r = requirement(s);
            let one = s.pick(&l).clone();
            plan.fixed.insert(id.clone(), if l.iter().any(|v| matches(&r, v)) { r } else { format!("={one}") });
        }
        versions.insert(id.clone(), l);
    }
    let mut odd = BTreeSet::new();
    // the files of them
    let mut specs: BTreeMap<String, BTreeMap<String, Spec>> = BTreeMap::new();
    for id in mine.iter().chain(&far) {
        let common = needs(s, &plan, &site, id, &versions);
        let own_index = s.chance(1, 3) || far.contains(id) && s.flag();
        for v in &versions[id] {
            let mut x = Spec::gen(s, id, vparse(v).unwrap());
            x.depends = if mode == Mode::Wild || alone.contains(id) { needs(s, &plan, &site, id, &versions) } else { common.clone() };
            if s.chance(1, 4) {
                x.dlls = vec!["a.dll".into()];
            }
            if own_index {
                x.download = Some(site.url(&format!("index/{id}")));
            }
            specs.entry(id.clone()).or_default().insert(v.clone(), x);
        }
    }
    // what is here and what is there
    let mut remote: BTreeMap<String, Remote> = BTreeMap::new();
    for id in mine.iter().chain(&far) {
        let all = &specs[id];
        let mut here: Vec<&Spec> = vec![];
        if mine.contains(id) {
            here = all.values().filter(|_| s.chance(2, 3)).collect();
            if here.is_empty() {
                here = all.values().take(1).collect();
            }
        } else if mode == Mode::Wild && s.chance(1, 8) {
            here = all.values().take(1).collect();
        }
        for x in &here {
            fs::write(w.mods().join(x.file()), x.bytes()).unwrap();
            s.note(format!("here: {} needs {:?}", x.file(), x.depends));
        }
        let mut r = Remote { versions: BTreeMap::new(), index: true };
        let mut m = Map::new();
        let fit: Vec<&String> = plan.fixed.get(id).map(|r| all.keys().filter(|v| matches(r, v)).collect()).unwrap_or_default();
        let keep = if fit.is_empty() { None } else { Some((*s.pick(&fit)).clone()) };
        for (v, x) in all {
            let mut ok = true;
            let mut x = x.clone();
            if here.iter().any(|h| h.version == x.version) && s.chance(1, 4) {
                // what is offered is not the file that is here
                s.class("another file of a version that is here is offered");
                x.salt = x.salt.wrapping_add(1);
            }
            let x = &x;
            let mut file = x.file();
            let mut page = Page::Data(x.bytes());
            if mode == Mode::Wild && s.chance(1, 8) || keep.as_ref().is_some_and(|k| k != v) && s.chance(1, 4) {
                ok = false;
                let what = if keep.is_some() { s.urange(7, 8) } else { s.below(9) };
                if keep.is_some() {
                    odd.insert(id.clone());
                }
                s.class(format!("bad download {what}"));
                match what {
                    0 => page = Page::Status(*s.pick(&[404u16, 500]), vec![]),
                    1 => page = Page::Status(*s.pick(&[404u16, 503]), x.bytes()),
                    2 => {
                        let mut b = x.bytes();
                        let n = s.below(b.len());
                        b.truncate(n);
                        page = Page::Cut(b);
                    }
                    3 => {
                        let mut b = x.bytes();
                        let n = s.below(b.len() - 33);
                        b.truncate(n);
                        page = Page::Data(b);
                    }
                    4 => page = Page::Hangup,
                    5 => {
                        let mut o = x.clone();
                        o.id = (*s.pick(&["L0", "R0", "Elsewhere"])).to_string();
                        ok = o.id == x.id;
                        page = Page::Data(o.bytes());
                    }
                    6 => {
                        let mut o = x.clone();
                        if o.version.2 >= 10 && s.flag() {
                            o.version.2 /= 10;
                        } else {
                            o.version.2 += 1;
                        }
                        page = Page::Data(o.bytes());
                    }
                    7 => {
                        file = match s.below(5) {
                            0 => format!("../{file}"),
                            1 => format!("x/{file}"),
                            2 => file.replace("_P.pak", ".pak"),
                            3 => format!("a{file}"),
                            _ => format!("../../{file}"),
                        }
                    }
                    _ => {
                        // the file of another version or mod
                        file = if s.flag() { format!("000-{id}-9.9.9_P.pak") } else { format!("000-Elsewhere-{v}_P.pak") };
                    }
                }
            }
            s.note(format!("there: {file} ok {ok} needs {:?}", x.depends));
            let name = format!("files/{id}/{v}");
            site.put(&name, page);
            m.insert(v.clone(), json!({"download_url": site.url(&name), "filename": file}));
            r.versions.insert(v.clone(), (x.clone(), ok));
        }
        let latest = s.pick(&versions[id]).clone();
        let text = serde_json::to_vec(&json!({"mods": {id: {"latest_version": latest, "versions": m}}})).unwrap();
        let name = format!("index/{id}");
        if mode == Mode::Wild && s.chance(1, 10) {
            r.index = false;
            let mut b = text;
            let n = s.below(b.len());
            b.truncate(n);
            site.put(&name, if s.flag() { Page::Cut(b) } else { Page::Data(b) });
        } else {
            site.put(&name, Page::Data(text));
        }
        remote.insert(id.clone(), r);
    }
    let no_game = s.chance(1, 20);
    if no_game {
        fs::remove_file(w.game().join("pakchunk0.pak")).unwrap();
    }
    let mut x = Session::start(w.local(), &[("Steam", w.platform())], baked.iter().map(|b| b.1.clone()).collect());
    settle("start", &mut x)?;
    // (later on, a version that is in use may be one that does not fit)
    let rounds = if mode == Mode::Pick { 1 } else { s.urange(1, 2) };
    for round in 0..rounds {
        fs::write(w.paks().join("000-Old-1.0.0_P.pak"), b"old").unwrap();
        fs::write(w.paks().join("note.txt"), b"old").unwrap();
        for id in x.view().mods.keys() {
            if s.chance(2, 3) {
                let e = s.chance(3, 4);
                x.enable(id, e);
                s.note(format!("enable {id} {e}"));
            }
        }
        if s.chance(1, 4) {
            let v = x.view();
            if !v.mods.is_empty() {
                let id = v.mods.keys().nth(s.below(v.mods.len())).unwrap();
                let l: Vec<&String> = v.mods[id].versions.keys().collect();
                let p = (*s.pick(&l)).clone();
                x.pick(id, &Picked::Exact(p.clone()));
                s.note(format!("pick {id} {p}"));
            }
        }
        if s.chance(1, 4) {
            // another version by hand
            let id = s.pick(&mine).clone();
            let v = s.pick(&versions[&id]).clone();
            let f = &specs[&id][&v];
            fs::write(w.inbox().join(f.file()), f.bytes()).unwrap();
            x.import(&[w.inbox().join(f.file())]);
            settle("drop", &mut x)?;
            s.note(format!("drop {}", f.file()));
        }
        if s.chance(1, 4) {
            x.trust();
        }
        let refuse = s.flag();
        x.refuse(refuse);
        if s.chance(3, 4) {
            x.clear_warnings();
        }
        let was = x.view();
        let mods_before = files(&w.mods());
        let mut tree_before = Tree::new();
        walk(&w.0, "", &mut tree_before);
        s.note(format!("integrate {round}"));
        x.integrate();
        settle("integrate", &mut x)?;
        let mut v = x.view();
        // (warnings stay until the user has seen them)
        for e in &was.warnings {
            let Some(k) = v.warnings.iter().position(|n| n == e) else {
                return fail("integrate: an earlier warning is gone", format!("{e:?}"));
            };
            v.warnings.remove(k);
        }
        let paks = files(&w.paks());
        let mods_after = files(&w.mods());
        ensure!(s, site.hits().len() < LIMIT, "integrate: never stops downloading", "{} requests", site.hits().len());
        // nothing else is touched
        let mut tree = Tree::new();
        walk(&w.0, "", &mut tree);
        let keep = |k: &String| !k.starts_with("local/TheGame/Saved/Paks/") && !k.starts_with("local/TheGame/Saved/Mods/");
        let a: Tree = tree_before.into_iter().filter(|e| keep(&e.0)).collect();
        let b: Tree = tree.into_iter().filter(|e| keep(&e.0)).collect();
        ensure!(s, a == b, "integrate: files elsewhere", "{:?}, expected {:?}", b.keys(), a.keys());
        // no mod file is lost; new ones are good
        let offered = |f: &String, d: &Vec<u8>| remote.values().flat_map(|e| e.versions.values()).any(|e| e.0.file() == *f && e.0.bytes() == *d);
        for (f, d) in &mods_before {
            if f == "modconfig.json" || mods_after.get(f) == Some(d) {
                continue;
            }
            // (what another mod needs is taken from where it is offered)
            let own = was.mods.iter().find(|m| m.1.versions.values().any(|e| e.file == *f));
            let again = own.is_some_and(|m| !m.1.enabled) && mods_after.get(f).is_some_and(|d| offered(f, d));
            ensure!(s, again, "integrate: a mod file changed", "{f}");
            s.class("a mod that is here is downloaded as a dependency");
        }
        for (f, d) in &mods_after {
            if f == "modconfig.json" || mods_before.contains_key(f) {
                continue;
            }
            ensure!(s, offered(f, d), "integrate: a file in the Mods folder that is no offered mod", "{f} of {} bytes", d.len());
        }
        let enabled: BTreeMap<&String, String> = was.mods.iter().filter(|m| m.1.enabled).map(|(k, m)| (k, m.picked.version())).collect();
        s.class(format!("{} mods enabled", enabled.len().min(3)));
        if enabled.is_empty() {
            ensure!(s, paks.is_empty() && !v.failed, "nothing enabled", "paks {:?} failed {}", paks.keys(), v.failed);
            continue;
        }
        // the files of enabled mods that can be had
        let mut lacking = vec![];
        for (id, ver) in &enabled {
            let e = &was.mods[*id].versions[ver];
            let have = e.downloaded || remote[*id].versions.get(ver).map(|r| r.1 && r.0.file() == e.file).unwrap_or(false);
            if !have {
                lacking.push(format!("{id} {ver}"));
            }
            if !e.downloaded && have {
                s.class("an enabled version is downloaded");
            }
        }
        let fails = !lacking.is_empty() || no_game;
        ensure_eq!(s, v.failed, fails, "integrate: failed", "whether it failed (files that cannot be had: {lacking:?}, no game: {no_game}, warnings {:?})", v.warnings);
        if fails {
            s.class("fails");
            ensure!(s, !v.warnings.is_empty(), "integrate: fails without a warning", "no warning");
            ensure!(s, !paks.contains_key(INTEGRATED), "integrate: fails but installs", "{:?}", paks.keys());
            continue;
        }
        // the settings are saved
        let saved: serde_json::Value = mods_after.get("modconfig.json").and_then(|d| serde_json::from_slice(d).ok()).unwrap_or_default();
        let saved = &saved["current"]["mods"];
        for (id, m) in &v.mods {
            let e = &saved[id.as_str()];
            ensure!(
                s,
                e["enabled"] == m.enabled && e["version"] == m.picked.version(),
                "installed: the settings are not saved",
                "{id}: {e}, expected enabled {} version {}",
                m.enabled,
                m.picked.version()
            );
        }
        // enabled mods are there
        let mut by_id: BTreeMap<String, (String, Inst)> = BTreeMap::new();
        for (f, d) in &paks {
            if f == INTEGRATED {
                continue;
            }
            let Some(i) = inst(d) else { return fail("installed: a file that is no mod", f.clone()) };
            ensure!(s, by_id.insert(i.id.clone(), (f.clone(), i.clone())).is_none(), "installed: a mod twice", "{} ({f})", i.id);
        }
        for (id, ver) in &enabled {
            let f = specs[*id][ver].file();
            let want = match mods_before.get(&f) {
                Some(d) => d.clone(),
                None => remote[*id].versions[ver].0.bytes(),
            };
            ensure!(s, paks.get(&f) == Some(&want), "installed: an enabled mod is missing", "{id} {ver} in {:?}", paks.keys());
        }
        let Some(out) = paks.get(INTEGRATED).and_then(|b| read_pak(b)) else {
            return fail("installed: the integrated pak is missing", format!("{:?}", paks.keys()));
        };
        // (when something goes wrong, a mod may be there that was needed by one that is not)
        let needed = |id: &String| {
            by_id.values().any(|o| o.1.needs.contains_key(id))
                || mode == Mode::Wild
                    && (specs.values().flat_map(|e| e.values()).any(|x| x.depends.contains_key(id)) || baked.iter().any(|b| b.0.depends.contains_key(id)))
        };
        for b in &baked {
            let there = by_id.contains_key(&b.1.id);
            let asked = needed(&b.1.id);
            if b.1.core {
                ensure!(s, there, "installed: a core mod is missing", "{}", b.1.id);
            } else if there {
                ensure!(s, asked, "installed: a baked mod nobody needs", "{}", b.1.id);
            }
            if there {
                ensure!(s, paks.get(b.1.file).map(|e| &e[..]) == Some(b.1.data), "installed: a baked mod differs", "{}", b.1.id);
                if !b.1.core {
                    s.class("a baked mod is needed");
                }
            }
        }
        for (id, (f, i)) in &by_id {
            if enabled.contains_key(id) || baked.iter().any(|b| b.1.id == *id) {
                continue;
            }
            s.class("a dependency is downloaded");
            s.nontrivial();
            ensure!(s, needed(id), "installed: a mod that is neither enabled nor needed", "{f}");
            let good = remote.get(id).and_then(|e| e.versions.get(&i.version)).is_some_and(|x| x.0.file() == *f && x.0.bytes() == paks[f]);
            ensure!(s, good, "installed: a dependency differs from the one offered", "{f}");
            ensure!(s, mods_after.get(f) == paks.get(f), "installed: a dependency is not in the Mods folder", "{f}");
            let m = v.mods.get(id);
            let ok = m.map(|m| m.enabled && m.versions.get(&i.version).map(|e| e.downloaded && e.file == *f).unwrap_or(false)).unwrap_or(false);
            ensure!(s, ok, "installed: a dependency is not listed as enabled", "{id} {}: {m:?}", i.version);
        }
        // what they need
        let unresolved: BTreeSet<&String> = v.warnings.iter().filter(|w| w.kind == "unresolved").filter_map(|w| w.about.as_ref()).collect();
        // (a version that is chosen late and then cannot be had is reported as such)
        let failing = |d: &String| remote.get(d).map(|r| r.versions.values().filter(|e| e.1).count() > 0 && r.versions.values().any(|e| !e.1)).unwrap_or(false);
        for (id, (_, i)) in &by_id {
            for (d, r) in &i.needs {
                let ok = by_id.get(d).map(|e| matches(r, &e.1.version)).unwrap_or(false);
                s.class(if ok { "a need is met" } else { "a need is not met" });
                ensure!(
                    s,
                    ok || unresolved.contains(d) || (!v.warnings.is_empty() && failing(d)),
                    "needs: not met and not reported",
                    "{id} needs {d} {r}, installed: {:?}, warnings {:?}",
                    by_id.get(d).map(|e| &e.1.version),
                    v.warnings
                );
            }
        }
        for u in &unresolved {
            // (a version that was looked at and not taken may have needed something)
            ensure!(s, specs.values().flat_map(|e| e.values()).any(|x| x.depends.contains_key(*u)) || baked.iter().any(|b| b.0.depends.contains_key(*u)), "needs: a report about a mod nobody needs", "{u}");
        }
        if mode != Mode::Wild {
            s.class("nothing goes wrong");
            ensure!(s, v.warnings.iter().all(|w| w.kind == "index" && w.about.as_ref().is_some_and(|a| odd.contains(a))), "needs: warnings without reason", "{:?}", v.warnings);
            for (id, (_, i)) in &by_id {
                for (d, r) in &i.needs {
                    ensure!(s, by_id.get(d).is_some_and(|e| matches(r, &e.1.version)), "needs: not met", "{id} needs {d} {r}, installed: {:?}", by_id.get(d).map(|e| &e.1.version));
                }
            }
            s.nontrivial();
        }
        // dependents
        if let Some(deps) = &v.dependents {
            for id in enabled.keys() {
                for d in by_id[*id].1.needs.keys() {
                    if let Some(l) = deps.get(d) {
                        ensure!(s, l.contains(id), "dependents", "{id} is missing from the dependents of {d}: {l:?}");
                    }
                }
            }
        } else {
            return fail("dependents: none known", "no graph");
        }
        // libraries
        let mut want = BTreeSet::new();
        for (f, i) in by_id.values() {
            let h = sha(&paks[f]);
            if i.dlls && !was.trusted.contains(&h) {
                want.insert((i.id.clone(), h));
            }
        }
        let got: BTreeSet<(String, Vec<u8>)> = v.untrusted.iter().map(|e| (e.0.clone(), e.2.clone())).collect();
        ensure_eq!(s, got, want, "mods with libraries that are not trusted", "mods with libraries that are not trusted");
        ensure_eq!(s, refuses(&out)?, Some(refuse), "refuse mismatched connections", "refuse mismatched connections inside the game");
        // the list inside the game
        let mut rows = listed(&out)?;
        // in the order of their numbers
        let order: Vec<(u32, &String)> = rows
            .iter()
            .filter(|r| !baked.iter().any(|b| b.1.id == r.0))
            .filter_map(|r| by_id.get(&r.0).and_then(|e| e.0.split('-').next()?.parse().ok()).map(|p| (p, &r.0)))
            .collect();
        ensure!(s, order.windows(2).all(|w| w[0].0 <= w[1].0), "the list of mods: order", "{order:?}");
        if order.windows(2).any(|w| w[0].0 < w[1].0) {
            s.class("mods of different priority");
        }
        rows.sort();
        let want: Vec<(String, String)> = by_id.iter().map(|(k, e)| (k.clone(), e.1.version.clone())).collect();
        ensure_eq!(s, rows, want, "the list of mods", "rows of the list of mods");
    }
    exit("exit", x)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C36",
        rule: "install: a dependency was downloaded, or an integration in which nothing goes wrong ran to its end",
        assumptions: &[
            "the web server is a loopback one without TLS",
            "cooked assets of the integrator are stand-ins",
            "crates of the window, of Steam and of the user's directories are stand-ins",
        ],
        facets: vec![Facet { name: "install", quick: 24_000, thorough: 300_000, run: install }],
    }]
}
