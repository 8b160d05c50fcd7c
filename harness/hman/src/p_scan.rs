//! Mod files in the Mods folder and mod files dropped on the window.
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;
use unreal_mod_manager::drive::*;
use vkit::*;

pub enum Kind {
    Good(Spec),
    Bad,
    /// not even looked at in the Mods folder
    Other,
}
pub struct Drop_ {
    pub file: String,
    /// None is a directory
    pub data: Option<Vec<u8>>,
    pub kind: Kind,
}
/// a file that is not a mod, made from one that is
fn spoil(s: &mut Src, x: &Spec) -> Drop_ {
    let mut t = x.tree();
    let mut file = x.file();
    let mut m = x.json();
    let v = vtext(&x.version);
    let id = &x.id;
    let mut data = None;
    let what = s.below(13);
    match what {
        0 => {
            t.remove("metadata.json");
        }
        1 => {
            let mut b = serde_json::to_vec(&m).unwrap();
            let n = s.below(b.len());
            b.truncate(n);
            t.insert("metadata.json".into(), b);
        }
        2 => {
            m.insert("schema_version".into(), json!(*s.pick(&[3u64, 0, 99])));
        }
        3 => {
            m.insert("mod_id".into(), json!(*s.pick(&["Other", "", "mod0", "Mod0 "])));
        }
        4 => {
            let o = (x.version.0, x.version.1 + 1, x.version.2);
            m.insert("version".into(), json!(*s.pick(&[vtext(&o), format!("{v} "), format!("{v}.0"), String::new()])));
        }
        5 => {
            // versions that are none, in the name and in the metadata
            let o = match s.below(7) {
                0 => format!("{}.0{}.{}", x.version.0, x.version.1, x.version.2),
                1 => format!("{}x{}x{}", x.version.0, x.version.1, x.version.2),
                2 => format!("{}-{}-{}", x.version.0, x.version.1, x.version.2),
                3 => "99999999999999999999.0.0".to_string(),
                4 => "12345".to_string(),
                5 => "١.٢.٣".to_string(),
                _ => "1.2".to_string(),
            };
            file = format!("{:03}-{id}-{o}_P.pak", x.priority);
            m.insert("version".into(), json!(o));
        }
        6 => {
            file = match s.below(7) {
                0 => format!("{id}-{v}_P.pak"),
                1 => format!("{:02}-{id}-{v}_P.pak", x.priority % 100),
                2 => format!("{:04}-{id}-{v}_P.pak", x.priority),
                3 => format!("{:03}_{id}_{v}_P.pak", x.priority),
                4 => format!("abc-{id}-{v}_P.pak"),
                5 => format!("٠٠١-{id}-{v}_P.pak"),
                _ => format!("{:03}-{id}_P.pak", x.priority),
            };
        }
        7 => {
            // ids start with a capital letter and have no other characters than letters, digits and dots
            let o = match s.below(5) {
                0 => format!("m{id}"),
                1 => format!("1{id}"),
                2 => format!("{id}_"),
                3 => format!("{id} x"),
                _ => format!(".{id}"),
            };
            file = format!("{:03}-{o}-{v}_P.pak", x.priority);
            m.insert("mod_id".into(), json!(o));
        }
        8 => data = Some(vec![]),
        9 => {
            let n = s.size(300);
            data = Some(s.blob(n));
        }
        10 => {
            let mut b = x.bytes();
            // (without 32 bytes it is a pak of another version)
            let n = b.len() - 1 - s.below(31);
            b.truncate(n);
            data = Some(b);
        }
        11 => {
            return Drop_ { file, data: None, kind: Kind::Bad };
        }
        _ => {
            let f = match s.below(4) {
                0 => file.replace("_P.pak", ".pak"),
                1 => file.replace(".pak", ".pak.bak"),
                2 => "readme.txt".to_string(),
                _ => INTEGRATED.to_string(),
            };
            return Drop_ { file: f, data: Some(x.bytes()), kind: Kind::Other };
        }
    }
    s.class(format!("bad file {what}"));
    if (1..=7).contains(&what) && what != 1 {
        t.insert("metadata.json".into(), serde_json::to_vec(&m).unwrap());
    }
    Drop_ { file, data: Some(data.unwrap_or_else(|| pak_of(&t, x.salt % 2 == 0))), kind: Kind::Bad }
}
/// a batch of files with different names, none of `taken`
pub fn batch(s: &mut Src, ids: &[String], max: usize, bad: bool, taken: &BTreeSet<(String, V3)>) -> Vec<Drop_> {
    let mut out: Vec<Drop_> = vec![];
    let mut names = BTreeSet::new();
    let mut pairs = taken.clone();
    for _ in 0..s.size(max) {
        let id = s.pick(ids).clone();
        let v = version(s);
        let x = Spec::gen(s, &id, v);
        let d = if bad && s.chance(1, 3) {
            spoil(s, &x)
        } else {
            if !pairs.insert((id.clone(), v)) {
                continue;
            }
            Drop_ { file: x.file(), data: Some(x.bytes()), kind: Kind::Good(x) }
        };
        if names.insert(d.file.clone()) {
            out.push(d);
        }
    }
    out
}
pub fn put(d: &Path, l: &[Drop_]) {
    for e in l {
        let p = d.join(&e.file);
        match &e.data {
            Some(b) => fs::write(p, b).expect("write a file"),
            None => fs::create_dir(p).expect("a directory"),
        }
    }
}
/// mods by id and version
pub type Have = BTreeMap<String, BTreeMap<V3, Spec>>;
pub fn have(h: &mut Have, l: &[Drop_]) {
    for e in l {
        if let Kind::Good(x) = &e.kind {
            h.entry(x.id.clone()).or_default().insert(x.version, x.clone());
        }
    }
}
fn check_listed(s: &mut Src, v: &View, h: &Have) -> Res {
    let ids: Vec<&String> = v.mods.keys().collect();
    ensure_eq!(s, ids, h.keys().collect::<Vec<_>>(), "list: the mods listed", "mods listed");
    for (id, m) in &v.mods {
        let want: BTreeMap<String, &Spec> = h[id].iter().map(|(k, x)| (vtext(k), x)).collect();
        ensure_eq!(s, m.versions.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "list: the versions listed", "versions of {id}");
        for (k, w) in &m.versions {
            let x = want[k];
            ensure_eq!(s, (&w.id, &w.file), (id, &x.file()), "list: file of a version", "file of {id} {k}");
            ensure!(s, w.downloaded && w.url.is_none(), "list: a file that is there is not marked so", "{id} {k}: {w:?}");
            let name = w.meta.as_ref().map(|e| (e.mod_id.clone(), e.mod_version.clone(), e.name.clone()));
            ensure_eq!(s, name, Some((id.clone(), k.clone(), x.name.clone())), "list: metadata of a version", "metadata of {id} {k}");
        }
        let p = m.picked.version();
        let Some(x) = want.get(&p) else {
            return fail("list: the version in use is none of the mod's", format!("{id}: {:?} of {:?}", m.picked, m.versions.keys()));
        };
        check_details(s, m, x)?;
    }
    Ok(())
}
fn check_warned(s: &mut Src, v: &View, bad: &[String]) -> Res {
    let got: BTreeSet<&str> = v.warnings.iter().filter_map(|w| w.about.as_deref()).collect();
    let want: BTreeSet<&str> = bad.iter().map(|e| e.as_str()).collect();
    ensure_eq!(s, got, want, "warnings: files warned about", "files warned about ({:?})", v.warnings.iter().map(|w| &w.kind).collect::<Vec<_>>());
    ensure_eq!(s, v.warnings.len(), want.len(), "warnings: number", "warnings");
    Ok(())
}

fn history(s: &mut Src) -> Res {
    let w = Scratch::new();
    let n = s.urange(1, 4);
    let ids: Vec<String> = (0..n).map(|k| mod_id(s, k)).collect();
    let mut h = Have::new();
    let first = batch(s, &ids, 7, true, &BTreeSet::new());
    put(&w.mods(), &first);
    have(&mut h, &first);
    for d in &first {
        s.note(&d.file);
    }
    let before = files(&w.mods());
    let mut x = Session::start(w.local(), &[("Steam", w.platform())], vec![]);
    settle("start", &mut x)?;
    let v = x.view();
    ensure!(s, v.error.is_none(), "start: an error", "{:?}", v.error);
    let bad: Vec<String> = first.iter().filter(|d| matches!(d.kind, Kind::Bad)).map(|d| d.file.clone()).collect();
    check_warned(s, &v, &bad)?;
    check_listed(s, &v, &h)?;
    for (id, m) in &v.mods {
        let top = vtext(h[id].keys().next_back().unwrap());
        ensure_eq!(s, m.picked, Picked::Indirect(Some(top.clone())), "start: version in use", "version in use of {id}");
        ensure_eq!(s, m.latest, Some(top), "start: latest version", "latest version of {id}");
        ensure!(s, !m.enabled, "start: enabled", "{id} is enabled without having been so");
    }
    let mut after = files(&w.mods());
    after.remove("modconfig.json");
    ensure_eq!(s, after.keys().collect::<Vec<_>>(), before.keys().collect::<Vec<_>>(), "start: files of the Mods folder", "files of the Mods folder");
    ensure!(s, after == before, "start: contents of the Mods folder", "files of the Mods folder changed");
    if !bad.is_empty() && h.len() > 1 {
        s.nontrivial();
    }
    s.class(format!("{} mods", h.len()));
    // what the user does
    let mut on: BTreeMap<String, bool> = v.mods.keys().map(|k| (k.clone(), false)).collect();
    for step in 0..s.size(4) {
        x.clear_warnings();
        let was = x.view();
        let mut disk = files(&w.mods());
        disk.remove("modconfig.json");
        match s.below(4) {
            0 | 1 => {
                let from = w.inbox().join(format!("in{step}"));
                fs::create_dir_all(&from).unwrap();
                let taken: BTreeSet<(String, V3)> = h.iter().flat_map(|(k, e)| e.keys().map(|v| (k.clone(), *v))).collect();
                let mut l = batch(s, &ids, 4, true, &taken);
                l.retain(|d| d.file != INTEGRATED && d.data.is_some() && !disk.contains_key(&d.file) && !disk.contains_key(&format!("{}/", d.file)));
                put(&from, &l);
                let mut paths: Vec<_> = l.iter().map(|d| from.join(&d.file)).collect();
                let mut bad: Vec<String> = l.iter().filter(|d| !matches!(d.kind, Kind::Good(_))).map(|d| d.file.clone()).collect();
                // files that are there already: the same one again, from elsewhere or from the Mods folder itself
                let mut again = vec![];
                let mut remade: Vec<Spec> = vec![];
                for e in h.values().flat_map(|e| e.values()) {
                    if s.chance(1, 6) {
                        again.push(e.file());
                        if s.chance(1, 3) {
                            s.class("another copy of an installed mod is dropped");
                            let mut n = Spec::gen(s, &e.id, e.version);
                            n.priority = e.priority;
                            fs::write(from.join(e.file()), n.bytes()).unwrap();
                            paths.push(from.join(e.file()));
                            remade.push(n);
                        } else if s.chance(1, 3) {
                            s.class("a damaged copy of an installed mod is dropped");
                            let mut b = e.bytes();
                            let n = s.below(b.len() - 33);
                            b.truncate(n);
                            fs::write(from.join(e.file()), b).unwrap();
                            paths.push(from.join(e.file()));
                            bad.push(e.file());
                        } else if s.flag() {
                            s.class("a file of the Mods folder is dropped");
                            paths.push(w.mods().join(e.file()));
                        } else {
                            fs::write(from.join(e.file()), e.bytes()).unwrap();
                            paths.push(from.join(e.file()));
                        }
                    }
                }
                let mut missing = 0;
                if s.chance(1, 5) {
                    missing = 1;
                    paths.insert(s.below(paths.len() + 1), from.join("000-Gone-1.0.0_P.pak"));
                }
                s.note(format!("drop {paths:?}"));
                s.class("drop");
                if !h.is_empty() && !l.is_empty() {
                    s.nontrivial();
                }
                x.import(&paths);
                settle("drop", &mut x)?;
                have(&mut h, &l);
                for n in remade {
                    disk.insert(n.file(), n.bytes());
                    h.get_mut(&n.id).unwrap().insert(n.version, n);
                }
                let v = x.view();
                let got: BTreeSet<String> = v.warnings.iter().filter_map(|w| w.about.clone()).collect();
                bad.sort();
                ensure_eq!(s, got.into_iter().collect::<Vec<_>>(), bad, "drop: files warned about", "files warned about");
                ensure_eq!(s, v.warnings.len(), bad.len() + missing, "drop: number of warnings", "warnings ({:?})", v.warnings);
                check_listed(s, &v, &h)?;
                for (id, m) in &v.mods {
                    let e = *on.entry(id.clone()).or_insert(true);
                    ensure_eq!(s, m.enabled, e, "drop: enabled", "whether {id} is enabled");
                    if let Some(o) = was.mods.get(id) {
                        if let Picked::Exact(_) = o.picked {
                            ensure_eq!(s, m.picked, o.picked, "drop: the chosen version changed", "version of {id}");
                        }
                    }
                }
                for d in &l {
                    if let Kind::Good(_) = d.kind {
                        disk.insert(d.file.clone(), d.data.clone().unwrap());
                    }
                }
                let mut now = files(&w.mods());
                now.remove("modconfig.json");
                ensure_eq!(s, now.keys().collect::<Vec<_>>(), disk.keys().collect::<Vec<_>>(), "drop: files of the Mods folder", "files of the Mods folder");
                ensure!(s, now == disk, "drop: contents of the Mods folder", "a file of the Mods folder changed; dropped again: {again:?}");
            }
            2 => {
                let Some(id) = h.keys().nth(s.below(h.len().max(1))).cloned() else { continue };
                s.note(format!("remove {id}"));
                s.class("remove");
                for e in h.remove(&id).unwrap().values() {
                    disk.remove(&e.file());
                }
                on.remove(&id);
                x.remove(&id);
                settle("remove", &mut x)?;
                let v = x.view();
                check_warned(s, &v, &[])?;
                check_listed(s, &v, &h)?;
                let mut now = files(&w.mods());
                now.remove("modconfig.json");
                ensure_eq!(s, now.keys().collect::<Vec<_>>(), disk.keys().collect::<Vec<_>>(), "remove: files of the Mods folder", "files of the Mods folder after removing {id}");
                ensure!(s, now == disk, "remove: contents of the Mods folder", "a file of the Mods folder changed");
            }
            _ => {
                let Some(id) = h.keys().nth(s.below(h.len().max(1))).cloned() else { continue };
                let p = h[&id].keys().nth(s.below(h[&id].len())).unwrap();
                let e = s.flag();
                x.enable(&id, e);
                on.insert(id.clone(), e);
                x.pick(&id, &Picked::Exact(vtext(p)));
                // details follow with the next look at the files of this mod
                let f = h[&id][p].clone();
                x.import(&[w.mods().join(f.file())]);
                settle("choose", &mut x)?;
                let v = x.view();
                check_details(s, &v.mods[&id], &f)?;
                ensure_eq!(s, v.mods[&id].picked, Picked::Exact(vtext(p)), "choose: version", "version of {id}");
                ensure!(s, files(&w.mods()).get(&f.file()) == Some(&f.bytes()), "choose: contents of the Mods folder", "{} changed", f.file());
            }
        }
    }
    exit("exit", x)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C32",
        rule: "history: at least two mods and one file that is no mod are in the Mods folder at the start, or files are dropped beside installed mods",
        assumptions: &["crates of the window, of Steam and of the user's directories are stand-ins"],
        facets: vec![Facet { name: "history", quick: 40_000, thorough: 400_000, run: history }],
    }]
}
