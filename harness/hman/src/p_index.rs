//! Index files: the versions of a mod that its author offers.
use crate::net::*;
use crate::world::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use unreal_mod_manager::drive::*;
use vkit::*;

#[derive(Clone, Debug)]
pub struct Offer {
    pub latest: String,
    /// version -> (url, file)
    pub versions: BTreeMap<String, (String, String)>,
    /// versions that may not be offered like this
    pub refused: usize,
}
fn bad_file(s: &mut Src, id: &str, v: &str) -> String {
    match s.below(13) {
        9 => format!("000-{id}-{v}0_P.pak"),
        10 => format!("000-{id}-{}_P.pak", if v == "7.7.7" { "7.7.8" } else { "7.7.7" }),
        11 => format!("000-X.{id}-{v}_P.pak"),
        12 => format!("000-Other-{v}_P.pak"),
        0 => format!("../000-{id}-{v}_P.pak"),
        1 => format!("000-{id}-{v}.pak"),
        2 => format!("x/000-{id}-{v}_P.pak"),
        3 => format!("00-{id}-{v}_P.pak"),
        4 => format!("abc-{id}-{v}_P.pak"),
        5 => format!("000-m{id}-{v}_P.pak"),
        6 => String::new(),
        7 => format!("000-{id}/../../x-{v}_P.pak"),
        _ => format!("000-{id}-1.2_P.pak"),
    }
}
/// what an index file of a mod offers, and its text
pub fn offer(s: &mut Src, id: &str, url: impl Fn(&str) -> String, local: &[String], bad: bool) -> (Offer, Value) {
    let mut o = Offer { latest: String::new(), versions: BTreeMap::new(), refused: 0 };
    let mut m = Map::new();
    for _ in 0..s.size(4) {
        let v = if !local.is_empty() && s.chance(1, 3) { s.pick(local).clone() } else { vtext(&version(s)) };
        if m.contains_key(&v) {
            continue;
        }
        let good = format!("{:03}-{id}-{v}_P.pak", s.pick(&[0u32, 5, 100, 999]));
        let f = if bad && s.chance(1, 6) { bad_file(s, id, &v) } else { good.clone() };
        let u = url(&format!("files/{}{v}", ["", "again/", "moved/"][s.below(3)]));
        m.insert(v.clone(), json!({"download_url": u, "filename": f}));
        if f == good {
            o.versions.insert(v, (u, f));
        } else {
            s.class("a file name that is none");
            o.refused += 1;
        }
    }
    let all: Vec<String> = m.keys().cloned().collect();
    o.latest = if all.is_empty() || (bad && s.chance(1, 8)) { vtext(&version(s)) } else { s.pick(&all).clone() };
    let v = json!({"latest_version": o.latest, "versions": m});
    (o, v)
}
/// a page, and the offer when it is a good one
fn page(s: &mut Src, site: &Site, id: &str, local: &[String]) -> (Page, Option<Offer>) {
    let (o, v) = offer(s, id, |n| site.url(n), local, true);
    let mut mods = Map::new();
    if s.chance(1, 3) {
        mods.insert("Another".into(), offer(s, "Another", |n| site.url(n), &[], false).1);
    }
    mods.insert(id.into(), v);
    let mut top = json!({ "mods": mods });
    if s.chance(1, 4) {
        top["extra"] = json!([1, {"a": null}]);
    }
    let text = |v: &Value| serde_json::to_vec(v).unwrap();
    if s.chance(2, 3) {
        return (Page::Data(text(&top)), Some(o));
    }
    let what = s.below(12);
    s.class(format!("bad index {what}"));
    let p = match what {
        0 => Page::Status(*s.pick(&[404u16, 500, 403, 302, 304, 503]), text(&top)),
        1 => {
            let mut b = text(&top);
            let n = s.below(b.len());
            b.truncate(n);
            Page::Cut(b)
        }
        2 => Page::Hangup,
        3 => {
            let mut b = text(&top);
            let n = s.below(b.len());
            b.truncate(n);
            Page::Data(b)
        }
        4 => {
            top["mods"].as_object_mut().unwrap().remove(id);
            Page::Data(text(&top))
        }
        5 => {
            top["mods"][id]["latest_version"] = json!(*s.pick(&["", "x", "1.2", "01.2.3", "v1.0.0", "1.2.3.4", "99999999999999999999.0.0"]));
            Page::Data(text(&top))
        }
        6 => {
            let k = *s.pick(&["", "x", "1.2", "1.02.3", "latest", "1.2.3.4"]);
            top["mods"][id]["versions"][k] = json!({"download_url": site.url("x"), "filename": format!("000-{id}-1.0.0_P.pak")});
            Page::Data(text(&top))
        }
        7 => {
            let k = *s.pick(&["latest_version", "versions"]);
            if s.flag() {
                top["mods"][id].as_object_mut().unwrap().remove(k);
            } else {
                top["mods"][id][k] = s.pick(&[json!(1), json!(null), json!([1]), json!(false)]).clone();
            }
            Page::Data(text(&top))
        }
        8 => {
            top["mods"][id]["versions"]["5.5.5"] = s.pick(&[json!({"download_url": "x"}), json!({"filename": "x"}), json!(1), json!({"download_url": 1, "filename": 2})]).clone();
            Page::Data(text(&top))
        }
        9 => {
            let n = s.size(60);
            Page::Data(s.blob(n))
        }
        10 => Page::Data(s.pick(&[&b"[]"[..], b"{}", b"null", b"{\"mods\":[1]}", b"{\"mods\":null}", b"\xff\xfe"]).to_vec()),
        _ => Page::Data(vec![]),
    };
    (p, None)
}

struct Model {
    /// version -> file
    local: BTreeMap<String, Spec>,
    listed: BTreeSet<String>,
    picked: Picked,
    url: Option<String>,
}
fn vmax<'a>(l: impl Iterator<Item = &'a String>) -> Option<String> {
    l.max_by_key(|v| vparse(v)).cloned()
}

fn index(s: &mut Src) -> Res {
    let w = Scratch::new();
    let site = Site::new();
    let n = s.urange(1, 3);
    let ids: Vec<String> = (0..n).map(|k| mod_id(s, k)).collect();
    let mut model: BTreeMap<String, Model> = BTreeMap::new();
    let new_file = |s: &mut Src, id: &str, model: &BTreeMap<String, Model>| -> Option<Spec> {
        let v = version(s);
        if model.get(id).map(|m| m.listed.contains(&vtext(&v))).unwrap_or(false) {
            return None;
        }
        let mut x = Spec::gen(s, id, v);
        if s.chance(3, 4) {
            x.download = Some(site.url(&format!("index/{id}{}", if s.chance(1, 5) { "2" } else { "" })));
        }
        Some(x)
    };
    for id in &ids {
        for _ in 0..s.urange(1, 3) {
            if let Some(x) = new_file(s, id, &model) {
                fs::write(w.mods().join(x.file()), x.bytes()).unwrap();
                let m = model.entry(id.clone()).or_insert_with(|| Model { local: BTreeMap::new(), listed: BTreeSet::new(), picked: Picked::Indirect(None), url: None });
                m.listed.insert(vtext(&x.version));
                m.local.insert(vtext(&x.version), x);
            }
        }
    }
    for m in model.values_mut() {
        let top = vmax(m.local.keys()).unwrap();
        m.url = m.local[&top].download.clone();
        m.picked = Picked::Indirect(Some(top));
    }
    let mut x: Option<Session> = None;
    for round in 0..s.urange(1, 3) {
        // what the authors offer now
        let mut offers: BTreeMap<String, Option<Offer>> = BTreeMap::new();
        for id in &ids {
            for k in ["", "2"] {
                let name = format!("index/{id}{k}");
                let local: Vec<String> = model[id].local.keys().cloned().collect();
                let (p, o) = page(s, &site, id, &local);
                s.note(format!("{name}: {}", p.show()));
                site.put(&name, p);
                offers.insert(site.url(&name), o);
            }
        }
        let mut seen = ids.clone();
        let files_before = files(&w.mods());
        let mut dropped = Tree::new();
        match &mut x {
            None => {
                let mut n = Session::start(w.local(), &[("Steam", w.platform())], vec![]);
                settle("start", &mut n)?;
                x = Some(n);
            }
            Some(x) => {
                x.clear_warnings();
                let mut paths = vec![];
                seen.clear();
                for id in &ids {
                    if s.chance(1, 4) {
                        let l: Vec<&String> = model[id].listed.iter().collect();
                        let v = (*s.pick(&l)).clone();
                        x.pick(id, &Picked::Exact(v.clone()));
                        model.get_mut(id).unwrap().picked = Picked::Exact(v);
                    }
                    if s.chance(2, 3) {
                        if let Some(f) = new_file(s, id, &model) {
                            let p = w.inbox().join(f.file());
                            fs::write(&p, f.bytes()).unwrap();
                            paths.push(p);
                            dropped.insert(f.file(), f.bytes());
                            let m = model.get_mut(id).unwrap();
                            m.listed.insert(vtext(&f.version));
                            m.local.insert(vtext(&f.version), f);
                            seen.push(id.clone());
                            if let Some(x) = m.local.get(&m.picked.version()) {
                                m.url = x.download.clone();
                            }
                        }
                    }
                }
                s.note(format!("round {round}: drop {paths:?}"));
                x.import(&paths);
                settle("drop", x)?;
            }
        }
        let v = x.as_ref().unwrap().view();
        ensure!(s, v.error.is_none(), "an error", "{:?}", v.error);
        ensure_eq!(s, v.mods.keys().collect::<Vec<_>>(), model.keys().collect::<Vec<_>>(), "mods listed", "mods listed");
        for id in &ids {
            let m = model.get_mut(id).unwrap();
            let got = &v.mods[id];
            let warned: Vec<&str> = v.warnings.iter().filter(|e| e.about.as_deref() == Some(id)).map(|e| e.kind.as_str()).collect();
            let mut wrong = 0;
            let mut urls: BTreeMap<String, (String, String)> = BTreeMap::new();
            if let (true, Some(u)) = (seen.contains(id), &m.url) {
                match &offers[u] {
                    None => wrong = 1,
                    Some(o) => {
                        s.class("a good index file");
                        wrong = o.refused;
                        urls = o.versions.clone();
                        m.listed.extend(o.versions.keys().cloned());
                        if m.listed.contains(&o.latest) {
                            if !matches!(m.picked, Picked::Exact(_)) {
                                m.picked = Picked::Latest(o.latest.clone());
                            }
                            ensure_eq!(s, got.latest.as_ref(), Some(&o.latest), "latest version", "latest version of {id}");
                            s.nontrivial();
                        } else {
                            s.class("the latest version is not offered");
                            wrong += 1;
                        }
                    }
                }
            }
            ensure!(s, (wrong == 0) == warned.is_empty(), "warnings", "{id}: warnings {warned:?}, expected {}", if wrong == 0 { "none" } else { "some" });
            ensure_eq!(s, got.versions.keys().cloned().collect::<BTreeSet<_>>(), m.listed.clone(), "versions listed", "versions of {id}");
            ensure_eq!(s, got.picked, m.picked.clone(), "version in use", "version of {id} in use");
            ensure!(s, got.latest.as_ref().map(|l| m.listed.contains(l)).unwrap_or(false), "latest version does not exist", "{id}: {:?}", got.latest);
            for (k, e) in &got.versions {
                let here = m.local.get(k);
                ensure_eq!(s, e.downloaded, here.is_some(), "whether a version is there", "{id} {k}");
                ensure_eq!(s, &e.id, id, "mod of a version", "{id} {k}");
                if let Some(x) = here {
                    ensure_eq!(s, e.file, x.file(), "file of a version that is there", "{id} {k}");
                    ensure!(s, e.meta.is_some(), "metadata of a version that is there", "{id} {k}");
                }
                if let Some((u, f)) = urls.get(k) {
                    ensure_eq!(s, e.url.as_ref(), Some(u), "address of a version", "{id} {k}");
                    // (an earlier index file may have given it another name)
                    if here.is_none() && round == 0 {
                        ensure_eq!(s, &e.file, f, "file of an offered version", "{id} {k}");
                    }
                }
                if here.is_none() {
                    ensure!(s, e.url.is_some() && e.meta.is_none(), "an offered version", "{id} {k}: {e:?}");
                }
            }
            if let Some(x) = m.local.get(&m.picked.version()) {
                if seen.contains(id) && matches!(m.picked, Picked::Exact(_)) {
                    check_details(s, got, x)?;
                }
            }
        }
        let all = v.warnings.iter().filter(|e| !e.about.as_ref().map(|a| ids.contains(a)).unwrap_or(false)).count();
        ensure_eq!(s, all, 0, "warnings about something else", "other warnings ({:?})", v.warnings);
        let mut want = files_before;
        want.extend(dropped);
        let mut now = files(&w.mods());
        now.remove("modconfig.json");
        want.remove("modconfig.json");
        ensure!(s, now == want, "files of the Mods folder", "{:?}, expected {:?}", now.keys(), want.keys());
    }
    ensure!(s, site.hits().iter().all(|h| h.starts_with("index/")), "something was downloaded unasked", "{:?}", site.hits());
    exit("exit", x.unwrap())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C35",
        rule: "index: at least one mod has a good index file",
        assumptions: &["the web server is a loopback one without TLS", "crates of the window, of Steam and of the user's directories are stand-ins"],
        facets: vec![Facet { name: "index", quick: 18_000, thorough: 300_000, run: index }],
    }]
}
