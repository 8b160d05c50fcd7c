//! Settings: what is saved is what the next start finds; damaged settings do no harm.
use crate::p_scan::*;
use crate::world::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use unreal_mod_manager::drive::*;
use vkit::*;

const PLATFORMS: [&str; 3] = ["Steam", "Proton", "Winstore"];

fn platforms(s: &mut Src, w: &Scratch) -> Vec<(&'static str, Platform)> {
    let mut l: Vec<(&'static str, Platform)> = vec![];
    for n in PLATFORMS {
        if s.chance(2, 3) {
            let mut p = w.platform();
            if s.chance(1, 4) {
                p.install = None;
            }
            if s.chance(1, 4) {
                p.paks = None;
            }
            if let Some(p) = &mut p.paks {
                p.push(n);
            }
            p.build = s.flag().then(|| (1, s.below(30), s.below(9), s.below(500)));
            l.push((n, p));
        }
    }
    if l.is_empty() {
        l.push((*s.pick(&PLATFORMS), w.platform()));
    }
    l
}
/// the platform that is used when none is set
fn fallback(l: &[(&'static str, Platform)]) -> &'static str {
    if l.iter().any(|e| e.0 == "Steam") {
        return "Steam";
    }
    l.iter().map(|e| e.0).min().unwrap()
}
fn check_platform(s: &mut Src, v: &View, l: &[(&'static str, Platform)], want: &str) -> Res {
    ensure_eq!(s, v.platform.as_deref(), Some(want), "platform: selected", "the selected platform");
    let p = &l.iter().find(|e| e.0 == want).unwrap().1;
    let got = (v.install.clone(), v.paks.clone(), v.build.clone());
    let b = p.build.map(|b| format!("{}.{}.{}.{}", b.0, b.1, b.2, b.3));
    ensure_eq!(s, got, (p.install.clone(), p.paks.clone(), b), "platform: paths", "paths and build of platform {want}");
    Ok(())
}
fn installed(s: &mut Src, w: &Scratch) -> Have {
    let n = s.urange(1, 4);
    let ids: Vec<String> = (0..n).map(|k| mod_id(s, k)).collect();
    let l = batch(s, &ids, 6, false, &BTreeSet::new());
    put(&w.mods(), &l);
    let mut h = Have::new();
    have(&mut h, &l);
    h
}
fn some_id(s: &mut Src, h: &Have) -> String {
    if !h.is_empty() && s.chance(3, 4) {
        h.keys().nth(s.below(h.len())).unwrap().clone()
    } else {
        (*s.pick(&["Gone", "", "mod0", "Über"])).to_string()
    }
}
fn some_version(s: &mut Src, h: &Have, id: &str) -> String {
    match h.get(id) {
        Some(m) if s.chance(2, 3) => vtext(m.keys().nth(s.below(m.len())).unwrap()),
        _ => match s.below(4) {
            0 => vtext(&version(s)),
            1 => "77.1.2".into(),
            2 => "1.0.0-beta".into(),
            _ => (*s.pick(&["", "x", "1.2", "1.02.3", "v1.0.0", "99999999999999999999.0.0"])).to_string(),
        },
    }
}
fn profile_mods(s: &mut Src, h: &Have, legacy: bool, canon: &mut Map<String, Value>) -> Value {
    let mut m = Map::new();
    for _ in 0..s.size(3) {
        let id = some_id(s, h);
        let v = some_version(s, h, &id);
        let p = s.u16v();
        let f = s.below(3);
        let mut e = json!({"priority": p, "version": v});
        if f < 2 {
            e["force_latest"] = json!(f == 1);
        }
        let mut on = true;
        if legacy {
            on = s.flag();
            e["enabled"] = json!(on);
        }
        m.insert(id.clone(), e);
        canon.remove(&id);
        if on {
            canon.insert(id, json!({"force_latest": f != 0, "priority": p, "version": v}));
        }
    }
    Value::Object(m)
}
fn sort(v: &Value) -> Vec<String> {
    let mut l: Vec<String> = v.as_array().map(|l| l.iter().map(|e| e.to_string()).collect()).unwrap_or_default();
    l.sort();
    l
}
/// (the value in the file, the profiles it stands for, whether their order counts)
fn profiles(s: &mut Src, h: &Have) -> (Value, Value, bool) {
    if s.chance(1, 3) {
        s.class("profiles of an earlier release");
        let (mut m, mut out) = (Map::new(), BTreeMap::new());
        for _ in 0..s.size(3) {
            let n = words(s, 4);
            let mut c = Map::new();
            let v = profile_mods(s, h, true, &mut c);
            m.insert(n.clone(), json!({"mods": v}));
            out.insert(n.clone(), json!({"name": n, "mods": c}));
        }
        return (Value::Object(m), Value::Array(out.into_values().collect()), false);
    }
    if s.chance(1, 8) {
        s.class("unreadable profiles");
        return (s.pick(&[json!(1), json!("x"), json!([1]), json!([{"name": 1}]), Value::Null, json!({"a": 1})]).clone(), json!([]), true);
    }
    let (mut l, mut out) = (vec![], vec![]);
    for _ in 0..s.size(3) {
        let n = words(s, 4);
        let mut c = Map::new();
        let v = profile_mods(s, h, false, &mut c);
        l.push(json!({"name": n, "mods": v}));
        out.push(json!({"name": n, "mods": c}));
    }
    (Value::Array(l), Value::Array(out), true)
}

struct Want {
    refuse: bool,
    platform: String,
    /// mod -> (enabled, version chosen)
    mods: BTreeMap<String, (bool, Option<String>)>,
    trusted: BTreeSet<Vec<u8>>,
    profiles: Value,
    ordered: bool,
}
fn check(s: &mut Src, v: &View, h: &Have, l: &[(&'static str, Platform)], w: &Want) -> Res {
    ensure!(s, v.error.is_none(), "start: an error", "{:?}", v.error);
    check_platform(s, v, l, &w.platform)?;
    ensure_eq!(s, v.refuse, w.refuse, "settings: refuse mismatched connections", "refuse mismatched connections");
    ensure_eq!(s, v.trusted, w.trusted, "settings: trusted mods", "trusted mods");
    if w.ordered {
        ensure_eq!(s, v.profiles, w.profiles, "settings: profiles", "profiles");
    } else {
        ensure_eq!(s, sort(&v.profiles), sort(&w.profiles), "settings: profiles", "profiles");
    }
    ensure_eq!(s, v.mods.keys().collect::<Vec<_>>(), h.keys().collect::<Vec<_>>(), "settings: mods", "mods listed");
    for (id, m) in &v.mods {
        let top = vtext(h[id].keys().next_back().unwrap());
        let (on, ver) = w.mods.get(id).cloned().unwrap_or((false, None));
        ensure_eq!(s, m.enabled, on, "settings: enabled", "whether {id} is enabled");
        let p = match ver {
            Some(v) => Picked::Exact(v),
            None => Picked::Indirect(Some(top)),
        };
        ensure_eq!(s, m.picked, p, "settings: version in use", "version of {id}");
    }
    Ok(())
}

/// a settings file written by hand or by another release
fn load(s: &mut Src) -> Res {
    let w = Scratch::new();
    let h = installed(s, &w);
    let l = platforms(s, &w);
    let (file, profiles, ordered) = profiles(s, &h);
    let mut want = Want {
        refuse: s.flag(),
        platform: fallback(&l).to_string(),
        mods: BTreeMap::new(),
        trusted: BTreeSet::new(),
        profiles,
        ordered,
    };
    let mut mods = Map::new();
    for _ in 0..s.size(5) {
        let id = some_id(s, &h);
        let v = some_version(s, &h, &id);
        let on = s.flag();
        let f = s.below(3);
        let mut e = json!({"priority": s.u16v(), "version": v, "enabled": on});
        if f < 2 {
            e["force_latest"] = json!(f == 1);
        }
        mods.insert(id.clone(), e);
        let there = f == 0 && h.get(&id).map(|m| m.keys().any(|k| vtext(k) == v)).unwrap_or(false);
        if f == 0 && !there && h.contains_key(&id) {
            s.class("a version that is not there is chosen");
        }
        want.mods.insert(id, (on, there.then_some(v)));
    }
    let mut c = json!({"refuse_mismatched_connections": want.refuse, "current": {"mods": mods}, "profiles": file});
    match s.below(4) {
        0 => {}
        1 => c["selected_game_platform"] = Value::Null,
        2 => {
            let p = l[s.below(l.len())].0;
            c["selected_game_platform"] = json!(p);
            want.platform = p.into();
        }
        _ => {
            let p = *s.pick(&["Steam", "Proton", "Winstore", "Epic", ""]);
            c["selected_game_platform"] = json!(p);
            if l.iter().any(|e| e.0 == p) {
                want.platform = p.into();
            } else {
                s.class("a platform that is not there is chosen");
            }
        }
    }
    if s.flag() {
        let mut t = vec![];
        for _ in 0..s.size(3) {
            let b = s.bytes(4);
            let mut x: String = b.iter().map(|e| format!("{e:02x}")).collect();
            match s.below(4) {
                0 => {
                    x.push(*s.pick(&['0', 'g', ' ']));
                }
                1 => {
                    x = x.to_uppercase();
                    want.trusted.insert(b);
                }
                _ => {
                    want.trusted.insert(b);
                }
            }
            t.push(x);
        }
        c["trusted_mods"] = json!(t);
    }
    s.note(clip(&c.to_string()));
    let text = if s.flag() { c.to_string() } else { serde_json::to_string_pretty(&c).unwrap() };
    fs::write(w.config(), text).unwrap();
    let mut x = Session::start(w.local(), &l, vec![]);
    settle("start", &mut x)?;
    let v = x.view();
    check(s, &v, &h, &l, &want)?;
    if want.mods.keys().any(|e| h.contains_key(e)) {
        s.nontrivial();
    }
    // integrating with these settings must not crash either
    x.integrate();
    settle("integrate", &mut x)?;
    exit("exit", x)?;
    // and the settings are still the same for the next start
    let mut x = Session::start(w.local(), &l, vec![]);
    settle("second start", &mut x)?;
    let v = x.view();
    check(s, &v, &h, &l, &want)?;
    exit("second exit", x)
}

/// changes made in the window are found by the next start
fn restart(s: &mut Src) -> Res {
    let w = Scratch::new();
    let h = installed(s, &w);
    let l = platforms(s, &w);
    let mut want = Want {
        refuse: true,
        platform: fallback(&l).to_string(),
        mods: BTreeMap::new(),
        trusted: BTreeSet::new(),
        profiles: json!([]),
        ordered: true,
    };
    let rounds = s.urange(1, 3);
    for _ in 0..rounds {
        let mut x = Session::start(w.local(), &l, vec![]);
        settle("start", &mut x)?;
        let v = x.view();
        check(s, &v, &h, &l, &want)?;
        for _ in 0..s.size(6) {
            match s.below(5) {
                0 => {
                    want.refuse = s.flag();
                    x.refuse(want.refuse);
                }
                1 => {
                    want.platform = l[s.below(l.len())].0.into();
                    ensure!(s, x.platform(&want.platform), "platform: refused", "platform {} cannot be set", want.platform);
                }
                2 => {
                    let p: Vec<Value> = (0..s.size(3))
                        .map(|_| {
                            let n = words(s, 4);
                            let mut c = Map::new();
                            profile_mods(s, &h, false, &mut c);
                            json!({"name": n, "mods": c})
                        })
                        .collect();
                    want.profiles = Value::Array(p);
                    x.profiles(want.profiles.clone());
                }
                _ => {
                    let Some(id) = h.keys().nth(s.below(h.len().max(1))) else { continue };
                    let e = want.mods.entry(id.clone()).or_insert((false, None));
                    e.0 = s.flag();
                    x.enable(id, e.0);
                    let top = vtext(h[id].keys().next_back().unwrap());
                    match s.below(3) {
                        0 => {
                            x.pick(id, &Picked::Indirect(Some(top)));
                            e.1 = None;
                        }
                        1 => {
                            let v = vtext(h[id].keys().nth(s.below(h[id].len())).unwrap());
                            x.pick(id, &Picked::Exact(v.clone()));
                            e.1 = Some(v);
                        }
                        _ => {}
                    }
                }
            }
        }
        x.save();
        settle("save", &mut x)?;
        exit("exit", x)?;
    }
    if want.mods.len() > 1 {
        s.nontrivial();
    }
    let mut x = Session::start(w.local(), &l, vec![]);
    settle("last start", &mut x)?;
    let v = x.view();
    check(s, &v, &h, &l, &want)?;
    exit("last exit", x)
}

/// a settings file that is damaged: the manager starts, with every mod listed
fn damaged(s: &mut Src) -> Res {
    let w = Scratch::new();
    let h = installed(s, &w);
    let l = platforms(s, &w);
    let (file, _, _) = profiles(s, &h);
    let id = some_id(s, &h);
    let c = json!({
        "refuse_mismatched_connections": true, "selected_game_platform": l[0].0, "trusted_mods": ["00ff"],
        "current": {"mods": {id: {"priority": 1, "version": "1.0.0", "enabled": true, "force_latest": true}}}, "profiles": file,
    });
    let mut b = serde_json::to_vec(&c).unwrap();
    let mut dead = false;
    match s.below(5) {
        0 => {
            let n = s.below(b.len());
            b.truncate(n);
            dead = true;
            s.class("cut");
        }
        1 => {
            for _ in 0..s.urange(1, 4) {
                let at = s.below(b.len());
                b[at] = s.byte();
            }
            s.class("bytes changed");
        }
        2 => {
            let n = s.size(60);
            b = s.bytes(n);
            dead = true;
            s.class("noise");
        }
        3 => {
            let at = s.below(b.len());
            b.insert(at, *s.pick(&[0xffu8, 0xc3, 0x80, 0]));
            dead = true;
            s.class("not text");
        }
        _ => {
            let k = *s.pick(&["refuse_mismatched_connections", "current", "trusted_mods", "selected_game_platform"]);
            let mut c = c.clone();
            c[k] = s.pick(&[json!(5), json!([5]), json!({"x": 1}), json!("yes")]).clone();
            if k == "selected_game_platform" && c[k].is_string() {
                c[k] = json!({});
            }
            b = serde_json::to_vec(&c).unwrap();
            dead = !(k == "trusted_mods" && c[k].is_array() && c[k][0].is_string());
            s.class("wrong type");
        }
    }
    s.note(clip(&String::from_utf8_lossy(&b)));
    s.nontrivial();
    fs::write(w.config(), &b).unwrap();
    let before = files(&w.mods());
    let mut x = Session::start(w.local(), &l, vec![]);
    settle("start", &mut x)?;
    let v = x.view();
    ensure!(s, v.error.is_none(), "start: an error", "{:?}", v.error);
    ensure_eq!(s, v.mods.keys().collect::<Vec<_>>(), h.keys().collect::<Vec<_>>(), "damaged: mods", "mods listed");
    ensure!(s, v.platform.is_some(), "damaged: no platform", "no platform is selected");
    if dead {
        let want = Want {
            refuse: true,
            platform: fallback(&l).to_string(),
            mods: BTreeMap::new(),
            trusted: BTreeSet::new(),
            profiles: json!([]),
            ordered: true,
        };
        check(s, &v, &h, &l, &want)?;
    }
    x.integrate();
    settle("integrate", &mut x)?;
    exit("exit", x)?;
    let (mut a, mut b) = (files(&w.mods()), before);
    a.remove("modconfig.json");
    b.remove("modconfig.json");
    ensure!(s, a == b, "damaged: contents of the Mods folder", "files of the Mods folder changed");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C33",
        rule: "load: the settings name a mod that is installed; restart: at least two mods were changed; damaged: always",
        assumptions: &["crates of the window, of Steam and of the user's directories are stand-ins"],
        facets: vec![
            Facet { name: "load", quick: 10_000, thorough: 200_000, run: load },
            Facet { name: "restart", quick: 10_000, thorough: 200_000, run: restart },
            Facet { name: "damaged", quick: 10_000, thorough: 200_000, run: damaged },
        ],
    }]
}
