//! The dependency graph on its own.
use crate::world::*;
use semver::{Version, VersionReq};
use std::collections::{BTreeMap, BTreeSet};
use unreal_mod_manager::drive::*;
use vkit::*;

pub fn requirement(s: &mut Src) -> String {
    let v = (s.size(3), s.size(3), s.size(3));
    let full = format!("{}.{}.{}", v.0, v.1, v.2);
    match s.below(12) {
        0 | 1 => "*".into(),
        2 => full,
        3 => format!("={full}"),
        4 => format!(">={full}"),
        5 => format!("<{full}"),
        6 => format!("~{full}"),
        7 => format!("^{}.{}", v.0, v.1),
        8 => format!("{}.*", v.0),
        9 => format!(">={full}, <{}.0.0", v.0 + 1),
        10 => format!("<={}.{}", v.0, v.1),
        _ => format!(">{}", v.0),
    }
}
pub fn matches(r: &str, v: &str) -> bool {
    VersionReq::parse(r).expect("a requirement").matches(&Version::parse(v).expect("a version"))
}
pub fn canon(r: &str) -> String {
    VersionReq::parse(r).expect("a requirement").to_string()
}

fn graph(s: &mut Src) -> Res {
    let n = s.urange(2, 6);
    let crowd = s.chance(1, 30);
    let mut g = Graph::default();
    let mut known: BTreeMap<String, Vec<String>> = BTreeMap::new();
    // (dependent, needed) -> requirements
    let mut edges: BTreeMap<(String, String), Vec<String>> = BTreeMap::new();
    let mut urls: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for round in 0..s.urange(1, 3) {
        let mut l: Vec<Node> = vec![];
        let count = if crowd { s.urange(20, 50) } else { s.urange(1, 4) };
        for k in 0..count {
            let id = if crowd { format!("R{round}C{k}") } else { format!("M{}", s.below(n)) };
            let versions: Vec<String> = (0..s.urange(1, 4)).map(|_| vtext(&(s.size(3) as u64, s.size(3) as u64, s.size(3) as u64))).collect();
            let mut needs = BTreeMap::new();
            for _ in 0..s.size(3) {
                let d = format!("M{}", s.below(n));
                let u = s.flag().then(|| format!("http://u{}", s.below(3)));
                needs.insert(d, (requirement(s), u));
            }
            l.push(Node { id, versions, needs });
        }
        s.note(format!("{l:?}"));
        let mut asked = BTreeSet::new();
        for m in &l {
            known.entry(m.id.clone()).or_default();
            if known[&m.id].is_empty() {
                known.insert(m.id.clone(), m.versions.clone());
            }
            for (d, (r, u)) in &m.needs {
                known.entry(d.clone()).or_default();
                edges.entry((m.id.clone(), d.clone())).or_default().push(r.clone());
                let e = urls.entry(d.clone()).or_default();
                if let Some(u) = u {
                    if !e.contains(u) {
                        e.push(u.clone());
                    }
                }
                asked.insert(d.clone());
            }
        }
        let got = match guarded(|| g.add(&l)) {
            Ok(e) => e,
            Err((at, m)) => return fail(format!("add: crashes: {}", norm(&m)), format!("{m} in {at}")),
        };
        let keys: BTreeSet<String> = got.keys().cloned().collect();
        ensure_eq!(s, keys, asked, "add: the mods needed", "mods needed by the mods added");
        for (d, (r, u)) in &got {
            let mut want = urls[d].clone();
            let mut u = u.clone();
            want.sort();
            u.sort();
            ensure_eq!(s, u, want, "add: index files", "index files for {d}");
            for a in 0..4u64 {
                for b in 0..4u64 {
                    for c in [0u64, 1, 3] {
                        let v = vtext(&(a, b, c));
                        let want = edges.iter().filter(|(k, _)| k.1 == *d).all(|(_, l)| l.iter().all(|r| matches(r, &v)));
                        ensure!(s, r.matches(&Version::parse(&v).unwrap()) == want, "add: requirement", "{d} {v}: {r} should say {want}");
                    }
                }
            }
        }
    }
    if edges.len() > 2 {
        s.nontrivial();
    }
    let got = match guarded(|| g.resolve()) {
        Ok(e) => e,
        Err((at, m)) => return fail(format!("resolve: crashes: {}", norm(&m)), format!("{m} in {at}")),
    };
    for (id, versions) in &known {
        let reqs: Vec<(&String, &String)> = edges.iter().filter(|(k, _)| k.1 == *id).flat_map(|(k, l)| l.iter().map(move |r| (&k.0, r))).collect();
        let ok: Vec<&String> = versions.iter().filter(|v| reqs.iter().all(|r| matches(r.1, v))).collect();
        let warned: Vec<&Warn> = got.warnings.iter().filter(|w| w.about.as_deref() == Some(id)).collect();
        let whom: BTreeSet<&String> = reqs.iter().map(|e| e.0).collect();
        if ok.is_empty() {
            s.class(if versions.is_empty() { "unknown mod" } else { "no version matches" });
            ensure!(s, !got.versions.contains_key(id), "resolve: a version that does not do", "{id}: {:?} for {reqs:?}", got.versions.get(id));
            ensure_eq!(s, warned.len(), 1, "resolve: warnings", "warnings about {id}");
            ensure_eq!(s, warned[0].kind, "unresolved", "resolve: kind of warning", "warning about {id}");
            let who: BTreeSet<&String> = warned[0].who.iter().map(|e| &e.0).collect();
            ensure_eq!(s, who, whom, "resolve: who needs it", "mods that need {id}");
            for (m, r) in &warned[0].who {
                ensure!(s, reqs.iter().any(|e| e.0 == m && canon(e.1) == *r), "resolve: what they need", "{m} needs {id} {r}, not one of {reqs:?}");
            }
        } else {
            ensure!(s, warned.is_empty(), "resolve: a warning without reason", "{id}: {warned:?}");
            let v = got.versions.get(id);
            ensure!(s, v.map(|v| ok.contains(&v)).unwrap_or(false), "resolve: version", "{id}: {v:?}, expected one of {ok:?}");
        }
        let d: BTreeSet<String> = g.dependents(id).into_iter().collect();
        ensure_eq!(s, d.iter().collect::<BTreeSet<_>>(), whom, "dependents", "dependents of {id}");
        let l = g.dependents_with_version(id);
        ensure_eq!(s, l.iter().map(|e| &e.0).collect::<BTreeSet<_>>(), whom, "dependents with version: who", "dependents of {id}");
        for (m, r) in &l {
            ensure!(s, reqs.iter().any(|e| e.0 == m && canon(e.1) == *r), "dependents with version: what", "{m} needs {id} {r}, not one of {reqs:?}");
        }
    }
    ensure!(s, got.versions.keys().all(|k| known.contains_key(k)), "resolve: mods from nowhere", "{:?}", got.versions);
    ensure!(s, g.dependents("Nobody").is_empty() && g.dependents_with_version("Nobody").is_empty(), "dependents: of an unknown mod", "not empty");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![Facet { name: "graph", quick: 320_000, thorough: 1_000_000, run: graph }]
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C34",
        rule: "graph: at least three dependencies",
        assumptions: &["what a single version requirement means is taken from the semver crate"],
        facets: facets(),
    }]
}
