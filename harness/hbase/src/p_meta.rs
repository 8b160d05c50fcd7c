//! C09 metadata loading, C10 metadata identity.
use semver::VersionReq;
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use unreal_mod_metadata::{from_slice, Dependency, DownloadInfo, DownloadMode, Metadata, SyncMode};
use vkit::*;

#[derive(Debug, Clone)]
struct Model {
    schema: Option<u64>, // None: absent
    name: String,
    mod_id: String,
    version: String,
    author: Option<String>,
    description: Option<String>,
    game_build: Option<String>,
    homepage: Option<String>,
    sync: Option<usize>,
    download: Option<String>,
    deps: BTreeMap<String, (String, Option<Option<String>>)>, // version, None = plain string form
    integrator: BTreeMap<String, Value>,
    dlls: Vec<String>,
}

const SYNC: [(&str, SyncMode); 4] = [
    ("serverclient", SyncMode::ServerAndClient),
    ("server", SyncMode::ServerOnly),
    ("client", SyncMode::ClientOnly),
    ("none", SyncMode::None),
];
const V1_KEYS: [&str; 5] = [
    "persistent_actors",
    "mission_trailheads",
    "linked_actor_components",
    "item_list_entries",
    "biome_placement_modifiers",
];

fn gen_value(s: &mut Src, depth: usize) -> Value {
    match s.draw(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => json!(s.flag()),
        2 => json!(s.i64v()),
        3 => json!(s.u64v()),
        4 => json!(s.range(-1000, 1000) as f64 / 4.0),
        5 => json!(s.text(12)),
        6 => {
            let n = s.size(5);
            Value::Array((0..n).map(|_| gen_value(s, depth - 1)).collect())
        }
        _ => {
            let n = s.size(5);
            let mut m = Map::new();
            for _ in 0..n {
                let k = s.text(6);
                m.insert(k, gen_value(s, depth - 1));
            }
            Value::Object(m)
        }
    }
}

fn gen_req(s: &mut Src) -> String {
    let v = |s: &mut Src| match s.draw(3) {
        0 => format!("{}.{}.{}", s.draw(20), s.draw(20), s.draw(300)),
        1 => format!("{}.{}", s.draw(20), s.draw(20)),
        _ => format!("{}", s.draw(20)),
    };
    match s.draw(6) {
        0 => "*".to_string(),
        1 => v(s),
        2 => {
            let op = *s.pick(&[">=", "<=", "=", "^", "~", ">", "<"]);
            format!("{op}{}", v(s))
        }
        3 => format!(">={}, <{}", v(s), v(s)),
        4 => format!("{}.{}.*", s.draw(9), s.draw(9)),
        _ => format!("={}.{}.{}-beta.{}", s.draw(9), s.draw(9), s.draw(9), s.draw(9)),
    }
}

fn opt(s: &mut Src) -> Option<String> {
    if s.flag() {
        Some(s.text(30))
    } else {
        None
    }
}

fn gen_model(s: &mut Src) -> Model {
    let schema = *s.pick(&[Some(2), Some(2), Some(2), None, Some(1)]);
    let v2 = schema == Some(2);
    let mut deps = BTreeMap::new();
    let mut integrator = BTreeMap::new();
    let mut dlls = vec![];
    if v2 {
        for _ in 0..s.size(6) {
            let k = s.text(10);
            let ver = gen_req(s);
            let form = match s.draw(3) {
                0 => None,
                1 => Some(None),
                _ => Some(Some(s.text(20))),
            };
            deps.insert(k, (ver, form));
        }
        for _ in 0..s.size(6) {
            let k = if s.flag() { s.pick(&V1_KEYS).to_string() } else { s.text(10) };
            integrator.insert(k, gen_value(s, 3));
        }
        for _ in 0..s.size(4) {
            dlls.push(s.text(20));
        }
    } else {
        for k in V1_KEYS {
            if s.chance(1, 3) {
                let mut v = gen_value(s, 3);
                if v.is_null() {
                    v = json!([]);
                }
                integrator.insert(k.to_string(), v);
            }
        }
    }
    Model {
        schema,
        name: s.text(20),
        mod_id: s.text(12),
        version: if s.flag() { "1.0.0".into() } else { s.text(8) },
        author: opt(s),
        description: opt(s),
        game_build: opt(s),
        homepage: opt(s),
        sync: if s.flag() { Some(s.below(4)) } else { None },
        download: opt(s),
        deps,
        integrator,
        dlls,
    }
}

fn to_pairs(s: &mut Src, m: &Model) -> Vec<(String, Value)> {
    let v2 = m.schema == Some(2);
    let mut p: Vec<(String, Value)> = vec![];
    if let Some(v) = m.schema {
        p.push(("schema_version".into(), json!(v)));
    }
    p.push(("name".into(), json!(m.name)));
    p.push(("mod_id".into(), json!(m.mod_id)));
    p.push(("version".into(), json!(m.version)));
    for (k, v) in [("author", &m.author), ("description", &m.description), ("game_build", &m.game_build), ("homepage", &m.homepage)] {
        match v {
            Some(t) => p.push((k.into(), json!(t))),
            None => {
                if s.chance(1, 4) {
                    p.push((k.into(), Value::Null));
                }
            }
        }
    }
    if let Some(i) = m.sync {
        p.push(("sync".into(), json!(SYNC[i].0)));
    }
    if let Some(u) = &m.download {
        p.push(("download".into(), json!({"type": "index_file", "url": u})));
    }
    if v2 {
        if !m.deps.is_empty() || s.flag() {
            let mut d = Map::new();
            for (k, (ver, form)) in &m.deps {
                d.insert(
                    k.clone(),
                    match form {
                        None => json!(ver),
                        Some(None) => json!({"version": ver}),
                        Some(Some(u)) => json!({"version": ver, "download": {"type": "index_file", "url": u}}),
                    },
                );
            }
            p.push(("dependencies".into(), Value::Object(d)));
        }
        if !m.integrator.is_empty() || s.flag() {
            p.push(("integrator".into(), Value::Object(m.integrator.clone().into_iter().collect())));
        }
        if !m.dlls.is_empty() || s.flag() {
            p.push(("cpp_loader_dlls".into(), json!(m.dlls)));
        }
    } else {
        for (k, v) in &m.integrator {
            p.push((k.clone(), v.clone()));
        }
    }
    // unknown keys are ignored
    if s.chance(1, 4) {
        p.push(("x_unknown".into(), gen_value(s, 2)));
    }
    // any order
    for i in (1..p.len()).rev() {
        let j = s.below(i + 1);
        p.swap(i, j);
    }
    p
}

fn render(s: &mut Src, p: &[(String, Value)]) -> Vec<u8> {
    let sp = *s.pick(&["", " ", "\n    ", "\t"]);
    let body: Vec<String> = p.iter().map(|(k, v)| format!("{sp}{}:{sp}{}", json!(k), v)).collect();
    format!("{{{}{sp}}}", body.join(",")).into_bytes()
}

fn expect(m: &Model) -> Metadata {
    let mut dependencies = HashMap::new();
    for (k, (ver, form)) in &m.deps {
        dependencies.insert(
            k.clone(),
            Dependency {
                version: VersionReq::parse(ver).unwrap(),
                download: form.clone().flatten().map(|url| DownloadInfo { download_mode: DownloadMode::IndexFile, url }),
            },
        );
    }
    Metadata {
        schema_version: 2,
        name: m.name.clone(),
        mod_id: m.mod_id.clone(),
        author: m.author.clone(),
        description: m.description.clone(),
        mod_version: m.version.clone(),
        game_build: m.game_build.clone(),
        sync: m.sync.map(|i| SYNC[i].1),
        homepage: m.homepage.clone(),
        download: m.download.clone().map(|url| DownloadInfo { download_mode: DownloadMode::IndexFile, url }),
        dependencies,
        integrator: m.integrator.clone().into_iter().collect(),
        cpp_loader_dlls: m.dlls.clone(),
    }
}

/// field by field, without the library's own equality
fn same(s: &mut Src, got: &Metadata, want: &Metadata) -> Res {
    ensure_eq!(s, got.schema_version, want.schema_version, "schema", "schema version");
    ensure_eq!(s, got.name, want.name, "name", "name");
    ensure_eq!(s, got.mod_id, want.mod_id, "mod_id", "mod id");
    ensure_eq!(s, got.author, want.author, "author", "author");
    ensure_eq!(s, got.description, want.description, "description", "description");
    ensure_eq!(s, got.mod_version, want.mod_version, "version", "version");
    ensure_eq!(s, got.game_build, want.game_build, "game_build", "game build");
    ensure_eq!(s, got.sync, want.sync, "sync", "sync mode");
    ensure_eq!(s, got.homepage, want.homepage, "homepage", "homepage");
    ensure_eq!(s, got.download, want.download, "download", "download");
    ensure_eq!(s, got.dependencies, want.dependencies, "dependencies", "dependencies");
    ensure_eq!(s, got.integrator, want.integrator, "integrator", "integrator data");
    ensure_eq!(s, got.cpp_loader_dlls, want.cpp_loader_dlls, "dlls", "loader dlls");
    Ok(())
}

fn parse(s: &mut Src) -> Res {
    let m = gen_model(s);
    let p = to_pairs(s, &m);
    let text = render(s, &p);
    s.note(clip(&String::from_utf8_lossy(&text)));
    s.class(match m.schema {
        None => "no schema version",
        Some(1) => "schema 1",
        _ => "schema 2",
    });
    if !m.deps.is_empty() || !m.integrator.is_empty() || m.sync.is_some() {
        s.nontrivial();
    }
    let got = match from_slice(&text) {
        Ok(g) => g,
        Err(e) => return fail("valid-refused", format!("valid metadata refused: {e}")),
    };
    same(s, &got, &expect(&m))
}

fn invalid(s: &mut Src) -> Res {
    let m = gen_model(s);
    let v2 = m.schema == Some(2);
    let mut p = to_pairs(s, &m);
    let kind = s.draw(8);
    let set = |p: &mut Vec<(String, Value)>, k: &str, v: Value| {
        p.retain(|(n, _)| n != k);
        p.push((k.to_string(), v));
    };
    match kind {
        0 => {
            let k = *s.pick(&["name", "mod_id", "version"]);
            p.retain(|(n, _)| n != k);
        }
        1 => {
            let k = *s.pick(&["name", "mod_id", "version"]);
            let v = s.pick(&[Value::Null, json!(1), json!([]), json!({}), json!(true)]).clone();
            set(&mut p, k, v);
        }
        2 => {
            let v = s.pick(&[json!(0), json!(3), json!(4), json!(u64::MAX), json!(-1), json!("2"), json!(1.5), json!([])]).clone();
            set(&mut p, "schema_version", v);
        }
        3 => {
            let v = s.pick(&[json!("both"), json!("Server"), json!(""), json!(1), json!("ServerAndClient"), json!("clientserver")]).clone();
            set(&mut p, "sync", v);
        }
        4 => {
            let v = s.pick(&[json!({"type": "http", "url": "x"}), json!({"type": "index_file"}), json!({"url": "x"}), json!("x"), json!(7)]).clone();
            set(&mut p, "download", v);
        }
        5 if v2 => {
            let bad = s.pick(&["", "latest", "1.0.0.0", ">=", "a.b.c", ">= x", "1..2", "01.2.3", "^^1", "v1.0.0", "1.0.0;2.0.0", "1.2.3 4.5.6"]).to_string();
            let v = match s.draw(3) {
                0 => json!({"Dep": bad}),
                1 => json!({"Dep": {"version": bad}}),
                _ => s.pick(&[json!({"Dep": 1}), json!({"Dep": {}}), json!({"Dep": null}), json!(["Dep"]), json!({"Dep": {"version": 1}}), json!({"Dep": {"version": "*", "download": {"type": "x", "url": "y"}}})]).clone(),
            };
            set(&mut p, "dependencies", v);
        }
        6 if v2 => {
            let k = *s.pick(&["cpp_loader_dlls", "integrator"]);
            let v = if k == "integrator" { json!([1]) } else { json!([1, "x"]) };
            set(&mut p, k, v);
        }
        _ => {
            // not JSON, or not an object
            let text = render(s, &p);
            let t = match s.draw(3) {
                0 => {
                    let n = s.below(text.len());
                    text[..n].to_vec()
                }
                1 => s.pick(&["", "null", "3", "\"x\"", "[]", "{", "}", "{}"]).as_bytes().to_vec(),
                _ => {
                    let mut t = text;
                    t.push(b'}');
                    t
                }
            };
            return refused(s, 7, t);
        }
    }
    let t = render(s, &p);
    refused(s, kind, t)
}

fn refused(s: &mut Src, kind: u64, t: Vec<u8>) -> Res {
    s.class(format!("kind {kind}"));
    s.nontrivial();
    s.note(clip(&String::from_utf8_lossy(&t)));
    match guarded(|| from_slice(&t).is_err()) {
        Ok(true) => {
            s.checks += 1;
            Ok(())
        }
        Ok(false) => fail(format!("invalid-accepted:{kind}"), "invalid metadata accepted"),
        Err((_, m)) => fail(format!("invalid-panic:{}", norm(&m)), format!("panicked: {m}")),
    }
}

fn hash(m: &Metadata) -> u64 {
    let mut h = DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}

/// rebuild the maps so that their iteration order changes
fn reorder(s: &mut Src, m: &Metadata) -> Metadata {
    let mut c = m.clone();
    let mut d: Vec<_> = m.dependencies.clone().into_iter().collect();
    let mut i: Vec<_> = m.integrator.clone().into_iter().collect();
    d.sort_by(|a, b| a.0.cmp(&b.0));
    i.sort_by(|a, b| a.0.cmp(&b.0));
    if s.flag() {
        d.reverse();
        i.reverse();
    }
    c.dependencies = HashMap::with_capacity(d.len() * (1 + s.below(40)));
    c.dependencies.extend(d);
    c.integrator = HashMap::with_capacity(i.len() * (1 + s.below(40)));
    c.integrator.extend(i);
    c
}

fn identity(s: &mut Src) -> Res {
    let mut m = gen_model(s);
    m.schema = Some(2);
    let a = expect(&m);
    let b = reorder(s, &a);
    s.note(clip(&format!("{a:?}")));
    if a.integrator.len() + a.dependencies.len() > 1 {
        s.nontrivial();
    }
    if a.integrator.values().any(|v| v.is_array() || v.is_object()) {
        s.class("nested integrator data");
    }
    ensure!(s, a == b && b == a && a == a.clone(), "eq", "equal metadata compare unequal");
    ensure_eq!(s, hash(&a), hash(&b), "hash", "equal metadata hash differently");
    // writing out and loading again
    let text = match serde_json::to_vec(&a) {
        Ok(t) => t,
        Err(e) => return fail("serialize", e.to_string()),
    };
    let back = match from_slice(&text) {
        Ok(t) => t,
        Err(e) => return fail("reload", format!("serialized metadata refused: {e}")),
    };
    same(s, &back, &a)?;
    ensure!(s, back == a, "reload-eq", "reloaded metadata is not equal");
    // one change makes it different
    let mut c = b.clone();
    let mut k = s.draw(19);
    match k {
        13 => {
            // the same libraries in another order
            let by = c.cpp_loader_dlls.len().min(1);
            c.cpp_loader_dlls.rotate_left(by);
            if c.cpp_loader_dlls == a.cpp_loader_dlls {
                c.cpp_loader_dlls.push("new".into());
            }
        }
        14 => {
            // the same libraries, another one of them twice
            let (x, y) = ("x".to_string(), "y".to_string());
            let mut d = c.clone();
            d.cpp_loader_dlls.extend([x.clone(), x.clone(), y.clone()]);
            c.cpp_loader_dlls.extend([x, y.clone(), y]);
            ensure!(s, d != c && c != d, "neq-14", "metadata with a changed field compares equal");
        }
        15 | 16 => {
            // a dependency is changed
            let mut keys: Vec<String> = c.dependencies.keys().cloned().collect();
            keys.sort();
            if keys.is_empty() {
                c.dependencies.insert("d".into(), Dependency { version: VersionReq::STAR, download: None });
            } else {
                let d = c.dependencies.get_mut(s.pick(&keys)).unwrap();
                if k == 15 {
                    d.version = VersionReq::parse(if d.version == VersionReq::STAR { "=7.7.7" } else { "*" }).unwrap();
                } else {
                    d.download = match d.download.take() {
                        Some(_) if s.flag() => None,
                        o => Some(DownloadInfo { download_mode: DownloadMode::IndexFile, url: o.map(|d| d.url + "x").unwrap_or_default() }),
                    };
                }
            }
        }
        17 => {
            // a dependency or an integrator entry has another name
            let mut keys: Vec<String> = c.dependencies.keys().cloned().collect();
            keys.sort();
            if keys.is_empty() {
                c.integrator.insert("\u{1}new".into(), Value::Null);
            } else {
                let d = c.dependencies.remove(s.pick(&keys)).unwrap();
                c.dependencies.insert("\u{1}new".into(), d);
            }
        }
        18 => {
            // one integrator entry less
            let mut keys: Vec<String> = c.integrator.keys().cloned().collect();
            keys.sort();
            if keys.is_empty() {
                k = 12;
                c.schema_version += 1;
            } else {
                c.integrator.remove(s.pick(&keys));
            }
        }
        0 => c.name.push('x'),
        1 => c.mod_id.push('x'),
        2 => c.mod_version.push('x'),
        3 => c.author = Some(c.author.map(|a| a + "x").unwrap_or_default()),
        4 => c.description = Some(c.description.map(|a| a + "x").unwrap_or_default()),
        5 => c.game_build = Some(c.game_build.map(|a| a + "x").unwrap_or_default()),
        6 => c.homepage = Some(c.homepage.map(|a| a + "x").unwrap_or_default()),
        7 => c.sync = if c.sync == Some(SyncMode::None) { None } else { Some(SyncMode::None) },
        8 => c.download = Some(DownloadInfo { download_mode: DownloadMode::IndexFile, url: c.download.map(|d| d.url + "x").unwrap_or_default() }),
        9 => {
            let n = c.dependencies.len();
            c.dependencies.insert(format!("new{n}\u{1}\u{1}\u{1}\u{1}\u{1}\u{1}\u{1}\u{1}"), Dependency { version: VersionReq::STAR, download: None });
        }
        10 => {
            // change one integrator value in place (or add one)
            let mut keys: Vec<String> = c.integrator.keys().cloned().collect();
            keys.sort();
            if keys.is_empty() {
                c.integrator.insert("k".into(), Value::Null);
            } else {
                let key = s.pick(&keys).clone();
                let old = c.integrator[&key].clone();
                c.integrator.insert(key, json!([old]));
            }
        }
        11 => c.cpp_loader_dlls.push(String::new()),
        _ => c.schema_version += 1,
    }
    ensure!(s, a != c && c != a, format!("neq-{k}"), "metadata with a changed field compares equal");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "Random metadata documents (schema absent/1/2, all optional fields, dependency forms, nested integrator data, key order, whitespace, unknown keys) against a field-by-field model; invalid documents of 8 kinds must be refused. Non-trivial: has dependencies, integrator data or a sync mode / any invalid document.",
            assumptions: &["serde_json and semver are trusted"],
            facets: vec![
                Facet { name: "parse", quick: 900_000, thorough: 3000000, run: parse },
                Facet { name: "invalid", quick: 600_000, thorough: 2000000, run: invalid },
            ],
        },
        Property {
            id: "C10",
            rule: "Random metadata values: reordered-map copies, serialise/reload, and single-field changes. Non-trivial: at least two map entries.",
            assumptions: &["serde_json is trusted", "the standard library randomises map iteration order per map"],
            facets: vec![Facet { name: "identity", quick: 800_000, thorough: 2000000, run: identity }],
        },
    ]
}
