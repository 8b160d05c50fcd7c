//! Persistent actors: every map that is named gets every actor that is named, once, with its components.
use crate::mini::{class_kind, put_str, Mini};
use crate::model::*;
use crate::p_integ::*;
use crate::pkg;
use crate::view::View;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeMap;
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::types::PackageIndex;
use unreal_asset_exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset_properties::{Property as P, PropertyDataTrait};
use vkit::*;

pub fn ver() -> Ver {
    let (engine, ov, ue5, cv) = ENGINES[23];
    assert!(engine == EngineVersion::VER_UE4_23);
    Ver { engine, ov, ue5, cv, versioned: false, legacy: -7, records: vec![] }
}

#[derive(Clone, Debug)]
struct Comp {
    name: String,
    number: i32,
    package: String,
    class: String,
    parent: Option<usize>,
}
#[derive(Clone, Debug)]
struct Actor {
    dir: String,
    name: String,
    /// of its class, without _C
    class: String,
    dotted: bool,
    comps: Vec<Comp>,
    has_script: bool,
}
impl Actor {
    fn path(&self) -> String {
        format!("/Game/{}/{}", self.dir, self.name)
    }
    fn spec(&self) -> String {
        if self.dotted {
            format!("{}.{}_C", self.path(), self.class)
        } else {
            self.path()
        }
    }
}
const CLASSES: [(&str, &str); 12] = [
    ("/Script/Engine", "SceneComponent"),
    ("/Script/Engine", "StaticMeshComponent"),
    ("/Script/MyMod", "SceneComponent"),
    ("/Script/MyMod", "BillboardComponent"),
    ("/Script/Niagara", "Fx"),
    // numbers of names follow a '#'
    ("/Script/Engine", "SceneComponent#3"),
    ("/Game/Parts/Wheel", "Wheel_C"),
    ("/Game/Parts/Wheel#3", "Wheel_C"),
    ("/Game/Parts/Wheel#4", "Wheel_C"),
    ("/Game/Parts/Wheel", "Wheel#3"),
    ("/Game/Parts/Wheel#4", "Wheel#3"),
    ("/Script/MyMod#1", "SceneComponent#2"),
];
fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = s.below(i + 1);
        v.swap(i, j);
    }
}
fn filler(s: &mut Src, m: &mut Mini, n: usize) {
    for k in 0..s.size(n) {
        match s.below(3) {
            0 => {
                let n = s.ascii_ident(6);
                m.name(&n);
            }
            1 => {
                let (p, c) = *s.pick(&CLASSES);
                m.class(p, c);
            }
            _ => {
                m.import("/Script/CoreUObject", "Package", 0, &format!("/Game/Filler{k}"));
            }
        }
    }
}
fn gen_actor(s: &mut Src, k: usize) -> (Actor, (Vec<u8>, Vec<u8>)) {
    let has_script = s.chance(3, 4);
    let n = if has_script { s.size(5) } else { 0 };
    let mut comps: Vec<Comp> = vec![];
    for j in 0..n {
        let (p, c) = *s.pick(&CLASSES);
        let (name, number) = if j == 0 && s.chance(2, 3) {
            ("DefaultSceneRoot".to_string(), 0)
        } else if s.chance(1, 3) {
            // told apart by their numbers only
            s.class("numbered component");
            (s.pick(&["Mesh", "Light", "DefaultSceneRoot"]).to_string(), j as i32 + 1)
        } else {
            (format!("{}{j}", s.ascii_ident(5)), 0)
        };
        // nodes form a forest
        let parent = if j > 0 && s.chance(2, 3) { Some(s.below(j)) } else { None };
        if p.contains('#') || c.contains('#') {
            s.class("class or package with a number");
        }
        comps.push(Comp { name, number, package: p.into(), class: c.into(), parent });
    }
    let dir = format!("{}{k}", s.pick(&["Mods/Some/M", "M", "Deep/er/Path"]));
    let name = format!("{}_Actor{k}", s.pick(&["BP", "My", "Ä"]));
    let dotted = s.chance(1, 3);
    let class = match dotted && s.chance(1, 3) {
        true => format!("Other{k}"),
        false => name.clone(),
    };
    let a = Actor { dir, name, class, dotted, comps, has_script };
    // the package
    let mut m = Mini::default();
    filler(s, &mut m, 12);
    #[derive(Clone, Copy)]
    enum Slot {
        Other,
        Script,
        Node(usize),
        Stray,
    }
    let mut slots: Vec<Slot> = (0..s.urange(1, 3)).map(|_| Slot::Other).collect();
    if has_script {
        slots.push(Slot::Script);
        if s.chance(1, 4) {
            slots.push(Slot::Stray);
        }
    }
    slots.extend((0..a.comps.len()).map(Slot::Node));
    shuffle(s, &mut slots);
    let at = |j: usize| slots.iter().position(|e| matches!(e, Slot::Node(x) if *x == j)).unwrap() as i32 + 1;
    let stray = slots.iter().position(|e| matches!(e, Slot::Stray)).map(|e| e as i32 + 1);
    for sl in slots.clone() {
        let mut w = vec![];
        let (class, name) = match sl {
            Slot::Other => {
                m.int_prop(&mut w, "Value", 5);
                let c = m.class("/Script/Engine", "BlueprintThing");
                (c, "Other".to_string())
            }
            Slot::Stray => {
                // in the list of nodes, but not a node
                m.name_prop(&mut w, "InternalVariableName", "Stray", 0);
                let c = m.class("/Script/Engine", "NotANode");
                (c, "Stray".to_string())
            }
            Slot::Script => {
                let mut all: Vec<i32> = (0..a.comps.len()).map(at).collect();
                if let Some(x) = stray {
                    let k = s.below(all.len() + 1);
                    all.insert(k, x);
                }
                let roots: Vec<i32> = (0..a.comps.len()).filter(|j| a.comps[*j].parent.is_none()).map(at).collect();
                if s.flag() {
                    m.objs_prop(&mut w, "RootNodes", &roots);
                }
                m.objs_prop(&mut w, "AllNodes", &all);
                let c = m.class("/Script/Engine", "SimpleConstructionScript");
                (c, "SimpleConstructionScript_0".to_string())
            }
            Slot::Node(j) => {
                let c = a.comps[j].clone();
                let class = m.class(&c.package, &c.class);
                let kids: Vec<i32> = (0..a.comps.len()).filter(|x| a.comps[*x].parent == Some(j)).map(at).collect();
                let mut parts = vec![0, 1, 2, 3];
                shuffle(s, &mut parts);
                for p in parts {
                    match p {
                        0 => m.obj_prop(&mut w, "ComponentClass", class),
                        1 => m.name_prop(&mut w, "InternalVariableName", &c.name, c.number),
                        2 if !kids.is_empty() || s.flag() => m.objs_prop(&mut w, "ChildNodes", &kids),
                        _ => m.int_prop(&mut w, "Filler", 1),
                    }
                }
                let c = m.class("/Script/Engine", "SCS_Node");
                (c, format!("SCS_Node_{j}"))
            }
        };
        m.end(&mut w);
        w.extend([0; 4]);
        m.export(class, 0, &name, w);
    }
    (a, m.build())
}

fn mini_map(s: &mut Src) -> (Vec<u8>, Option<Vec<u8>>) {
    let mut m = Mini::default();
    filler(s, &mut m, 10);
    let level = m.class("/Script/Engine", "Level");
    let world = m.class("/Script/Engine", "World");
    let thing = m.class("/Script/Engine", "StaticMeshActor");
    let things = s.size(3);
    let mut order: Vec<u8> = vec![0, 1];
    order.extend(vec![2; things]);
    shuffle(s, &mut order);
    for k in order {
        let mut w = vec![];
        if k == 2 {
            m.bool_prop(&mut w, "bHidden", true);
        }
        m.end(&mut w);
        match k {
            0 => {
                w.extend([0; 4]);
                let l = s.size(4);
                w.extend((l as i32).to_le_bytes());
                for _ in 0..l {
                    w.extend((s.range(-3, things as i64 + 2) as i32).to_le_bytes());
                }
                for x in ["unreal", "", "/Game/Map", ""] {
                    put_str(&mut w, x);
                }
                for x in [0, 7777, 1, 0, 0, 0, 0, 0i32] {
                    w.extend(x.to_le_bytes());
                }
                m.export(level, 0, "PersistentLevel", w);
            }
            1 => {
                w.extend([0; 4]);
                for x in [1i32, 0, 0] {
                    w.extend(x.to_le_bytes());
                }
                m.export(world, 0, "Map", w);
            }
            _ => {
                w.extend([0; 4]);
                m.export(thing, 0, "Thing", w);
            }
        }
    }
    let (a, b) = m.build();
    (a, Some(b))
}
fn gen_map(s: &mut Src) -> (Vec<u8>, Option<Vec<u8>>) {
    if s.flag() {
        for _ in 0..3 {
            let o = pkg::Opts { budget: 12, max_exports: 5, kinds: &["Level", "Normal", "World", "Level"], ver: Some(ver()), ..Default::default() };
            let p = pkg::gen(s, &o);
            if p.exports.iter().any(|e| e.plan.kind == "Level") {
                s.class("generated map");
                return (p.asset, p.bulk);
            }
        }
    }
    mini_map(s)
}

/// a name with its number
fn text(n: &unreal_asset_base::types::FName) -> String {
    match n.get_number() {
        0 => n.get_owned_content(),
        k => format!("{}#{k}", n.get_owned_content()),
    }
}
/// the import, its outer, and so on
fn chain(a: &A, mut x: PackageIndex) -> Vec<(String, String, String)> {
    let mut l = vec![];
    while let Some(e) = a.get_import(x) {
        l.push((text(&e.class_package), text(&e.class_name), text(&e.object_name)));
        x = e.outer_index;
        if l.len() > 8 {
            break;
        }
    }
    l
}
fn own(a: &[(&str, &str, &str)]) -> Vec<(String, String, String)> {
    a.iter().map(|e| (e.0.into(), e.1.into(), e.2.into())).collect()
}
fn obj(p: &[P], name: &str, number: i32) -> Vec<i32> {
    p.iter()
        .filter(|e| e.get_name().get_owned_content() == name && e.get_name().get_number() == number)
        .map(|e| match e {
            P::ObjectProperty(x) => x.value.index,
            _ => i32::MIN,
        })
        .collect()
}

fn actors(s: &mut Src) -> Res {
    let n = if s.chance(1, 8) { s.urange(4, 7) } else { s.urange(1, 3) };
    let mut w = World::gen(s, 0, false, &[]);
    w.conf.baked.clear();
    let game = w.name();
    // maps, in the game or in a mod
    let mut maps: BTreeMap<String, (Vec<u8>, Option<Vec<u8>>)> = BTreeMap::new();
    for k in 0..s.urange(1, 3) {
        let m = gen_map(s);
        let mut name = format!("{game}/Content/Maps/{}{k}.umap", s.pick(&["Map", "Staging_T", "x.y"]));
        if let (Some(x), true) = (maps.keys().next(), s.chance(1, 4)) {
            // another map, told apart by case or folder only
            name = match s.flag() {
                true => x.replace("Maps", "maps"),
                false => x.replace("Maps", "Maps/Maps"),
            };
            s.class("similar map names");
        }
        maps.insert(name, m);
    }
    let put = |t: &mut Tree, n: &str, a: &[u8], b: Option<&[u8]>| {
        t.insert(n.to_string(), a.to_vec());
        if let Some(b) = b {
            t.insert(std::path::Path::new(n).with_extension("uexp").to_string_lossy().into_owned(), b.to_vec());
        }
    };
    let mut gt = Tree::new();
    gt.insert("marker".into(), vec![]);
    let mut trees: Vec<Tree> = vec![Tree::new(); n];
    for (name, (a, b)) in &maps {
        if s.chance(1, 5) {
            // a mod's map goes before the game's
            let k = s.below(n);
            put(&mut trees[k], name, a, b.as_deref());
            if s.flag() {
                let (x, y) = small(1);
                put(&mut gt, name, &x, Some(&y));
            }
        } else {
            put(&mut gt, name, a, b.as_deref());
        }
    }
    // actors
    let mut list: Vec<Actor> = vec![];
    for k in 0..n {
        let mut mine = vec![];
        for _ in 0..s.size(2) {
            let (a, (x, y)) = gen_actor(s, list.len());
            let at = format!("{game}/Content/{}/{}.uasset", a.dir, a.name);
            let t = if s.chance(1, 6) { &mut gt } else { &mut trees[k] };
            put(t, &at, &x, Some(&y));
            s.note(clip(&format!("{a:?}")));
            mine.push(a.spec());
            list.push(a);
        }
        let id = mod_id(s, k);
        let mut m = Meta::gen(s, id);
        if !mine.is_empty() || s.flag() {
            m.integrator.insert("persistent_actors".into(), json!(mine));
        }
        // every map is named by some mod, perhaps by several
        let named: Vec<&String> = maps.keys().filter(|_| k == 0 || s.flag()).collect();
        if !named.is_empty() || s.flag() {
            m.integrator.insert("persistent_actor_maps".into(), json!(named));
        }
        if k > 0 && !named.is_empty() {
            s.class("map named by several mods");
        }
        let mut t = std::mem::take(&mut trees[k]);
        t.insert("metadata.json".into(), m.json());
        let p = w.dir.at(&format!("mods/{k:03}-mod.pak"));
        write_pak(s, &p, &t);
        w.given.push(Given::File(p, m, t));
    }
    write_pak(s, &w.dir.at("game/pakchunk9.pak"), &gt);
    if list.iter().any(|a| a.comps.len() > 1) {
        s.nontrivial();
    }
    s.class(format!("{} actors", list.len()));
    if list.iter().any(|a| a.dotted) {
        s.class("actor named by class");
    }
    w.must(s)?;
    let t = read_pak(&w.out())?;
    let mut keys: Vec<String> = fixed_entries(&w);
    for (name, (_, b)) in &maps {
        keys.push(name.clone());
        if b.is_some() {
            keys.push(std::path::Path::new(name).with_extension("uexp").to_string_lossy().into_owned());
        }
    }
    keys.sort();
    ensure_eq!(s, t.keys().cloned().collect::<Vec<_>>(), keys, "maps: entries", "entries of the integrated pak");
    for (name, (a, b)) in &maps {
        let mut old = Tree::new();
        put(&mut old, name, a, b.as_deref());
        let old = parse(&old, name)?;
        let new = parse(&t, name)?;
        check_map(s, &old, &new, &list)?;
    }
    Ok(())
}

fn check_map(s: &mut Src, old: &A, new: &A, list: &[Actor]) -> Res {
    let v = View::new(&ver());
    // what there was is still there
    for (k, x) in old.imports.iter().enumerate() {
        let got = new.imports.get(k).map(|e| v.import(e));
        ensure_eq!(s, got, Some(v.import(x)), "map: import changed", "import {k} of the map");
    }
    let level = old.asset_data.exports.iter().position(|e| matches!(e, Export::LevelExport(_))).unwrap();
    let n0 = old.asset_data.exports.len();
    let n1 = new.asset_data.exports.len();
    ensure_eq!(s, n1, n0 + list.iter().map(|a| 1 + a.comps.len()).sum::<usize>(), "map: number of exports", "number of exports of the map");
    let mask = |x: V, deps: bool| match x {
        V::T(n, mut f) => {
            f[15] = V::Nil;
            if deps {
                f[17] = V::Nil;
            }
            V::T(n, f)
        }
        x => x,
    };
    for k in 0..n0 {
        let (x, y) = (&old.asset_data.exports[k], &new.asset_data.exports[k]);
        same(s, &mask(v.base(y), k == level), &mask(v.base(x), k == level), "map: export entry changed", &format!("export entry {k} of the map"))?;
        if k != level {
            same(s, &v.export(y), &v.export(x), "map: export changed", &format!("export {k} of the map"))?;
        }
    }
    let (Export::LevelExport(l0), Export::LevelExport(l1)) = (&old.asset_data.exports[level], &new.asset_data.exports[level]) else {
        return fail("map: no level", "the level is no level any more");
    };
    // where the actors are: behind their components, in order
    let mut at = n0;
    let mut want: Vec<i32> = l0.actors.iter().map(|e| e.index).collect();
    let mut starts = vec![];
    for a in list {
        starts.push(at);
        at += a.comps.len() + 1;
        want.push(at as i32);
    }
    let got: Vec<i32> = l1.actors.iter().map(|e| e.index).collect();
    ensure_eq!(s, got, want, "map: actors of the level", "actors of the level");
    let mut rest = l1.clone();
    rest.actors = l0.actors.clone();
    let (r0, r1): (Export<PackageIndex>, Export<PackageIndex>) = (l0.clone().into(), rest.into());
    same(s, &v.export(&r1), &v.export(&r0), "map: level changed", "the level")?;
    let deps: Vec<i32> = l1.get_base_export().create_before_serialization_dependencies.iter().map(|e| e.index).collect();
    for (a, start) in list.iter().zip(starts) {
        let idx = start + a.comps.len();
        let class = format!("{}_C", a.class);
        let x = &new.asset_data.exports[idx];
        let b = x.get_base_export();
        ensure_eq!(s, b.object_name.get_owned_content(), a.class, "actor: name", "name of the actor's export");
        ensure_eq!(s, b.outer_index.index, level as i32 + 1, "actor: outer", "outer of the actor");
        let path = a.path();
        let bp = own(&[("/Script/Engine", "BlueprintGeneratedClass", &class), ("/Script/CoreUObject", "Package", &path)]);
        ensure_eq!(s, chain(new, b.class_index), bp, "actor: class", "class of the actor");
        let def = own(&[(&path, &class, &format!("Default__{class}")), ("/Script/CoreUObject", "Package", &path)]);
        ensure_eq!(s, chain(new, b.template_index), def, "actor: template", "template of the actor");
        if new.asset_data.use_event_driven_loader {
            ensure!(s, deps.contains(&(idx as i32 + 1)), "level: dependencies", "the level does not depend on the creation of actor {}", a.name);
            for (d, l) in [(b.class_index, &b.serialization_before_create_dependencies), (b.template_index, &b.serialization_before_create_dependencies), (PackageIndex::new(level as i32 + 1), &b.create_before_create_dependencies)] {
                ensure!(s, l.contains(&d), "actor: dependencies", "actor {} does not depend on {}", a.name, d.index);
            }
        }
        let Some(n) = x.get_normal_export() else { return fail("actor: kind", "the actor is no normal export") };
        ensure_eq!(s, n.extras, vec![0u8; 4], "actor: extras", "bytes after the properties of the actor");
        // its components
        let mut made = None;
        for p in &n.properties {
            if let P::ArrayProperty(x) = p {
                if x.name.get_owned_content() == "BlueprintCreatedComponents" {
                    ensure_eq!(s, x.array_type.as_ref().map(|e| e.get_owned_content()), Some("ObjectProperty".to_string()), "actor: component list type", "type of the component list");
                    made = Some(
                        x.value
                            .iter()
                            .map(|e| match e {
                                P::ObjectProperty(x) => x.value.index,
                                _ => i32::MIN,
                            })
                            .collect::<Vec<_>>(),
                    );
                }
            }
        }
        // components are created in the order of the nodes
        let Some(made) = made else { return fail("actor: no component list", "the actor lists no components") };
        let want: Vec<i32> = (0..a.comps.len()).map(|k| (start + k) as i32 + 1).collect();
        ensure_eq!(s, made, want, "actor: component list", "components of the actor");
        let hidden: Vec<bool> = n.properties.iter().filter_map(|p| match p {
            P::BoolProperty(x) if x.name.get_owned_content() == "bHidden" => Some(x.value),
            _ => None,
        }).collect();
        ensure_eq!(s, hidden, vec![true], "actor: hidden", "bHidden of the actor");
        let root: Vec<i32> = a.comps.iter().enumerate().filter(|(_, c)| c.name == "DefaultSceneRoot" && c.number == 0).map(|(k, _)| (start + k) as i32 + 1).collect();
        ensure_eq!(s, obj(&n.properties, "RootComponent", 0), root, "actor: root component", "the root component");
        ensure_eq!(s, n.properties.len(), 2 + root.len() + a.comps.len(), "actor: number of properties", "properties of the actor");
        for (k, c) in a.comps.iter().enumerate() {
            let at = start + k;
            ensure_eq!(s, obj(&n.properties, &c.name, c.number), vec![at as i32 + 1], "actor: component property", "property {} of the actor", c.name);
            let x = &new.asset_data.exports[at];
            let b = x.get_base_export();
            ensure_eq!(s, b.object_name.get_owned_content(), c.name, "component: name", "name of a component");
            ensure_eq!(s, b.object_name.get_number(), c.number, "component: number", "number in the name of component {}", c.name);
            ensure_eq!(s, b.outer_index.index, idx as i32 + 1, "component: outer", "outer of component {}", c.name);
            let (ka, kb) = class_kind(&c.package);
            let want = own(&[(ka, kb, &c.class), ("/Script/CoreUObject", "Package", &c.package)]);
            ensure_eq!(s, chain(new, b.class_index), want, "component: class", "class of component {}", c.name);
            let Some(n) = x.get_normal_export() else { return fail("component: kind", "the component is no normal export") };
            ensure_eq!(s, n.extras, vec![0u8; 4], "component: extras", "bytes after the properties of a component");
            let parent: Vec<i32> = c.parent.iter().map(|p| (start + p) as i32 + 1).collect();
            ensure_eq!(s, obj(&n.properties, "AttachParent", 0), parent, "component: parent", "parent of component {}", c.name);
            let method: Vec<String> = n.properties.iter().filter_map(|p| match p {
                P::EnumProperty(x) if x.name.get_owned_content() == "CreationMethod" => x.value.as_ref().map(|e| e.get_owned_content()),
                _ => None,
            }).collect();
            ensure_eq!(s, method, vec!["EComponentCreationMethod::SimpleConstructionScript".to_string()], "component: creation method", "creation method");
            // its template
            let gen = if c.number == 0 { format!("{}_GEN_VARIABLE", c.name) } else { format!("{}_{}_GEN_VARIABLE", c.name, c.number - 1) };
            let have = new.imports.iter().any(|e| {
                e.object_name.get_owned_content() == gen && text(&e.class_name) == c.class && chain(new, e.outer_index) == bp
            });
            ensure!(s, have, "component: template import", "no import {gen} of class {}", c.class);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C31",
        rule: "an actor has at least two components",
        assumptions: &["maps and actors are UE 4.23 packages, the only release the handler supports"],
        facets: vec![Facet { name: "actors", quick: 60_000, thorough: 600_000, run: actors }],
    }]
}
