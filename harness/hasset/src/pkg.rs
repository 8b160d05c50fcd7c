//! Whole packages: header, name table, import and export maps, dependency tables and export data,
//! assembled by an encoder of our own together with the values the library has to report.
use crate::gen_exports::*;
use crate::model::*;
use vkit::*;

#[derive(Clone)]
pub struct ExpModel {
    pub plan: Plan,
    pub base: V,
    pub body: V,
    pub size: i64,
    pub offset: i64,
}
#[derive(Clone)]
pub struct Pkg {
    pub v: Ver,
    pub names: Vec<String>,
    pub imports: Vec<V>,
    pub exports: Vec<ExpModel>,
    pub header: V,
    pub world: V,
    pub asset: Vec<u8>,
    pub bulk: Option<Vec<u8>>,
    pub kinds: Vec<String>,
    /// name table, dependencies by export and soft references as they are in the file
    pub parts: [Vec<u8>; 3],
}

pub struct Opts {
    pub focus: u8,
    pub max_exports: usize,
    /// export kinds to choose from
    pub kinds: &'static [&'static str],
    pub ver: Option<Ver>,
    pub budget: i32,
    /// in two files or one (None: any)
    pub split: Option<bool>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { focus: 0, max_exports: 5, kinds: KINDS, ver: None, budget: 40, split: None }
    }
}

struct Head {
    licensee: i32,
    folder: String,
    flags: u32,
    soft_paths: (i32, i32),
    gatherable: (i32, i32),
    soft_count: i32,
    searchable: i32,
    thumbnail: i32,
    guid: [u8; 16],
    generations: usize,
    recorded: (u16, u16, u16, u32, Option<String>),
    compatible: (u16, u16, u16, u32, Option<String>),
    compression: u32,
    source: u32,
    chunks: Vec<i32>,
    referenced: i32,
    toc: i64,
    resources: i32,
}
#[derive(Default)]
struct Offs {
    header: i32,
    name_count: i32,
    name: i32,
    export_count: i32,
    export: i32,
    import_count: i32,
    import: i32,
    depends: i32,
    soft: i32,
    registry: i32,
    bulk: i64,
    world: i32,
    preload_count: i32,
    preload: i32,
}

fn enc_header(v: &Ver, h: &Head, o: &Offs) -> Vec<u8> {
    let mut w: Vec<u8> = vec![];
    macro_rules! p {
        ($($x:expr),*) => {{ $( w.extend(($x).to_le_bytes()); )* }};
    }
    w.extend([0xc1, 0x83, 0x2a, 0x9e]);
    p!(v.legacy);
    if v.legacy != -4 {
        p!(if v.versioned { 864i32 } else { 0 });
    }
    p!(if v.versioned { v.ov } else { 0 });
    if v.legacy <= -8 {
        p!(if v.versioned { v.ue5 } else { 0 });
    }
    p!(h.licensee);
    p!(v.records.len() as i32);
    for (g, n) in &v.records {
        w.extend(g);
        p!(*n);
    }
    p!(o.header);
    put_fstr(&mut w, Some(&h.folder));
    p!(h.flags, o.name_count, o.name);
    if v.ue5 >= ue5::SOFTOBJECTPATH_LIST {
        p!(h.soft_paths.0, h.soft_paths.1);
    }
    if v.ov >= ov::SERIALIZE_TEXT_IN_PACKAGES {
        p!(h.gatherable.0, h.gatherable.1);
    }
    p!(o.export_count, o.export, o.import_count, o.import, o.depends);
    if v.ov >= ov::ADD_STRING_ASSET_REFERENCES_MAP {
        p!(h.soft_count, o.soft);
    }
    if v.ov >= ov::ADDED_SEARCHABLE_NAMES {
        p!(h.searchable);
    }
    p!(h.thumbnail);
    w.extend(h.guid);
    p!(h.generations as i32);
    for _ in 0..h.generations {
        p!(o.export_count, o.name_count);
    }
    let e = |w: &mut Vec<u8>, x: &(u16, u16, u16, u32, Option<String>)| {
        w.extend(x.0.to_le_bytes());
        w.extend(x.1.to_le_bytes());
        w.extend(x.2.to_le_bytes());
        w.extend(x.3.to_le_bytes());
        put_fstr(w, x.4.as_deref());
    };
    if v.ov >= ov::ENGINE_VERSION_OBJECT {
        e(&mut w, &h.recorded);
    } else {
        p!(h.recorded.3);
    }
    if v.ov >= ov::COMPATIBLE_ENGINE_VERSION {
        e(&mut w, &h.compatible);
    }
    p!(h.compression, 0u32, h.source, 0i32);
    if v.legacy > -7 {
        p!(0i32);
    }
    p!(o.registry, o.bulk, o.world);
    if v.ov >= ov::CHUNKID_ARRAY {
        p!(h.chunks.len() as i32);
        for c in &h.chunks {
            p!(*c);
        }
    } else {
        p!(h.chunks[0]);
    }
    if v.ov >= ov::PRELOAD_DEPENDENCIES {
        p!(o.preload_count, o.preload);
    }
    if v.ue5 >= ue5::NAMES_REFERENCED {
        p!(h.referenced);
    }
    if v.ue5 >= ue5::PAYLOAD_TOC {
        p!(h.toc);
    }
    if v.ue5 >= ue5::DATA_RESOURCES {
        p!(h.resources);
    }
    w
}

fn gen_engine(s: &mut Src) -> (u16, u16, u16, u32, Option<String>) {
    let b = match s.below(4) {
        0 => None,
        1 => Some(s.text(6).replace('\0', " ")),
        _ => Some("++UE4+Release-4.23".to_string()),
    };
    (s.u16v(), s.u16v(), s.u16v(), s.u32v(), b)
}
fn class_for(e: &mut Enc, kind: &'static str) -> String {
    match kind {
        "Enum" => e.s.pick(&["Enum", "UserDefinedEnum"]).to_string(),
        "StringTable" => e.s.pick(&["StringTable", "MyStringTable"]).to_string(),
        "DataTable" => e.s.pick(&["DataTable", "CompositeDataTable"]).to_string(),
        "Class" => e.s.pick(&["BlueprintGeneratedClass", "WidgetBlueprintGeneratedClass", "AnimBlueprintGeneratedClass"]).to_string(),
        "Property" => e.s.pick(UPROPS).0.to_string(),
        "Normal" => e.s.pick(&["Thing_C", "Actor", "StaticMeshComponent", "Levels", "WorldSettings", "DataTableX", "Package"]).to_string(),
        "Raw" => e.s.pick(&["Thing_C", "Level", "Function", "UserDefinedEnum", "BlueprintGeneratedClass"]).to_string(),
        k => k.to_string(),
    }
}

pub fn gen(s: &mut Src, o: &Opts) -> Pkg {
    let v = o.ver.clone().unwrap_or_else(|| Ver::gen(s));
    let split = o.split.unwrap_or_else(|| s.chance(2, 3) && v.ov >= ov::PRELOAD_DEPENDENCIES);
    s.class(if split { "split in two files" } else { "single file" });
    let mut e = Enc::new(s, v.clone());
    e.focus = o.focus;
    e.budget = o.budget;
    if e.s.chance(1, 400) {
        e.long = Some(e.s.below(24));
    }
    // plan
    let n_exp = e.len(o.max_exports);
    let plans: Vec<Plan> = (0..n_exp)
        .map(|_| {
            let kind = *e.s.pick(o.kinds);
            let class = class_for(&mut e, kind);
            Plan { kind, class }
        })
        .collect();
    // imports: the classes, plus others
    let mut imp: Vec<String> = plans.iter().map(|p| p.class.clone()).collect();
    imp.sort();
    imp.dedup();
    for _ in 0..e.len(6) {
        let w = match e.s.below(3) {
            0 => e.s.pick(&["Vector", "Guid", "LinearColor", "SoftObjectPath", "MovieSceneTrackIdentifier", "FloatRange", "Color"]).to_string(),
            1 => "STableRow".to_string(),
            _ => e.word(),
        };
        let at = e.s.below(imp.len() + 1);
        imp.insert(at, w);
    }
    e.n_imp = imp.len() as i32;
    e.n_exp = n_exp as i32;
    e.import_names = imp.clone();
    // export data
    let mut bodies = vec![];
    for p in &plans {
        let at = e.out.len();
        let body = e.export_body(p);
        for (k, x) in std::mem::take(&mut e.pending_key) {
            e.learned.push(k.clone());
            e.map_key_over.insert(k, x);
        }
        for (k, x) in std::mem::take(&mut e.pending_val) {
            e.learned.push(k.clone());
            e.map_val_over.insert(k, x);
        }
        bodies.push((body, e.out.len() - at));
    }
    let data = std::mem::take(&mut e.out);
    // import map
    let mut imports = vec![];
    for n in &imp {
        let pkgn = e.gname();
        let cls = e.gname();
        let outer = e.gpkg();
        let num = e.number();
        let obj = e.vname(n, num);
        let opt = if v.ue5 >= ue5::OPTIONAL_RESOURCES { e.gbool32() } else { i(0) };
        imports.push(t("Import", vec![pkgn, cls, outer, obj, opt]));
    }
    let import_bytes = std::mem::take(&mut e.out);
    // export map
    let mut exports = vec![];
    let mut patch = vec![];
    let mut deps_bytes: Vec<u8> = vec![];
    for (p, (body, len)) in plans.iter().zip(bodies) {
        let class_index = match p.kind {
            // without a class of its own (or with one defined in the package) it is plain
            "Normal" if e.s.chance(1, 4) => e.s.range(0, n_exp as i64) as i32,
            _ => -1 - imp.iter().position(|x| *x == p.class).unwrap() as i32,
        };
        e.i32(class_index);
        let mut f = vec![i(class_index), e.gpkg()];
        f.push(if v.ov >= ov::TEMPLATE_INDEX { e.gpkg() } else { i(0) });
        f.push(e.gpkg());
        f.push(e.gname());
        let fl = OBJECT_FLAGS & e.s.u32v();
        e.u32(fl);
        f.push(i(fl));
        patch.push(e.out.len());
        if v.ov < ov::EXPORTMAP_64BIT {
            e.i32(0);
            e.i32(0);
        } else {
            e.i64(0);
            e.i64(0);
        }
        for _ in 0..3 {
            f.push(e.gbool32());
        }
        f.push(if v.ue5 < ue5::REMOVE_EXPORT_GUID { e.gguid() } else { V::B(vec![0; 16]) });
        f.push(if v.ue5 >= ue5::TRACK_INHERITED { e.gbool32() } else { i(0) });
        f.push(e.gu32());
        f.push(if v.ov >= ov::LOAD_FOR_EDITOR_GAME { e.gbool32() } else { i(0) });
        f.push(if v.ov >= ov::COOKED_ASSETS_IN_EDITOR_SUPPORT { e.gbool32() } else { i(0) });
        f.push(if v.ue5 >= ue5::OPTIONAL_RESOURCES { e.gbool32() } else { i(0) });
        if v.ov >= ov::PRELOAD_DEPENDENCIES {
            let first = if split { deps_bytes.len() as i32 / 4 } else { -1 };
            e.i32(first);
            f.push(i(first));
            for _ in 0..4 {
                let n = match split {
                    true => e.len(3),
                    false => 0,
                };
                e.i32(n as i32);
                let mut l = vec![];
                for _ in 0..n {
                    // kept beside the map
                    let keep = std::mem::take(&mut e.out);
                    l.push(e.gpkg());
                    deps_bytes.extend(std::mem::replace(&mut e.out, keep));
                }
                f.push(V::L(l));
            }
        } else {
            f.push(i(0));
            for _ in 0..4 {
                f.push(V::L(vec![]));
            }
        }
        exports.push(ExpModel { plan: p.clone(), base: t("Export", f), body, size: len as i64, offset: 0 });
    }
    let mut map_bytes = std::mem::take(&mut e.out);
    // dependencies by export
    let has_depends = (ov::PRELOAD_DEPENDENCIES..ov::EXPORTMAP_64BIT).contains(&v.ov) || e.s.chance(2, 3);
    if has_depends {
        for _ in 0..n_exp {
            e.list(3, |e| e.gi32());
        }
    }
    let depends_bytes = std::mem::take(&mut e.out);
    let has_soft = v.ov >= ov::ADD_STRING_ASSET_REFERENCES_MAP && e.s.chance(1, 2);
    let mut soft_count = 0;
    if has_soft {
        soft_count = e.len(4) as i32;
        for _ in 0..soft_count {
            let x = Some(format!("/Game/{}", e.s.ascii_text(6).replace('\0', " ")));
            e.fstr(&x);
        }
    }
    let soft_bytes = std::mem::take(&mut e.out);
    let has_registry = e.s.chance(1, 3);
    let has_world = e.s.chance(1, 4);
    let world = if has_world { e.world_tile() } else { V::Nil };
    let world_bytes = std::mem::take(&mut e.out);
    // name table
    let zero: std::collections::HashSet<String> = {
        let mut z = std::collections::HashSet::new();
        for n in e.names.clone() {
            if e.s.chance(1, 8) {
                z.insert(n);
            }
        }
        z
    };
    let mut name_bytes = vec![];
    for n in &e.names {
        put_fstr(&mut name_bytes, Some(n));
        if v.ov >= ov::NAME_HASHES_SERIALIZED {
            let h = if zero.contains(n) { 0 } else { crate::p_containers::name_hash(n) };
            name_bytes.extend(h.to_le_bytes());
        }
    }
    let kinds: Vec<String> = e.kinds.iter().cloned().collect();
    let names = std::mem::take(&mut e.names);
    drop(e);
    let h = Head {
        licensee: s.i32v(),
        folder: match s.below(3) {
            0 => "None".into(),
            1 => String::new(),
            _ => s.text(10).replace('\0', " "),
        },
        flags: PACKAGE_FLAGS & s.u32v(),
        soft_paths: (s.i32v(), s.i32v()),
        gatherable: (s.i32v(), s.i32v()),
        soft_count,
        searchable: s.i32v(),
        thumbnail: s.i32v(),
        guid: s.guid(),
        generations: s.size(3),
        recorded: gen_engine(s),
        compatible: gen_engine(s),
        compression: s.u32v(),
        source: s.u32v(),
        chunks: if v.ov >= ov::CHUNKID_ARRAY { (0..s.size(3)).map(|_| s.i32v()).collect() } else { vec![s.i32v()] },
        referenced: s.i32v(),
        toc: s.i64v(),
        resources: s.i32v(),
    };
    let mut of = Offs::default();
    let mut pos = enc_header(&v, &h, &of).len();
    let mut place = |len: usize, present: bool| -> i32 {
        let at = if present { pos as i32 } else { 0 };
        pos += len;
        at
    };
    of.name_count = names.len() as i32;
    of.name = place(name_bytes.len(), !names.is_empty());
    of.import_count = imports.len() as i32;
    of.import = place(import_bytes.len(), !imports.is_empty());
    of.export_count = n_exp as i32;
    of.export = place(map_bytes.len(), n_exp > 0);
    of.depends = place(depends_bytes.len(), has_depends);
    of.soft = place(soft_bytes.len(), has_soft);
    of.registry = place(if has_registry { 4 } else { 0 }, has_registry);
    of.world = place(world_bytes.len(), has_world);
    of.preload = place(deps_bytes.len(), true);
    of.preload_count = if split { deps_bytes.len() as i32 / 4 } else { -1 };
    of.header = place(0, n_exp > 0);
    let base = pos;
    of.bulk = (base + data.len()) as i64;
    // generation counts are part of the header, so its length is final: fill in the export map
    let mut at = base as i64;
    for (k, x) in exports.iter_mut().enumerate() {
        x.offset = at;
        let p = patch[k];
        if v.ov < ov::EXPORTMAP_64BIT {
            map_bytes[p..p + 4].copy_from_slice(&(x.size as i32).to_le_bytes());
            map_bytes[p + 4..p + 8].copy_from_slice(&(at as i32).to_le_bytes());
        } else {
            map_bytes[p..p + 8].copy_from_slice(&x.size.to_le_bytes());
            map_bytes[p + 8..p + 16].copy_from_slice(&at.to_le_bytes());
        }
        at += x.size;
    }
    let mut asset = enc_header(&v, &h, &of);
    for b in [&name_bytes, &import_bytes, &map_bytes, &depends_bytes, &soft_bytes] {
        asset.extend(b);
    }
    if has_registry {
        asset.extend([0; 4]);
    }
    asset.extend(&world_bytes);
    asset.extend(&deps_bytes);
    assert_eq!(asset.len(), base);
    let mut body = data;
    body.extend([0xc1, 0x83, 0x2a, 0x9e]);
    let bulk = if split {
        Some(body)
    } else {
        asset.extend(body);
        None
    };
    let customs = if v.versioned {
        V::L(v.records.iter().map(|(g, n)| V::L(vec![V::B(g.to_vec()), i(*n)])).collect())
    } else {
        V::Nil
    };
    let header = t(
        "Header",
        vec![
            i(v.legacy),
            b(!v.versioned),
            i(v.ov),
            i(v.ue5),
            i(h.licensee),
            customs,
            V::S(Some(h.folder.clone())),
            i(h.flags),
            V::B(h.guid.to_vec()),
            V::L((0..h.generations).map(|_| V::L(vec![i(n_exp as i32), i(names.len() as i32)])).collect()),
            i(h.source),
            i(of.bulk),
            i(n_exp as i32),
            i(imports.len() as i32),
            b(split),
        ],
    );
    Pkg { v, names, imports, exports, header, world, asset, bulk, kinds, parts: [name_bytes, depends_bytes, soft_bytes] }
}
