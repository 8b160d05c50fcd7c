//! Asset registries, built by an encoder of their own and read, edited and written by the library.
use crate::model::put_fstr;
use crate::p_containers::name_hash;
use std::io::Cursor;
use unreal_asset_base::containers::{Chain, NameMap};
use unreal_asset_base::engine_version::{get_object_versions, EngineVersion};
use unreal_asset_base::flags::EPackageFlags;
use unreal_asset_base::reader::RawReader;
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_base::Guid;
use unreal_asset_registry::AssetRegistryState;
use vkit::*;

const ENGINE: &[(EngineVersion, bool)] = &[
    (EngineVersion::VER_UE4_25, true),
    (EngineVersion::VER_UE4_26, true),
    (EngineVersion::VER_UE4_18, true),
    (EngineVersion::VER_UE4_13, true),
    (EngineVersion::VER_UE4_11, false),
];

type Nm = (String, i32);

#[derive(Clone, Debug, PartialEq)]
struct A {
    names: [Nm; 5],
    tags: Vec<(Nm, Option<String>)>,
    chunks: Vec<i32>,
    flags: u32,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct Node {
    ident: [Option<Nm>; 4],
    // hard, soft, name, soft manage, hard manage, referencers
    deps: [Vec<i32>; 6],
}
#[derive(Clone, Debug, PartialEq)]
struct P {
    name: Nm,
    size: i64,
    guid: [u8; 16],
    hash: Option<[u8; 16]>,
}
#[derive(Clone, Debug)]
pub struct Reg {
    version: i32,
    hashes: bool,
    names: Vec<String>,
    assets: Vec<A>,
    nodes: Vec<Node>,
    packs: Vec<P>,
}

impl Reg {
    fn name(&self, out: &mut Vec<u8>, n: &Nm) {
        let k = self.names.iter().position(|e| *e == n.0).expect("a name of the table");
        out.extend((k as i32).to_le_bytes());
        out.extend(n.1.to_le_bytes());
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        for w in [0x717F9EE7u32, 0xE9B0493A, 0x88B39132, 0x1B388107] {
            o.extend(w.to_le_bytes());
        }
        o.extend(self.version.to_le_bytes());
        let at = o.len();
        o.extend(0i64.to_le_bytes());
        let num = |o: &mut Vec<u8>, n: usize| o.extend((n as i32).to_le_bytes());
        num(&mut o, self.assets.len());
        for a in &self.assets {
            for n in &a.names {
                self.name(&mut o, n);
            }
            num(&mut o, a.tags.len());
            for (k, v) in &a.tags {
                self.name(&mut o, k);
                put_fstr(&mut o, v.as_deref());
            }
            num(&mut o, a.chunks.len());
            for c in &a.chunks {
                o.extend(c.to_le_bytes());
            }
            o.extend(a.flags.to_le_bytes());
        }
        let section = o.len();
        if self.version >= 7 {
            o.extend(0i64.to_le_bytes());
        }
        num(&mut o, self.nodes.len());
        for n in &self.nodes {
            o.push(n.ident.iter().enumerate().map(|(k, e)| (e.is_some() as u8) << k).sum());
            for e in n.ident.iter().flatten() {
                self.name(&mut o, e);
            }
            if self.version >= 7 {
                // package dependencies with flags, names, managed with flags, referencers
                let flagged = |o: &mut Vec<u8>, a: &[i32], b: &[i32], width: usize| {
                    num(o, a.len() + b.len());
                    a.iter().chain(b).for_each(|e| o.extend(e.to_le_bytes()));
                    for _ in 0..((a.len() + b.len()) * width).div_ceil(32) {
                        o.extend(u32::MAX.to_le_bytes());
                    }
                };
                flagged(&mut o, &n.deps[0], &n.deps[1], 8);
                num(&mut o, n.deps[2].len());
                n.deps[2].iter().for_each(|e| o.extend(e.to_le_bytes()));
                flagged(&mut o, &n.deps[4], &n.deps[3], 1);
                num(&mut o, n.deps[5].len());
                n.deps[5].iter().for_each(|e| o.extend(e.to_le_bytes()));
                continue;
            }
            for (k, d) in n.deps.iter().enumerate() {
                if k != 4 || self.version >= 5 {
                    num(&mut o, d.len());
                }
            }
            for (k, d) in n.deps.iter().enumerate() {
                if k != 4 || self.version >= 5 {
                    d.iter().for_each(|e| o.extend(e.to_le_bytes()));
                }
            }
        }
        if self.version >= 7 {
            let n = (o.len() - section - 8) as i64;
            o[section..section + 8].copy_from_slice(&n.to_le_bytes());
        }
        num(&mut o, self.packs.len());
        for p in &self.packs {
            self.name(&mut o, &p.name);
            o.extend(p.size.to_le_bytes());
            o.extend(p.guid);
            if self.version >= 6 {
                match p.hash {
                    Some(h) => {
                        o.extend(1u32.to_le_bytes());
                        o.extend(h);
                    }
                    None => o.extend(0u32.to_le_bytes()),
                }
            }
        }
        let table = o.len() as i64;
        num(&mut o, self.names.len());
        for n in &self.names {
            put_fstr(&mut o, Some(n));
            if self.hashes {
                o.extend(name_hash(n).to_le_bytes());
            }
        }
        o[at..at + 8].copy_from_slice(&table.to_le_bytes());
        o
    }
}

/// At most one list of a registry is a long one
struct Long(Option<usize>);
impl Long {
    fn new(s: &mut Src) -> Self {
        Long(if s.chance(1, 300) { Some(s.below(16)) } else { None })
    }
    fn len(&mut self, s: &mut Src, max: usize) -> usize {
        match self.0 {
            Some(0) => {
                self.0 = None;
                s.class("long list");
                s.urange(256, 300)
            }
            k => {
                self.0 = k.map(|k| k - 1);
                s.size(max)
            }
        }
    }
}

pub fn generate(s: &mut Src, version: i32, flagged: bool) -> (Reg, EngineVersion) {
    let (engine, hashes) = *s.pick(ENGINE);
    let mut long = Long::new(s);
    let mut names: Vec<String> = vec![];
    for _ in 0..1 + long.len(s, 8) {
        let n = match s.below(6) {
            0 => format!("/Game/{}", s.ascii_ident(6)),
            1 => s.text(6).replace('\0', "_"),
            _ => s.ascii_ident(8),
        };
        if !n.is_empty() && !names.contains(&n) {
            names.push(n);
        }
    }
    if names.is_empty() {
        names.push("None".into());
    }
    let nm = |s: &mut Src| (s.pick(&names).clone(), if s.chance(1, 3) { s.range(0, 4) as i32 } else { 0 });
    let mut assets = vec![];
    for _ in 0..long.len(s, 4) {
        let mut tags: Vec<(Nm, Option<String>)> = vec![];
        let want = long.len(s, 4);
        for j in 0..want {
            let mut k = nm(s);
            if want > 255 {
                k.1 = j as i32;
            }
            let v = match s.below(5) {
                0 => None,
                1 => Some(String::new()),
                2 => Some(s.text(8).replace('\0', "_")),
                _ => Some(s.ascii_text(12)),
            };
            if tags.iter().all(|e| e.0 != k) {
                tags.push((k, v));
            }
        }
        let chunks = (0..long.len(s, 3)).map(|_| s.i32v()).collect();
        assets.push(A { names: [nm(s), nm(s), nm(s), nm(s), nm(s)], tags, chunks, flags: s.u32v() & EPackageFlags::all().bits() });
    }
    let n = long.len(s, 5);
    let mut nodes = vec![];
    for _ in 0..n {
        let mut x = Node::default();
        for e in &mut x.ident {
            *e = s.flag().then(|| nm(s));
        }
        for (k, d) in x.deps.iter_mut().enumerate() {
            let here = match k {
                4 => version >= 5 && (version < 7 || flagged),
                0 | 1 | 3 => version < 7 || flagged,
                _ => true,
            };
            if here {
                *d = (0..long.len(s, 4)).map(|_| s.below(n) as i32).collect();
                if version >= 7 {
                    d.sort();
                }
            }
        }
        nodes.push(x);
    }
    let packs = (0..long.len(s, 4))
        .map(|_| P { name: nm(s), size: s.i64v(), guid: s.guid(), hash: (version >= 6 && s.flag()).then(|| s.guid()) })
        .collect();
    (Reg { version, hashes, names, assets, nodes, packs }, engine)
}

pub fn open(bytes: &[u8], engine: EngineVersion) -> Result<Result<AssetRegistryState, String>, Fail> {
    let (a, b) = get_object_versions(engine);
    let r = guarded(|| {
        let mut r = RawReader::<PackageIndex, _>::new(Chain::new(Cursor::new(bytes.to_vec()), None), a, b, false, NameMap::new());
        AssetRegistryState::new(&mut r).map_err(|e| e.to_string())
    });
    match r {
        Ok(r) => Ok(r),
        Err((at, m)) => fail(format!("read: panic {}", norm(&m)), at),
    }
}
pub fn write(r: &AssetRegistryState) -> Result<Result<Vec<u8>, String>, Fail> {
    let w = guarded(|| {
        let mut c = Cursor::new(vec![]);
        r.write(&mut c).map(|_| c.into_inner()).map_err(|e| e.to_string())
    });
    match w {
        Ok(w) => Ok(w),
        Err((at, m)) => fail(format!("write: panic {}", norm(&m)), at),
    }
}

fn nm(n: &FName) -> Nm {
    (n.get_owned_content(), n.get_number())
}
fn view(s: &mut Src, r: &AssetRegistryState, m: &Reg, when: &str) -> Res {
    ensure_eq!(s, r.get_version() as i32, m.version, format!("{when}: version"), "version");
    let a: Vec<A> = r
        .assets_data
        .iter()
        .map(|a| A {
            names: [nm(&a.object_path), nm(&a.package_path), a.asset_class.as_ref().map(nm).unwrap_or_default(), nm(&a.package_name), nm(&a.asset_name)],
            tags: a.tags_and_values.iter().map(|(_, k, v)| (nm(k), v.clone())).collect(),
            chunks: a.chunk_ids.clone(),
            flags: a.package_flags.bits(),
        })
        .collect();
    ensure_eq!(s, a, m.assets, format!("{when}: assets"), "asset data");
    let p: Vec<P> = r
        .package_data
        .iter()
        .map(|p| P { name: nm(&p.package_name), size: p.disk_size, guid: p.package_guid.0, hash: p.cooked_hash.as_ref().and_then(|h| h.hash) })
        .collect();
    ensure_eq!(s, p, m.packs, format!("{when}: packages"), "package data");
    // which nodes the dependencies are shows when they are written
    let n: Vec<_> = r
        .depends_nodes
        .iter()
        .map(|n| {
            let i = &n.identifier;
            let d = [n.hard_dependencies.len(), n.soft_dependencies.len(), n.name_dependencies.len(), n.soft_manage_dependencies.len(), n.hard_manage_dependencies.len(), n.referencers.len()];
            ([&i.package_name, &i.primary_asset_type, &i.object_name, &i.value_name].map(|e| e.as_ref().map(nm)), d)
        })
        .collect();
    let want: Vec<_> = m.nodes.iter().map(|n| (n.ident.clone(), [0, 1, 2, 3, 4, 5].map(|k| n.deps[k].len()))).collect();
    ensure_eq!(s, n, want, format!("{when}: nodes"), "dependency nodes");
    Ok(())
}

fn rounds(s: &mut Src) -> Res {
    let version = *s.pick(&[6, 5, 4, 7]);
    let (mut m, engine) = generate(s, version, false);
    let bytes = m.encode();
    s.class(format!("version {version}"));
    s.note(format!("version {version} {engine:?} names {:?} assets {:?} nodes {:?} packages {:?}", m.names, m.assets, m.nodes, m.packs));
    if !m.assets.is_empty() && !m.packs.is_empty() && m.nodes.iter().any(|n| n.deps.iter().any(|d| !d.is_empty())) {
        s.nontrivial();
    }
    let mut r = match open(&bytes, engine)? {
        Ok(r) => r,
        Err(e) => return fail(format!("read: {}", norm(&e)), e),
    };
    view(s, &r, &m, "read")?;
    match write(&r)? {
        Ok(w) if w == bytes => {}
        Ok(w) => return fail("write: bytes", bytediff(&w, &bytes)),
        Err(e) => return fail(format!("write: {}", norm(&e)), e),
    }
    // edit it
    let steps = s.size(8);
    for _ in 0..steps {
        match s.below(9) {
            0 if !m.assets.is_empty() => {
                let k = s.below(m.assets.len());
                m.assets.remove(k);
                r.assets_data.remove(k);
            }
            1 if !m.assets.is_empty() => {
                let (j, k) = (s.below(m.assets.len()), s.below(m.assets.len() + 1));
                let x = m.assets[j].clone();
                m.assets.insert(k, x);
                let x = r.assets_data[j].clone();
                r.assets_data.insert(k, x);
            }
            2 if !m.assets.is_empty() => {
                let k = s.below(m.assets.len());
                let c: Vec<i32> = (0..s.size(4)).map(|_| s.i32v()).collect();
                m.assets[k].chunks = c.clone();
                r.assets_data[k].chunk_ids = c;
                let f = s.u32v() & EPackageFlags::all().bits();
                m.assets[k].flags = f;
                r.assets_data[k].package_flags = EPackageFlags::from_bits(f).unwrap();
            }
            3 if !m.assets.is_empty() => {
                let k = s.below(m.assets.len());
                if !m.assets[k].tags.is_empty() {
                    let j = s.below(m.assets[k].tags.len());
                    let v = Some(s.text(6).replace('\0', "_"));
                    m.assets[k].tags[j].1 = v.clone();
                    if let Some(e) = r.assets_data[k].tags_and_values.get_by_index_mut(j) {
                        *e = v;
                    }
                }
            }
            4 if !m.packs.is_empty() => {
                let k = s.below(m.packs.len());
                if s.flag() {
                    m.packs.remove(k);
                    r.package_data.remove(k);
                } else {
                    let j = s.below(m.packs.len());
                    m.packs.swap(j, k);
                    r.package_data.swap(j, k);
                }
            }
            5 if !m.packs.is_empty() => {
                let k = s.below(m.packs.len());
                let p = P { name: m.packs[k].name.clone(), size: s.i64v(), guid: s.guid(), hash: (version >= 6 && s.flag()).then(|| s.guid()) };
                let q = &mut r.package_data[k];
                q.disk_size = p.size;
                q.package_guid = Guid(p.guid);
                if let Some(h) = &mut q.cooked_hash {
                    h.hash = p.hash;
                }
                m.packs[k] = p;
            }
            6 if version < 7 && !m.nodes.is_empty() => {
                // move or copy a dependency from one list to another
                let (a, b) = (s.below(m.nodes.len()), s.below(m.nodes.len()));
                let lists = if version >= 5 { 6 } else { 5 };
                let pick = |k: usize| if version < 5 && k == 4 { 5 } else { k };
                let (x, y) = (pick(s.below(lists)), pick(s.below(lists)));
                if m.nodes[a].deps[x].is_empty() {
                    continue;
                }
                let j = s.below(m.nodes[a].deps[x].len());
                let e = if s.flag() { m.nodes[a].deps[x].remove(j) } else { m.nodes[a].deps[x][j] };
                let removed = m.nodes[a].deps[x].len() < count(&r, a, x);
                m.nodes[b].deps[y].push(e);
                let n = if removed { list(&mut r, a, x).remove(j) } else { list(&mut r, a, x)[j].clone() };
                list(&mut r, b, y).push(n);
            }
            7 => {
                let n = format!("new{}", s.ascii_ident(4));
                let want = m.names.iter().position(|e| *e == n).unwrap_or(m.names.len()) as i32;
                if want as usize == m.names.len() {
                    m.names.push(n.clone());
                }
                let got = guarded(std::panic::AssertUnwindSafe(|| r.add_fname(&n))).or_else(|(at, e)| fail(format!("add_fname: panic {}", norm(&e)), at))?;
                ensure_eq!(s, got, want, "add_fname", "index of {n:?}");
            }
            8 if !m.nodes.is_empty() && !m.assets.is_empty() => {
                let (k, j, f) = (s.below(m.nodes.len()), s.below(m.assets.len()), s.below(4));
                let some = s.flag();
                m.nodes[k].ident[f] = some.then(|| m.assets[j].names[1].clone());
                let v = some.then(|| r.assets_data[j].package_path.clone());
                let i = &mut r.depends_nodes[k].identifier;
                *[&mut i.package_name, &mut i.primary_asset_type, &mut i.object_name, &mut i.value_name][f] = v;
            }
            _ => {}
        }
    }
    let want = m.encode();
    let w = match write(&r)? {
        Ok(w) if w == want => w,
        Ok(w) => return fail("edited: bytes", bytediff(&w, &want)),
        Err(e) => return fail(format!("edited: write: {}", norm(&e)), e),
    };
    match open(&w, engine)? {
        Ok(r) => view(s, &r, &m, "edited"),
        Err(e) => fail(format!("edited: read: {}", norm(&e)), e),
    }
}
fn count(r: &AssetRegistryState, n: usize, k: usize) -> usize {
    let n = &r.depends_nodes[n];
    [&n.hard_dependencies, &n.soft_dependencies, &n.name_dependencies, &n.soft_manage_dependencies, &n.hard_manage_dependencies, &n.referencers][k].len()
}
fn list(r: &mut AssetRegistryState, n: usize, k: usize) -> &mut Vec<unreal_asset_registry::objects::depends_node::DependsNode> {
    let n = &mut r.depends_nodes[n];
    match k {
        0 => &mut n.hard_dependencies,
        1 => &mut n.soft_dependencies,
        2 => &mut n.name_dependencies,
        3 => &mut n.soft_manage_dependencies,
        4 => &mut n.hard_manage_dependencies,
        _ => &mut n.referencers,
    }
}

/// registries with dependency flags
fn flagged(s: &mut Src) -> Res {
    let (m, engine) = generate(s, 7, true);
    let any = m.nodes.iter().any(|n| [0, 1, 3, 4].iter().any(|k| !n.deps[*k].is_empty()));
    s.note(format!("{:?}", m.nodes));
    if any {
        s.nontrivial();
    }
    match open(&m.encode(), engine)? {
        Ok(r) => {
            ensure_eq!(s, r.depends_nodes.len(), m.nodes.len(), "flags: nodes", "nodes");
            for (k, n) in m.nodes.iter().enumerate() {
                ensure_eq!(s, count(&r, k, 0) + count(&r, k, 1), n.deps[0].len() + n.deps[1].len(), "flags: dependencies", "dependencies of node {k}");
                ensure_eq!(s, count(&r, k, 3) + count(&r, k, 4), n.deps[3].len() + n.deps[4].len(), "flags: managed", "managed dependencies of node {k}");
            }
            Ok(())
        }
        Err(e) if any => fail("a registry with flagged dependencies is refused", e),
        Err(e) => fail(format!("flags: read: {}", norm(&e)), e),
    }
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C26",
        rule: "Registries of the versions that have a name table, from an encoder of their own: assets with tags and chunks, dependency nodes of all kinds, package data; then edited. Non-trivial: assets, packages and at least one dependency.",
        assumptions: &["versions from FixedTags on, whose layout the library does not implement, are not generated"],
        facets: vec![
            Facet { name: "rounds", quick: 1_200_000, thorough: 6_000_000, run: rounds },
            Facet { name: "flagged", quick: 2_000, thorough: 10_000, run: flagged },
        ],
    }]
}
