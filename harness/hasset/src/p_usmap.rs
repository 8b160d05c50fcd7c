//! Mapping files (.usmap): parsing, lookups, damage; and the decompression used by the base crate.
use crate::model::ENGINES;
use crate::p_damage::dent;
use std::io::{Cursor, Write};
use unreal_asset_base::compression::{decompress, CompressionMethod};
use unreal_asset_base::types::FName;
use unreal_asset_base::unversioned::properties::*;
use unreal_asset_base::unversioned::{Ancestry, Usmap};
use vkit::*;

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Shallow(u8),
    Enum(Box<Ty>, String),
    Struct(String),
    Set(Box<Ty>),
    Array(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
}
const TYPES: &[&str] = &[
    "ByteProperty", "BoolProperty", "IntProperty", "FloatProperty", "ObjectProperty", "NameProperty", "DelegateProperty",
    "DoubleProperty", "ArrayProperty", "StructProperty", "StrProperty", "TextProperty", "InterfaceProperty",
    "MulticastDelegateProperty", "WeakObjectProperty", "LazyObjectProperty", "AssetObjectProperty", "SoftObjectProperty",
    "UInt64Property", "UInt32Property", "UInt16Property", "Int64Property", "Int16Property", "Int8Property", "MapProperty",
    "SetProperty", "EnumProperty", "FieldPathProperty",
];

#[derive(Clone, Debug)]
struct Prop {
    name: String,
    index: u16,
    array: u8,
    ty: Ty,
}
#[derive(Clone, Debug)]
struct Schema {
    name: String,
    sup: String,
    count: u16,
    props: Vec<Prop>,
    path: usize,
}
#[derive(Clone, Debug)]
struct Map {
    version: u8,
    versioning: Option<(i32, i32, Vec<([u8; 16], i32)>, u32)>,
    compression: u8,
    names: Vec<String>,
    enums: Vec<(String, Vec<String>)>,
    schemas: Vec<Schema>,
    ext: Option<Vec<String>>,
    paths: bool,
}

fn fstring(out: &mut Vec<u8>, s: &str) {
    if s.is_ascii() {
        out.extend((s.len() as i32 + 1).to_le_bytes());
        out.extend(s.as_bytes());
        out.push(0);
    } else {
        let u: Vec<u16> = s.encode_utf16().collect();
        out.extend((-(u.len() as i32) - 1).to_le_bytes());
        u.iter().for_each(|c| out.extend(c.to_le_bytes()));
        out.extend([0, 0]);
    }
}

impl Map {
    fn name(&self, out: &mut Vec<u8>, n: &str) {
        let k = self.names.iter().position(|e| e == n).expect("a known name");
        out.extend((k as i32).to_le_bytes());
    }
    fn ty(&self, out: &mut Vec<u8>, t: &Ty) {
        match t {
            Ty::Shallow(b) => out.push(*b),
            Ty::Array(t) => {
                out.push(8);
                self.ty(out, t);
            }
            Ty::Struct(n) => {
                out.push(9);
                self.name(out, n);
            }
            Ty::Map(k, v) => {
                out.push(24);
                self.ty(out, k);
                self.ty(out, v);
            }
            Ty::Set(t) => {
                out.push(25);
                self.ty(out, t);
            }
            Ty::Enum(t, n) => {
                out.push(26);
                self.ty(out, t);
                self.name(out, n);
            }
        }
    }
    fn body(&self) -> Vec<u8> {
        let mut o = vec![];
        o.extend((self.names.len() as i32).to_le_bytes());
        for n in &self.names {
            o.push(n.len() as u8 + 1);
            o.extend(n.as_bytes());
        }
        o.extend((self.enums.len() as u32).to_le_bytes());
        for (n, v) in &self.enums {
            self.name(&mut o, n);
            o.push(v.len() as u8);
            v.iter().for_each(|v| self.name(&mut o, v));
        }
        o.extend((self.schemas.len() as u32).to_le_bytes());
        for s in &self.schemas {
            self.name(&mut o, &s.name);
            self.name(&mut o, &s.sup);
            o.extend(s.count.to_le_bytes());
            o.extend((s.props.len() as u16).to_le_bytes());
            for p in &s.props {
                o.extend(p.index.to_le_bytes());
                o.push(p.array);
                self.name(&mut o, &p.name);
                self.ty(&mut o, &p.ty);
            }
        }
        if let Some(paths) = &self.ext {
            o.extend((self.paths as u32).to_le_bytes());
            if self.paths {
                o.extend((paths.len() as u16).to_le_bytes());
                paths.iter().for_each(|p| fstring(&mut o, p));
                for s in &self.schemas {
                    if paths.len() > 255 {
                        o.extend((s.path as u16).to_le_bytes());
                    } else {
                        o.push(s.path as u8);
                    }
                }
            }
        }
        o
    }
    fn encode(&self, body: Vec<u8>) -> Vec<u8> {
        let mut o = vec![0x30, 0xc4, self.version];
        if self.version >= 1 {
            o.push(self.versioning.is_some() as u8);
        }
        if let Some((a, b, cv, net)) = &self.versioning {
            o.extend(a.to_le_bytes());
            o.extend(b.to_le_bytes());
            o.extend((cv.len() as i32).to_le_bytes());
            for (g, v) in cv {
                o.extend(g);
                o.extend(v.to_le_bytes());
            }
            o.extend(net.to_le_bytes());
        }
        o.push(self.compression);
        let n = body.len() as u32;
        let packed = match self.compression {
            2 => {
                let mut w = vec![];
                let p = brotli::enc::BrotliEncoderParams { quality: 1, lgwin: 16, ..Default::default() };
                brotli::BrotliCompress(&mut Cursor::new(&body), &mut w, &p).unwrap();
                w
            }
            3 => zstd::encode_all(Cursor::new(&body), 1).unwrap(),
            _ => body,
        };
        o.extend((packed.len() as u32).to_le_bytes());
        o.extend(n.to_le_bytes());
        o.extend(packed);
        o
    }
}

fn ty(s: &mut Src, names: &[String], depth: usize) -> Ty {
    let k = if depth == 0 { 5 + s.below(3) } else { s.below(9) };
    match k {
        0 => Ty::Enum(Box::new(ty(s, names, depth - 1)), s.pick(names).clone()),
        1 => Ty::Set(Box::new(ty(s, names, depth - 1))),
        2 | 3 => Ty::Array(Box::new(ty(s, names, depth - 1))),
        4 => Ty::Map(Box::new(ty(s, names, depth - 1)), Box::new(ty(s, names, depth - 1))),
        5 => Ty::Struct(s.pick(names).clone()),
        _ => Ty::Shallow(loop {
            let k = s.below(28) as u8;
            if ![8, 9, 24, 25, 26].contains(&k) {
                break k;
            }
        }),
    }
}

fn generate(s: &mut Src) -> Map {
    let mut names: Vec<String> = vec![];
    for k in 0..s.urange(6, 30) {
        let n = match s.below(6) {
            0 => s.text(12),
            1 => "x".repeat(s.urange(1, 254)),
            2 => format!("{k}"),
            _ => s.ascii_ident(16),
        };
        if n.len() < 255 && !names.contains(&n) {
            names.push(n);
        }
    }
    while names.len() < 6 {
        names.push(format!("n{}", names.len()));
    }
    let enums = {
        let mut used = vec![];
        let mut out = vec![];
        for _ in 0..s.size(4) {
            let n = s.pick(&names).clone();
            if used.contains(&n) {
                continue;
            }
            used.push(n.clone());
            let k = if s.chance(1, 20) { 255 } else { s.size(6) };
            out.push((n, (0..k).map(|_| s.pick(&names).clone()).collect()));
        }
        out
    };
    let mut schemas: Vec<Schema> = vec![];
    let many = s.chance(1, 40);
    for _ in 0..s.size(8) + 1 {
        let name = s.pick(&names).clone();
        if schemas.iter().any(|e| e.name == name) {
            continue;
        }
        // no cycles: the parent is one of those before it, or of no schema
        let sup = if !schemas.is_empty() && s.chance(3, 4) {
            schemas[s.below(schemas.len())].name.clone()
        } else {
            match names.iter().find(|n| **n != name && !schemas.iter().any(|e| e.name == **n)) {
                Some(n) => n.clone(),
                None => continue,
            }
        };
        let mut props: Vec<Prop> = vec![];
        let mut at = 0u16;
        for _ in 0..s.size(6) {
            let n = s.pick(&names).clone();
            if props.iter().any(|p| p.name == n) {
                continue;
            }
            at += if s.chance(1, 4) { s.below(if many { 300 } else { 4 }) as u16 } else { 0 };
            let array = if s.chance(1, 5) { s.urange(2, 255) as u8 } else { 1 };
            props.push(Prop { name: n, index: at, array, ty: ty(s, &names, 3) });
            at += array as u16;
        }
        if s.chance(1, 10) {
            props.reverse();
        }
        at += if s.chance(1, 4) { s.below(4) as u16 } else { 0 };
        schemas.push(Schema { name, sup, count: at, props, path: 0 });
    }
    // a later schema must not become the parent of an earlier one by its name
    let all: Vec<String> = schemas.iter().map(|e| e.name.clone()).collect();
    for k in 0..schemas.len() {
        if all[k..].contains(&schemas[k].sup) {
            schemas.truncate(k);
            break;
        }
    }
    let paths = s.flag();
    let ext = if s.chance(2, 3) {
        let n = if s.chance(1, 12) { *s.pick(&[255, 256, 257, 300]) } else { 1 + s.size(5) };
        let p: Vec<String> = (0..n).map(|k| if n > 20 { format!("{k}") } else { s.text(10) }).collect();
        for e in &mut schemas {
            e.path = s.below(n);
        }
        Some(p)
    } else {
        None
    };
    let version = s.below(4) as u8;
    let versioning = (version >= 1 && s.flag()).then(|| {
        let e = s.pick(ENGINES);
        let cv = (0..s.size(4)).map(|_| (s.guid(), s.i32v())).collect();
        (e.1, e.2, cv, s.u32v())
    });
    let compression = *s.pick(&[0, 0, 0, 0, 0, 0, 2, 3]);
    Map { version, versioning, compression, names, enums, schemas, ext, paths }
}

fn same(s: &mut Src, got: &UsmapPropertyData, want: &Ty) -> Res {
    let w = match want {
        Ty::Shallow(b) => TYPES[*b as usize],
        Ty::Enum(..) => "EnumProperty",
        Ty::Struct(_) => "StructProperty",
        Ty::Set(_) => "SetProperty",
        Ty::Array(_) => "ArrayProperty",
        Ty::Map(..) => "MapProperty",
    };
    ensure_eq!(s, got.get_property_type().to_string(), w, "property type", "type of a property");
    match (got, want) {
        (UsmapPropertyData::UsmapShallowPropertyData(_), Ty::Shallow(_)) => Ok(()),
        (UsmapPropertyData::UsmapEnumPropertyData(g), Ty::Enum(t, n)) => {
            ensure_eq!(s, &g.name, n, "enum name", "name of an enum property");
            same(s, &g.inner_property, t)
        }
        (UsmapPropertyData::UsmapStructPropertyData(g), Ty::Struct(n)) => {
            ensure_eq!(s, &g.struct_type, n, "struct name", "struct of a property");
            Ok(())
        }
        (UsmapPropertyData::UsmapSetPropertyData(g), Ty::Set(t)) => same(s, &g.inner_type, t),
        (UsmapPropertyData::UsmapArrayPropertyData(g), Ty::Array(t)) => same(s, &g.inner_type, t),
        (UsmapPropertyData::UsmapMapPropertyData(g), Ty::Map(k, v)) => {
            same(s, &g.inner_type, k)?;
            same(s, &g.value_type, v)
        }
        _ => fail("property data", format!("{got:?} for {want:?}")),
    }
}

fn open(d: Vec<u8>) -> Result<Result<Usmap, String>, Fail> {
    match guarded(move || Usmap::new(Cursor::new(d)).map_err(|e| e.to_string())) {
        Ok(r) => Ok(r),
        Err((at, m)) => fail(format!("read: panic {}", norm(&m)), format!("{m} at {at}")),
    }
}

fn parse(s: &mut Src) -> Res {
    let m = generate(s);
    s.note(format!("{m:?}"));
    if m.schemas.iter().any(|e| !e.props.is_empty()) {
        s.nontrivial();
    }
    s.class(format!("compression {}", m.compression));
    let d = m.encode(m.body());
    let u = match open(d)? {
        Ok(u) => u,
        Err(e) => return fail(format!("read: {}", norm(&e)), e),
    };
    ensure_eq!(s, u.version as u8, m.version, "version", "file version");
    ensure_eq!(s, u.compression_method as u8, m.compression, "compression", "compression method");
    let (a, b, cv, net) = m.versioning.clone().unwrap_or_default();
    ensure_eq!(s, (u.object_version as i32, u.object_version_ue5 as i32, u.net_cl), (a, b, net), "versions", "object versions and changelist");
    let got: Vec<_> = u.custom_versions.iter().map(|c| (c.guid.0, c.version)).collect();
    ensure_eq!(s, got, cv, "custom versions", "custom versions");
    ensure_eq!(s, u.name_map, m.names, "names", "name table");
    let got: Vec<_> = u.enum_map.iter().map(|(_, k, v)| (k.clone(), v.clone())).collect();
    ensure_eq!(s, got, m.enums, "enums", "enums");
    ensure_eq!(s, u.extension_version.bits(), (m.ext.is_some() && m.paths) as u32, "extensions", "extension version");
    let got: Vec<_> = u.schemas.keys().cloned().collect();
    let want: Vec<_> = m.schemas.iter().map(|e| e.name.clone()).collect();
    ensure_eq!(s, got, want, "schemas", "schemas");
    for e in &m.schemas {
        let g = u.schemas.get_by_key(&e.name).unwrap();
        let path = m.ext.as_ref().filter(|_| m.paths).map(|p| p[e.path].clone());
        ensure_eq!(s, (&g.name, &g.super_type, g.prop_count, &g.module_path), (&e.name, &e.sup, e.count, &path), "schema", "schema {}", e.name);
        let mut it = g.properties.values();
        for p in &e.props {
            for k in 0..p.array as u16 {
                let Some(g) = it.next() else { return fail("missing properties", format!("{} of {}", p.name, e.name)) };
                ensure_eq!(s, (&g.name, g.schema_index, g.array_size, g.array_index), (&p.name, p.index + k, p.array, k), "property", "property {} of {}", p.name, e.name);
                if k == 0 {
                    same(s, &g.property_data, &p.ty)?;
                }
            }
        }
        ensure!(s, it.next().is_none(), "extra properties", "schema {}", e.name);
        let got = u.get_all_properties(&e.name).len();
        ensure_eq!(s, got, chain(&m, &e.name).iter().map(|e| e.props.iter().map(|p| p.array as usize).sum::<usize>()).sum::<usize>(), "all properties", "schema {}", e.name);
    }
    // lookups
    if m.schemas.is_empty() {
        return Ok(());
    }
    for _ in 0..8 {
        let e = &m.schemas[s.below(m.schemas.len())].clone();
        let c = chain(&m, &e.name);
        let n = if s.flag() {
            s.pick(&m.names).clone()
        } else {
            match c[s.below(c.len())].props.first() {
                Some(p) => p.name.clone(),
                None => continue,
            }
        };
        let dup = if s.flag() { 0 } else { s.below(4) as u32 };
        let f = |n: &str| FName::new_dummy(n.to_string(), 0);
        let anc = Ancestry::new(f(&e.name));
        let want = find(&c, &n, dup);
        if let Some(w) = &want {
            // the property itself
            let got = u.get_property_with_duplication_index(&f(&n), &anc, dup).map(|(p, g)| (p.name.clone(), p.array_index as u32, p.schema_index, g));
            ensure_eq!(s, got.as_ref(), Some(w), "lookup", "{n} {dup} of {}", e.name);
            if dup == 0 {
                let got = u.get_property(&f(&n), &anc).map(|p| (p.name.clone(), p.schema_index));
                ensure_eq!(s, got, Some((w.0.clone(), w.2)), "lookup 0", "{n} of {}", e.name);
            }
            // an element of it, of which only the position is known
            let anc = anc.with_parent(f(&n));
            let elem = "4000000";
            if !m.schemas.iter().any(|e| e.name == n) {
                let got = u.get_property_with_duplication_index(&f(elem), &anc, dup).map(|(p, g)| (p.name.clone(), p.array_index as u32, p.schema_index, g));
                ensure_eq!(s, got.as_ref(), Some(w), "lookup of an element", "{n} {dup} of {}", e.name);
            }
            s.class("found");
        } else {
            let got = u.get_property_with_duplication_index(&f(&n), &anc, dup).map(|(p, _)| p.name.clone());
            ensure_eq!(s, got, None, "lookup of nothing", "{n} {dup} of {}", e.name);
            s.class("not found");
        }
    }
    Ok(())
}
/// a schema and those it derives from
fn chain<'a>(m: &'a Map, name: &str) -> Vec<&'a Schema> {
    let mut out = vec![];
    let mut n = name.to_string();
    while let Some(e) = m.schemas.iter().find(|e| e.name == n) {
        out.push(e);
        n = e.sup.clone();
    }
    out
}
fn find(c: &[&Schema], n: &str, dup: u32) -> Option<(String, u32, u16, u32)> {
    let mut base = 0;
    for e in c {
        if let Some(p) = e.props.iter().find(|p| p.name == n && dup < p.array as u32) {
            let i = p.index + dup as u16;
            return Some((p.name.clone(), dup, i, base + i as u32));
        }
        base += e.count as u32;
    }
    None
}

pub fn damaged(s: &mut Src) -> Res {
    let m = generate(s);
    let mut body = m.body();
    let mut what = vec![];
    let inner = s.chance(4, 5);
    if inner {
        for _ in 0..1 + s.size(3) {
            what.push(format!("body {}", dent(s, &mut body)));
        }
    }
    let mut d = m.encode(body);
    if !inner {
        for _ in 0..1 + s.size(3) {
            what.push(dent(s, &mut d));
        }
    }
    s.note(format!("{m:?} {what:?}"));
    s.nontrivial();
    match open(d)? {
        Ok(_) => s.class("mappings opened"),
        Err(_) => s.class("mappings refused"),
    }
    Ok(())
}

/// the decompression of blocks
fn blocks(s: &mut Src) -> Res {
    let n = match s.below(4) {
        0 => 0,
        1 => s.below(20),
        2 => s.below(3000),
        _ => s.below(70_000),
    };
    let data = s.blob(n);
    let k = s.below(4);
    let name = ["None", "Zlib", "Gzip", "LZ4"][k];
    let mut packed = match k {
        0 => data.clone(),
        1 => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(s.below(10) as u32));
            e.write_all(&data).unwrap();
            e.finish().unwrap()
        }
        2 => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(s.below(10) as u32));
            e.write_all(&data).unwrap();
            e.finish().unwrap()
        }
        _ => lz4_flex::block::compress(&data),
    };
    s.note(format!("{name} {n}"));
    s.class(name);
    if n > 0 {
        s.nontrivial();
    }
    let method = CompressionMethod::new(name);
    ensure_eq!(s, method.to_string(), name, "method name", "name of {method:?}");
    let mut out = vec![0xa5; n];
    match guarded(|| decompress(CompressionMethod::new(name), &packed, &mut out).map_err(|e| e.to_string())) {
        Ok(Ok(())) => {
            ensure!(s, out == data, format!("{name}: content"), "{}", bytediff(&out, &data));
        }
        Ok(Err(e)) => return fail(format!("{name}: {}", norm(&e)), e),
        Err((at, m)) => return fail(format!("{name}: panic {}", norm(&m)), format!("{m} at {at}")),
    }
    // one that is not known
    let odd = s.ascii_ident(8);
    if !["None", "Zlib", "Gzip", "LZ4"].contains(&odd.as_str()) {
        let m = CompressionMethod::new(&odd);
        ensure_eq!(s, m.to_string(), odd, "unknown method name", "name of {m:?}");
        ensure!(s, decompress(m, &packed, &mut out).is_err(), "unknown method accepted", "{odd}");
    }
    // damaged
    if !packed.is_empty() {
        if s.flag() {
            packed.truncate(s.below(packed.len()));
        } else {
            let at = s.below(packed.len());
            packed[at] = s.byte();
        }
    }
    if let Err((at, m)) = guarded(|| decompress(CompressionMethod::new(name), &packed, &mut out).is_ok()) {
        return fail(format!("{name}: damaged: panic {}", norm(&m)), format!("{m} at {at}"));
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C28",
        rule: "Mapping files of all versions from an encoder of their own, with up to 9 schemas in chains, static arrays, gaps, extensions, uncompressed, brotli and zstandard; lookups against a list model; damaged ones; blocks of all compression methods. Non-trivial: a schema with properties, a non-empty block.",
        assumptions: &["the file magic and the length bytes of names are those the library reads", "schemas do not derive from themselves"],
        facets: vec![
            Facet { name: "parse", quick: 450_000, thorough: 3_000_000, run: parse },
            Facet { name: "damaged", quick: 400_000, thorough: 3_000_000, run: damaged },
            Facet { name: "blocks", quick: 120_000, thorough: 600_000, run: blocks },
        ],
    }]
}
