//! Lookups of imports and exports, and the AC7 cipher.
use crate::gen_exports::KINDS;
use crate::model::*;
use crate::p_asset::*;
use crate::pkg::*;
use crate::view::View;
use unreal_asset::ac7::{self, AC7XorKey};
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_base::Import;
use unreal_asset_exports::{Export, ExportBaseTrait, ExportNormalTrait};
use vkit::*;

// ------------------------------------------------------------------------------------------ lookups

type I = (String, String, i32, String);

fn lookups(s: &mut Src) -> Res {
    let p = gen(s, &Opts { budget: 4, max_exports: 5, kinds: KINDS, ..Default::default() });
    let mut a = open(s, &p)?;
    let v = View::new(&p.v);
    let text = |n: &FName| n.get_owned_content();
    let mut model: Vec<I> = p
        .imports
        .iter()
        .map(|e| match e {
            V::T(_, f) => match (&f[0], &f[1], &f[2], &f[3]) {
                (V::N(a, _), V::N(b, _), V::I(o), V::N(c, _)) => (a.clone(), b.clone(), *o as i32, c.clone()),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        })
        .collect();
    // add imports
    let adds = s.size(5);
    for _ in 0..adds {
        let m: I = if !model.is_empty() && s.chance(1, 2) {
            // shares parts with one that is there
            let mut m = model[s.below(model.len())].clone();
            match s.below(5) {
                0 => m.0 = format!("x{}", s.ascii_ident(3)),
                1 => m.1 = format!("x{}", s.ascii_ident(3)),
                2 => m.2 = s.range(-4, 4) as i32,
                3 => m.3 = format!("x{}", s.ascii_ident(3)),
                _ => {}
            }
            m
        } else {
            let w = |s: &mut Src| s.pick(&["A", "B", "Class", "/Script/Engine"]).to_string();
            (w(s), w(s), s.range(-3, 3) as i32, w(s))
        };
        let x = Import::new(a.add_fname(&m.0), a.add_fname(&m.1), PackageIndex::new(m.2), a.add_fname(&m.3), false);
        model.push(m);
        let k = guarded(std::panic::AssertUnwindSafe(|| a.add_import(x))).or_else(|(m, at)| fail(format!("add_import: panic {}", norm(&m)), at))?;
        ensure_eq!(s, k.index, -(model.len() as i32), "add_import: index", "index of the import added as number {}", model.len());
    }
    s.note(format!("{} exports, imports {:?}", p.exports.len(), model));
    if model.len() >= 2 && !p.exports.is_empty() {
        s.nontrivial();
    }
    let n = model.len() as i32;
    // every import index
    let mut at: Vec<i32> = (-n - 2..=p.exports.len() as i32 + 2).collect();
    at.extend([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, s.i32v()]);
    for k in at {
        let x = PackageIndex::new(k);
        let got = guarded(|| a.get_import(x)).or_else(|(m, at)| fail(format!("get_import: panic {}", norm(&m)), format!("get_import({k}): {at}")))?;
        let got: Option<I> = got.map(|e| (text(&e.class_package), text(&e.class_name), e.outer_index.index, text(&e.object_name)));
        let want = (k < 0).then(|| model.get((-(k as i64) - 1) as usize).cloned()).flatten();
        ensure_eq!(s, got, want, "get_import", "get_import({k})");
        let want = if k > 0 { p.exports.get(k as usize - 1) } else { None };
        let got = guarded(|| a.asset_data.get_export(x).map(|e| (v.base(e), v.export(e)))).or_else(|(m, at)| fail(format!("get_export: panic {}", norm(&m)), format!("get_export({k}): {at}")))?;
        match (got, want) {
            (None, None) => {}
            (Some((base, body)), Some(w)) => {
                same(s, &base, &w.base, "get_export", &format!("export {k}"))?;
                same(s, &body, &w.body, "get_export", &format!("export {k}"))?;
            }
            (g, w) => return fail("get_export: presence", format!("get_export({k}) found {} but should find {}", g.is_some(), w.is_some())),
        }
        let found = guarded(std::panic::AssertUnwindSafe(|| a.asset_data.get_export_mut(x).map(|e| e as *const Export<PackageIndex>))).or_else(|(m, at)| fail(format!("get_export_mut: panic {}", norm(&m)), format!("get_export_mut({k}): {at}")))?;
        ensure_eq!(s, found, a.asset_data.get_export(x).map(|e| e as *const _), "get_export_mut", "get_export_mut({k})");
    }
    // searches
    let queries = 1 + s.size(12);
    for _ in 0..queries {
        let mut q: I = if model.is_empty() { ("A".into(), "B".into(), 0, "C".into()) } else { model[s.below(model.len())].clone() };
        if s.chance(1, 2) {
            let other = if model.is_empty() { q.clone() } else { model[s.below(model.len())].clone() };
            match s.below(5) {
                0 => q.0 = other.0,
                1 => q.1 = other.1,
                2 => q.2 = s.range(-4, 4) as i32,
                3 => q.3 = other.3,
                _ => q.3.push('x'),
            }
        }
        // names of the package, of no package, or with a number
        let name = |s: &mut Src, t: &str| match s.below(3) {
            0 => FName::from_slice(t),
            1 => FName::new_dummy(t.to_string(), s.range(0, 3) as i32),
            _ => a.get_name_map().get_mut().add_fname(t),
        };
        let f = (name(s, &q.0), name(s, &q.1), name(s, &q.3));
        let o = PackageIndex::new(q.2);
        let got = guarded(|| a.find_import(&f.0, &f.1, o, &f.2)).or_else(|(m, at)| fail(format!("find_import: panic {}", norm(&m)), at))?;
        let want = model.iter().position(|e| *e == q).map(|k| -(k as i32) - 1);
        ensure_eq!(s, got, want, "find_import", "find_import {q:?} in {model:?}");
        let got = guarded(|| a.find_import_no_index(&f.0, &f.1, &f.2)).or_else(|(m, at)| fail(format!("find_import_no_index: panic {}", norm(&m)), at))?;
        let want = model.iter().position(|e| (&e.0, &e.1, &e.3) == (&q.0, &q.1, &q.3)).map(|k| -(k as i32) - 1);
        ensure_eq!(s, got, want, "find_import_no_index", "find_import_no_index {q:?} in {model:?}");
        s.class(if got.is_some() { "found" } else { "not found" });
    }
    // the class
    let want = p.exports.iter().position(|e| e.plan.kind == "Class");
    let got = a.asset_data.get_class_export().map(|c| a.asset_data.exports.iter().position(|e| matches!(e, Export::ClassExport(x) if std::ptr::eq(x, c))));
    ensure_eq!(s, got, want.map(Some), "get_class_export", "the class export");
    // every export gives out the parts it consists of
    for (k, e) in a.asset_data.exports.iter_mut().enumerate() {
        let normal = !matches!(e, Export::RawExport(_));
        ensure_eq!(s, e.get_normal_export().is_some(), normal, "get_normal_export", "export {k} has properties");
        let p1 = e.get_base_export() as *const _;
        let p2 = e.get_base_export_mut() as *const _;
        ensure!(s, std::ptr::eq(p1, p2), "get_base_export_mut", "export {k} has two base exports");
        let p1 = e.get_normal_export().map(|e| e as *const _);
        let p2 = e.get_normal_export_mut().map(|e| e as *const _);
        ensure_eq!(s, p1, p2, "get_normal_export_mut", "normal part of export {k}");
    }
    Ok(())
}

fn indices(s: &mut Src) -> Res {
    use unreal_asset_base::types::PackageIndexTrait;
    let k = match s.below(3) {
        0 => s.range(-3, 3) as i32,
        _ => s.i32v(),
    };
    if k == i32::MAX {
        return Ok(()); // has no index as an export
    }
    s.note(format!("{k}"));
    s.nontrivial();
    let x = PackageIndex::new(k);
    ensure_eq!(s, (x.is_import(), x.is_export()), (k < 0, k > 0), "kind of index", "index {k}");
    ensure_eq!(s, x.to_string(), k.to_string(), "text of index", "index {k}");
    for (got, want, what) in [
        (PackageIndex::from_import(k), -(k as i64) - 1, "from_import"),
        (PackageIndex::from_export(k), k as i64 + 1, "from_export"),
    ] {
        match got {
            Ok(g) => {
                ensure_eq!(s, (g.index as i64, true), (want, k >= 0), what, "{what} {k}");
            }
            Err(_) => {
                ensure!(s, k < 0, what, "{what} {k} is refused");
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- ac7

const KEY: &[u8] = include_bytes!("ac7key.bin");

fn reference(name: &str, skip: usize, data: &[u8], from: usize) -> Vec<u8> {
    let mut n = 0u32;
    for c in name.to_uppercase().bytes() {
        n ^= c as u32;
        let t = !((n << 3) ^ n);
        n = ((t >> 7) & 1) | (n << 1);
    }
    let a = (n as u64 * 7 + 4) % 217;
    let b = (n as u64 * 11 + 4) % 1024;
    let mut out = data.to_vec();
    for (k, x) in out.iter_mut().enumerate().skip(skip) {
        let k = (k - skip + from) as u64;
        *x ^= KEY[((a + k) % 217 * 1024 + (b + k) % 1024) as usize] ^ 0x77;
    }
    out
}

fn cipher(s: &mut Src) -> Res {
    let name = match s.below(4) {
        0 => s.text(10),
        1 => s.ascii_text(40),
        _ => s.ascii_ident(30),
    };
    let n = 4 + if s.chance(1, 20) { s.urange(0, 6000) } else { s.size(300) };
    let mut asset = s.blob(n);
    let m = if s.chance(1, 20) { s.urange(0, 6000) } else { s.size(300) };
    let bulk = s.blob(m);
    s.note(format!("name {name:?} {n}+{m} bytes"));
    if n > 4 && m > 0 && !name.is_empty() {
        s.nontrivial();
    }
    asset[..4].copy_from_slice(&[0xc1, 0x83, 0x2a, 0x9e]);
    let (e, eb) = guarded(|| ac7::encrypt(&asset, &bulk, AC7XorKey::new(&name))).or_else(|(m, at)| fail(format!("encrypt: panic {}", norm(&m)), at))?;
    let mut want = reference(&name, 4, &asset, 0);
    want[..4].copy_from_slice(b"ACE7");
    if e != want {
        return fail("encrypt: asset", bytediff(&e, &want));
    }
    let want = reference(&name, 0, &bulk, n - 4);
    if eb != want {
        return fail("encrypt: bulk", bytediff(&eb, &want));
    }
    let (d, db) = guarded(|| ac7::decrypt(&e, &eb, AC7XorKey::new(&name))).or_else(|(m, at)| fail(format!("decrypt: panic {}", norm(&m)), at))?;
    if d != asset {
        return fail("decrypt: asset", bytediff(&d, &asset));
    }
    if db != bulk {
        return fail("decrypt: bulk", bytediff(&db, &bulk));
    }
    // one file after the other with one key; the case of the name does not matter
    let mut key = AC7XorKey::new(&if name.is_ascii() { name.to_ascii_lowercase() } else { name.clone() });
    let one = ac7::encrypt_uasset(&asset, &mut key);
    let two = ac7::encrypt_uexp(&bulk, &mut key);
    ensure!(s, one == e && two == eb, "encrypt: file by file", "encrypting the files one after the other differs");
    let mut key = AC7XorKey::new(&if name.is_ascii() { name.to_ascii_uppercase() } else { name.clone() });
    let one = ac7::decrypt_uasset(&e, &mut key);
    let two = ac7::decrypt_uexp(&eb, &mut key);
    ensure!(s, one == asset && two == bulk, "decrypt: file by file", "decrypting the files one after the other differs");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C23",
            rule: "the package has exports and at least two imports",
            assumptions: &[],
            facets: vec![
                Facet { name: "lookups", quick: 450_000, thorough: 4_000_000, run: lookups },
                Facet { name: "indices", quick: 60_000, thorough: 1_000_000, run: indices },
            ],
        },
        Property {
            id: "C24",
            rule: "both files have encrypted content and the name is not empty",
            assumptions: &["the key table vendor/AC7Key.bin is data, a copy of it is part of the reference"],
            facets: vec![Facet { name: "cipher", quick: 1_200_000, thorough: 2_000_000, run: cipher }],
        },
    ]
}
