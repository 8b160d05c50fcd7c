//! Packages: what is read is what the file states, and an unedited package is written back byte for byte.
use crate::gen_exports::KINDS;
use crate::model::*;
use crate::pkg::*;
use crate::view::View;
use std::io::Cursor;
use unreal_asset::Asset;
use unreal_asset_exports::ExportBaseTrait;
use vkit::*;

pub type A = Asset<Cursor<Vec<u8>>>;

pub fn open(s: &mut Src, p: &Pkg) -> Result<A, Fail> {
    let (a, b) = (p.asset.clone(), p.bulk.clone());
    let e = p.v.engine;
    match guarded(move || Asset::new(Cursor::new(a), b.map(Cursor::new), e, None)) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => fail(format!("open: a valid package is refused: {}", norm(&e.to_string())), e.to_string()),
        Err((m, at)) => {
            s.note(&m);
            fail(format!("open: panic {}", norm(&m)), format!("{m} at {at}"))
        }
    }
}
pub fn save(a: &A) -> Result<(Vec<u8>, Option<Vec<u8>>), Fail> {
    let mut c = Cursor::new(vec![]);
    let mut u = a.asset_data.use_event_driven_loader.then(|| Cursor::new(vec![]));
    match guarded(std::panic::AssertUnwindSafe(|| a.write_data(&mut c, u.as_mut()))) {
        Ok(Ok(())) => Ok((c.into_inner(), u.map(|e| e.into_inner()))),
        Ok(Err(e)) => fail("write: a package that was read cannot be written", e.to_string()),
        Err((m, at)) => fail(format!("write: panic {}", norm(&m)), format!("{m} at {at}")),
    }
}

pub fn check_read<C: std::io::Read + std::io::Seek>(s: &mut Src, p: &Pkg, a: &Asset<C>) -> Res {
    let v = View::new(&p.v);
    same(s, &v.header(a), &p.header, "header", "the header")?;
    let names = a.get_name_map().get_ref().get_name_map_index_list().to_vec();
    ensure_eq!(s, names, p.names, "names", "the name table");
    ensure_eq!(s, a.imports.len(), p.imports.len(), "imports", "number of imports");
    for (k, (x, w)) in a.imports.iter().zip(&p.imports).enumerate() {
        same(s, &v.import(x), w, "import", &format!("import {k}"))?;
    }
    ensure_eq!(s, a.asset_data.exports.len(), p.exports.len(), "exports", "number of exports");
    for (k, (x, w)) in a.asset_data.exports.iter().zip(&p.exports).enumerate() {
        same(s, &v.base(x), &w.base, "export entry", &format!("export map entry {k}"))?;
        let b = x.get_base_export();
        ensure_eq!(s, (b.serial_size, b.serial_offset), (w.size, w.offset), "export extent", "size and offset of export {k}");
        same(s, &v.export(x), &w.body, "export data", &format!("data of export {k} ({})", w.plan.kind))?;
    }
    same(s, &v.world(&a.asset_data.world_tile_info), &p.world, "world tile", "the world tile info")
}

pub fn check_bytes(s: &mut Src, p: &Pkg, a: &A) -> Res {
    let (x, u) = save(a)?;
    if x != p.asset {
        return fail("rewrite: the package differs", bytediff(&x, &p.asset));
    }
    if u != p.bulk {
        return fail("rewrite: the export data differs", bytediff(&u.unwrap_or_default(), p.bulk.as_deref().unwrap_or_default()));
    }
    // and the same again: writing leaves the package unchanged
    let again = save(a)?;
    ensure!(s, again.0 == x && again.1 == u, "rewrite: second write differs", "the second write differs from the first");
    Ok(())
}

fn round(s: &mut Src, o: &Opts, rich: fn(&Pkg) -> bool) -> Res {
    let p = gen(s, o);
    for k in &p.kinds {
        s.class(k.clone());
    }
    s.note(format!("{:?} {} names {} imports {} exports, {} bytes", p.v, p.names.len(), p.imports.len(), p.exports.len(), p.asset.len()));
    for e in &p.exports {
        s.note(clip(&format!("{} {:?}", e.plan.class, e.body)));
    }
    if rich(&p) {
        s.nontrivial();
    }
    let a = open(s, &p)?;
    check_read(s, &p, &a)?;
    check_bytes(s, &p, &a)
}

const REFS: &[&str] = &["ArrayProperty", "SetProperty", "MapProperty"];
fn header(s: &mut Src) -> Res {
    round(s, &Opts { budget: 4, max_exports: 8, kinds: &["Normal", "Normal", "Raw", "World"], ..Default::default() }, |p| {
        p.exports.len() > 1 && p.imports.len() > 1
    })
}
fn scalars(s: &mut Src) -> Res {
    round(s, &Opts { focus: 1, max_exports: 3, kinds: &["Normal"], ..Default::default() }, |p| {
        p.kinds.iter().filter(|k| crate::gen_props::SCALARS.contains(&k.as_str())).count() >= 3
    })
}
fn structs(s: &mut Src) -> Res {
    round(s, &Opts { focus: 2, max_exports: 3, kinds: &["Normal", "Normal", "DataTable"], ..Default::default() }, |p| {
        p.kinds.iter().any(|k| crate::gen_props::CUSTOM.contains(&k.as_str()))
    })
}
fn containers(s: &mut Src) -> Res {
    round(s, &Opts { focus: 3, max_exports: 3, kinds: &["Normal", "Normal", "Class"], ..Default::default() }, |p| {
        p.kinds.iter().any(|k| REFS.contains(&k.as_str()))
    })
}
fn learned(s: &mut Src) -> Res {
    let mut v = Ver::gen(s);
    for _ in 0..6 {
        if v.cv[CORE] >= 4 {
            break;
        }
        v = Ver::gen(s);
    }
    round(s, &Opts { focus: 4, max_exports: 5, kinds: &["Normal", "Class"], ver: Some(v), budget: 30, split: None }, |p| {
        p.kinds.iter().any(|k| k == "map of a learned name")
    })
}
fn kinds(s: &mut Src) -> Res {
    round(s, &Opts { budget: 20, max_exports: 4, kinds: KINDS, ..Default::default() }, |p| {
        p.exports.iter().any(|e| !["Normal", "Raw"].contains(&e.plan.kind))
    })
}

fn scripts(s: &mut Src) -> Res {
    round(s, &Opts { budget: 40, max_exports: 2, kinds: &["Function", "Function", "Class"], ..Default::default() }, |p| {
        p.kinds.iter().filter(|k| k.starts_with("Ex")).count() >= 4
    })
}

pub fn props() -> Vec<Property> {
    let one = |id, rule, name, run| Property { id, rule, assumptions: &[], facets: vec![Facet { name, quick: 800_000, thorough: 8_000_000, run }] };
    let mut l = vec![
        one("C16", "the package has at least two exports and two imports", "package-structure", header as fn(&mut Src) -> Res),
        one("C17", "the package holds basic values of at least three types", "basic-values", scalars),
        one("C18", "the package holds at least one struct stored in its own binary form", "binary-structs", structs),
        one("C19", "the package holds at least one array, set or map", "containers", containers),
        one("C25", "the scripts of the package hold expressions of at least four kinds", "scripts", scripts),
        one("C20", "at least one export is of a kind with a layout of its own", "export-kinds", kinds),
    ];
    l[3].rule = "containers: the package holds at least one array, set or map; learned: it holds a map whose struct types are told by a class of the package";
    l[3].facets.push(Facet { name: "learned", quick: 200_000, thorough: 2_000_000, run: learned });
    l
}
