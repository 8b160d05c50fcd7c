//! Damaged packages: refused, or read as something, but never a panic or an abort.
use crate::gen_exports::KINDS;
use crate::pkg::*;
use std::io::Cursor;
use unreal_asset::Asset;
use vkit::*;

pub fn dent(s: &mut Src, d: &mut Vec<u8>) -> String {
    if d.is_empty() {
        return "nothing".into();
    }
    let n = d.len();
    // the header more often than the rest
    let at = if s.chance(1, 3) { s.below(n.min(400)) } else { s.below(n) };
    match s.below(8) {
        0 => {
            d[at] = s.u8v();
            format!("[{at}]={:#x}", d[at])
        }
        1 => {
            d[at] ^= 1 << s.below(8);
            format!("[{at}]={:#x}", d[at])
        }
        2 | 3 | 4 if at + 4 <= n => {
            let old = i32::from_le_bytes(d[at..at + 4].try_into().unwrap());
            let x = match s.below(10) {
                0 => -1,
                1 => i32::MAX,
                2 => i32::MIN,
                3 => old.wrapping_neg(),
                4 => old.wrapping_add(1),
                5 => old.wrapping_sub(1),
                6 => n as i32,
                7 => 0,
                8 => 0x1000_0000,
                _ => s.i32v(),
            };
            d[at..at + 4].copy_from_slice(&x.to_le_bytes());
            format!("[{at}..]: {old} -> {x}")
        }
        5 => {
            d.truncate(at);
            format!("cut to {at} of {n}")
        }
        6 => {
            let m = s.urange(1, 9).min(n - at);
            d.drain(at..at + m);
            format!("[{at}..{}] removed", at + m)
        }
        _ => {
            let m = s.urange(1, 9);
            let b = s.blob(m);
            d.splice(at..at, b);
            format!("{m} bytes inserted at {at}")
        }
    }
}

fn damaged(s: &mut Src) -> Res {
    let p = gen(s, &Opts { budget: 30, max_exports: 4, kinds: KINDS, ..Default::default() });
    let (mut a, mut b) = (p.asset.clone(), p.bulk.clone());
    let mut what = vec![];
    for _ in 0..1 + s.size(3) {
        match &mut b {
            Some(b) if s.flag() => what.push(format!("bulk {}", dent(s, b))),
            _ => what.push(dent(s, &mut a)),
        }
    }
    if s.chance(1, 30) {
        b = None;
        what.push("no bulk".into());
    }
    s.note(format!("{:?} {:?} damage {what:?}", p.v.engine, p.kinds));
    if !p.exports.is_empty() {
        s.nontrivial();
    }
    let e = p.v.engine;
    let r = match guarded(move || Asset::new(Cursor::new(a), b.map(Cursor::new), e, None)) {
        Ok(r) => r,
        Err((at, m)) => return fail(format!("open: panic {}", norm(&m)), format!("{m} at {at}")),
    };
    match r {
        Ok(r) => {
            s.class("opened");
            let mut c = Cursor::new(vec![]);
            let mut u = r.asset_data.use_event_driven_loader.then(|| Cursor::new(vec![]));
            match guarded(std::panic::AssertUnwindSafe(|| r.write_data(&mut c, u.as_mut()).is_ok())) {
                Ok(ok) => s.class(if ok { "written" } else { "not written" }),
                Err((at, m)) => return fail(format!("write: panic {}", norm(&m)), format!("{m} at {at}")),
            }
        }
        Err(_) => s.class("refused"),
    }
    Ok(())
}

/// the same for asset registries
fn registry(s: &mut Src) -> Res {
    let version = *s.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 5, 6, 7]);
    let flagged = s.flag();
    let (m, engine) = crate::p_registry::generate(s, version.clamp(4, 7), flagged && version >= 7);
    let mut d = m.encode();
    if version != version.clamp(4, 7) {
        // the layout of another version under the number of this one
        d[16..20].copy_from_slice(&(version as i32).to_le_bytes());
    }
    let mut what = vec![];
    for _ in 0..1 + s.size(3) {
        what.push(dent(s, &mut d));
    }
    s.note(format!("version {version} {engine:?} damage {what:?}"));
    s.nontrivial();
    match crate::p_registry::open(&d, engine)? {
        Err(_) => s.class("registry refused"),
        Ok(r) => {
            s.class("registry opened");
            match crate::p_registry::write(&r)? {
                Ok(_) => s.class("registry written"),
                Err(_) => s.class("registry not written"),
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C27",
        rule: "Generated packages of all versions with one to four damages: bytes and 32-bit fields changed, parts cut off, removed or inserted. Non-trivial: the package has exports.",
        assumptions: &["an allocation beyond 6 GB counts as an abort"],
        facets: vec![Facet { name: "damaged", quick: 800_000, thorough: 8_000_000, run: damaged },
            Facet { name: "registry", quick: 800_000, thorough: 4_000_000, run: registry }],
    }]
}
