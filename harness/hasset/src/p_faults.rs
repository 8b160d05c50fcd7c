//! C38: packages and registries on files that transfer short, get interrupted or fail.
use crate::gen_exports::KINDS;
use crate::p_asset;
use crate::pkg::*;
use unreal_asset::Asset;
use unreal_asset_base::containers::{Chain, NameMap};
use unreal_asset_base::engine_version::get_object_versions;
use unreal_asset_base::reader::RawReader;
use unreal_asset_base::types::PackageIndex;
use unreal_asset_registry::AssetRegistryState;
use vkit::faulty::{FaultIo, Op, Plan};
use vkit::*;

fn benign_plan(s: &mut Src) -> Plan {
    Plan { seed: s.draw(1 << 30), chop: *s.pick(&[1usize, 2, 3, 7, 19, 100, 5000]), interrupt: *s.pick(&[0u64, 2, 5, 50]), ..Default::default() }
}
fn package(s: &mut Src) -> Pkg {
    let p = gen(s, &Opts { budget: 20, max_exports: 4, kinds: KINDS, ..Default::default() });
    s.note(format!("{:?} {} exports {:?}, {} + {} bytes", p.v.engine, p.exports.len(), p.kinds, p.asset.len(), p.bulk.as_ref().map_or(0, |b| b.len())));
    p
}
type FA = Asset<FaultIo>;
fn open(p: &Pkg, a: &FaultIo, b: &Option<FaultIo>) -> Result<Result<FA, String>, Fail> {
    match guarded(|| Asset::new(a.clone(), b.clone(), p.v.engine, None).map_err(|e| e.to_string())) {
        Ok(r) => Ok(r),
        Err((at, m)) => fail(format!("open: panic {}", norm(&m)), format!("{m} at {at}")),
    }
}
fn write(x: &FA, a: &mut FaultIo, b: &mut Option<FaultIo>) -> Result<Result<(), String>, Fail> {
    match guarded(std::panic::AssertUnwindSafe(|| x.write_data(a, b.as_mut()).map_err(|e| e.to_string()))) {
        Ok(r) => Ok(r),
        Err((at, m)) => fail(format!("write: panic {}", norm(&m)), format!("{m} at {at}")),
    }
}
fn unchanged(s: &mut Src, p: &Pkg, a: &FaultIo, b: &Option<FaultIo>, sig: &str) -> Res {
    ensure!(s, a.content() == p.asset, format!("{sig}: package"), "the package differs: {}", bytediff(&a.content(), &p.asset));
    let u = b.as_ref().map(|b| b.content());
    ensure!(s, u == p.bulk, format!("{sig}: export data"), "the export data differs: {}", bytediff(&u.unwrap_or_default(), p.bulk.as_deref().unwrap_or_default()));
    Ok(())
}
fn outs(x: &FA, plan: Plan) -> (FaultIo, Option<FaultIo>) {
    (FaultIo::new(vec![], plan), x.asset_data.use_event_driven_loader.then(|| FaultIo::new(vec![], plan)))
}

/// short transfers and interruptions change nothing
fn short(s: &mut Src) -> Res {
    let p = package(s);
    let plan = benign_plan(s);
    s.note(format!("{plan:?}"));
    let a = FaultIo::new(p.asset.clone(), plan);
    let b = p.bulk.clone().map(|b| FaultIo::new(b, plan));
    let x = match open(&p, &a, &b)? {
        Ok(x) => x,
        Err(e) => return fail("short-read: refused", format!("a valid package is refused when read in pieces: {e}")),
    };
    let (mut c, mut u) = outs(&x, plan);
    if let Err(e) = write(&x, &mut c, &mut u)? {
        return fail("short-write: refused", format!("writing in pieces fails: {e}"));
    }
    if a.short() > 0 && c.short() > 0 {
        s.nontrivial();
    }
    p_asset::check_read(s, &p, &x)?;
    unchanged(s, &p, &c, &u, "short")
}
/// a failed read is an error, or at least loses nothing
fn failing_reads(s: &mut Src) -> Res {
    let p = package(s);
    let mut plan = if s.flag() { benign_plan(s) } else { Plan::default() };
    // asking for the position in a file does not fail
    plan.only = Some(Op::Read);
    plan.sticky = s.flag();
    let in_bulk = p.bulk.is_some() && s.flag();
    let files = |on: Plan| {
        let (x, y) = if in_bulk { (Plan::default(), on) } else { (on, Plan::default()) };
        (FaultIo::new(p.asset.clone(), x), p.bulk.clone().map(|b| FaultIo::new(b, y)))
    };
    let (a, b) = files(plan);
    let _ = open(&p, &a, &b)?;
    let ops = if in_bulk { b.as_ref().unwrap().ops() } else { a.ops() };
    plan.fail_op = Some(s.draw(ops.max(1)));
    s.note(format!("{plan:?} in_bulk {in_bulk}"));
    let (a, b) = files(plan);
    let r = open(&p, &a, &b)?;
    let failed = a.failed() + b.as_ref().map_or(0, |b| b.failed());
    if failed > 0 {
        s.nontrivial();
        s.class(if plan.sticky { "sticky" } else { "one-shot" });
    }
    match r {
        Err(e) => {
            ensure!(s, failed > 0, "failing-read: refused", "a valid package is refused with no failed operation: {e}");
            s.class("reported");
        }
        Ok(x) => {
            s.class(if failed > 0 { "survived" } else { "not reached" });
            // files are read on opening only; what was read has to be everything
            let (mut c, mut u) = outs(&x, Plan::default());
            if let Err(e) = write(&x, &mut c, &mut u)? {
                return fail("failing-read: unwritable", format!("opened in spite of a failed read, but cannot be written: {e}"));
            }
            unchanged(s, &p, &c, &u, "failing-read: lost")?;
        }
    }
    Ok(())
}

/// a failed write is an error
fn failing_writes(s: &mut Src) -> Res {
    let p = package(s);
    let (a, b) = (FaultIo::new(p.asset.clone(), Plan::default()), p.bulk.clone().map(|b| FaultIo::new(b, Plan::default())));
    let x = match open(&p, &a, &b)? {
        Ok(x) => x,
        Err(e) => return fail("refused", e),
    };
    let mut plan = if s.flag() { benign_plan(s) } else { Plan::default() };
    let in_bulk = p.bulk.is_some() && s.flag();
    let files = |on: Plan| {
        let (x, y) = if in_bulk { (Plan::default(), on) } else { (on, Plan::default()) };
        (FaultIo::new(vec![], x), p.bulk.as_ref().map(|_| FaultIo::new(vec![], y)))
    };
    if s.flag() {
        let size = if in_bulk { p.bulk.as_ref().unwrap().len() } else { p.asset.len() };
        if size == 0 {
            return Ok(());
        }
        plan.capacity = Some(if s.flag() { s.below(size) } else { size - 1 - s.below(size.min(8)) } as u64);
        s.class("full");
    } else {
        plan.only = Some(Op::Write);
        let (mut c, mut u) = files(plan);
        if let Err(e) = write(&x, &mut c, &mut u)? {
            return fail("short-write: refused", format!("writing in pieces fails: {e}"));
        }
        let ops = if in_bulk { u.as_ref().unwrap().ops() } else { c.ops() };
        if ops == 0 {
            return Ok(());
        }
        plan.fail_op = Some(if s.flag() { s.draw(ops) } else { ops - 1 - s.draw(ops.min(8)) });
        plan.sticky = s.flag();
        s.class("failing");
    }
    s.note(format!("{plan:?} in_bulk {in_bulk}"));
    let (mut c, mut u) = files(plan);
    let r = write(&x, &mut c, &mut u)?;
    let failed = c.failed() + u.as_ref().map_or(0, |b| b.failed());
    if failed > 0 {
        s.nontrivial();
    }
    match r {
        Ok(()) => unchanged(s, &p, &c, &u, "failing-write: unreported")?,
        Err(e) => {
            ensure!(s, failed > 0, "failing-write: refused", "writing fails with no failed operation: {e}");
        }
    }
    // and the package is not spoilt by the attempt
    let (mut c, mut u) = outs(&x, Plan::default());
    if let Err(e) = write(&x, &mut c, &mut u)? {
        return fail("failing-write: spoilt", format!("writing again after a failure: {e}"));
    }
    unchanged(s, &p, &c, &u, "failing-write: spoilt")
}

fn registry(s: &mut Src) -> Res {
    let version = *s.pick(&[4, 5, 6, 7]);
    let (m, engine) = crate::p_registry::generate(s, version, false);
    let d = m.encode();
    let (va, vb) = get_object_versions(engine);
    let mut plan = Plan { only: Some(Op::Read), ..benign_plan(s) };
    let go = |plan: Plan| {
        let io = FaultIo::new(d.clone(), plan);
        let r = guarded(|| {
            let mut r = RawReader::<PackageIndex, _>::new(Chain::new(io.clone(), None), va, vb, false, NameMap::new());
            AssetRegistryState::new(&mut r).map_err(|e| e.to_string())
        });
        (r, io)
    };
    let (r, io) = go(plan);
    let x = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("registry: refused", format!("a valid registry is refused when read in pieces: {e}")),
        Err((at, m)) => return fail(format!("registry: panic {}", norm(&m)), at),
    };
    let again = match crate::p_registry::write(&x)? {
        Ok(w) => w,
        Err(e) => return fail("registry: unwritable", e),
    };
    let whole = match crate::p_registry::open(&d, engine)? {
        Ok(x) => crate::p_registry::write(&x)?,
        Err(e) => return fail("registry: refused", e),
    };
    ensure!(s, Ok(&again) == whole.as_ref(), "registry: pieces", "a registry read in pieces differs from one read whole");
    plan.fail_op = Some(s.draw(io.ops().max(1)));
    plan.sticky = s.flag();
    s.note(format!("version {version}, {} bytes {plan:?}", d.len()));
    let (r, io) = go(plan);
    match r {
        Ok(Ok(x)) => {
            s.class("survived");
            let w = crate::p_registry::write(&x)?;
            ensure!(s, w == whole, "registry: lost", "a registry opened in spite of a failed read is not complete");
        }
        Ok(Err(e)) => {
            ensure!(s, io.failed() > 0, "registry: refused", "{e}");
            s.nontrivial();
        }
        Err((at, m)) => return fail(format!("registry: panic {}", norm(&m)), at),
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C38",
        rule: "Generated packages and registries read from and written to in-memory files that transfer a random number of bytes at a time, are interrupted, fill up or fail at a random operation once or for good. Non-trivial: at least one short transfer or failed operation occurred.",
        assumptions: &["an export that cannot be decoded is kept as raw bytes; this also absorbs a single failed read inside an export and loses nothing"],
        facets: vec![
            Facet { name: "short", quick: 240_000, thorough: 2_400_000, run: short },
            Facet { name: "failing-reads", quick: 240_000, thorough: 2_400_000, run: failing_reads },
            Facet { name: "failing-writes", quick: 240_000, thorough: 2_400_000, run: failing_writes },
            Facet { name: "registry", quick: 240_000, thorough: 2_400_000, run: registry },
        ],
    }]
}
