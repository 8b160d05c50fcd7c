//! C37: archives on files that transfer short, get interrupted or fail.
use crate::p_pak::{gen_block, gen_data, gen_name, WRITABLE};
use crate::pak_ref::parse;
use std::collections::BTreeMap;
use std::io::{BufReader, BufWriter, Cursor, Read, Seek, Write};
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader, PakWriter};
use vkit::faulty::{FaultIo, Op, Plan};
use vkit::*;

struct Archive {
    num: u32,
    ver: PakVersion,
    block: u32,
    entries: Vec<(String, Vec<u8>, bool)>,
}

fn gen_archive(s: &mut Src) -> Archive {
    let (num, ver) = *s.pick(&WRITABLE);
    let block = gen_block(s);
    let mut entries: Vec<(String, Vec<u8>, bool)> = vec![];
    for _ in 0..1 + s.size(6) {
        let name = gen_name(s);
        if entries.iter().any(|e| e.0 == name) {
            continue;
        }
        let len = match s.draw(4) {
            0 => s.below(40),
            1 => s.below(9000),
            2 if block > 200 => s.below(40_000),
            _ => s.below(600),
        };
        let data = gen_data(s, len);
        let compress = num >= 3 && s.flag();
        entries.push((name, data, compress));
    }
    Archive { num, ver, block, entries }
}

fn writer<W: Write + Seek>(a: &Archive, w: W) -> PakWriter<W> {
    let mut p = PakWriter::new(w, a.ver);
    p.block_size = a.block;
    p
}

fn memory(a: &Archive) -> PakMemory {
    let mut m = PakMemory::new(a.ver);
    m.block_size = a.block;
    for (n, d, _) in &a.entries {
        m.set_entry(n.clone(), d.clone());
    }
    m
}

fn reference(a: &Archive) -> Result<Vec<u8>, Fail> {
    let io = FaultIo::new(vec![], Plan::default());
    let mut w = writer(a, io.clone());
    for (n, d, c) in &a.entries {
        if let Err(e) = w.write_entry(n, d, *c) {
            return fail("write-error", format!("{e}"));
        }
    }
    match w.finish_write() {
        Ok(_) => Ok(io.content()),
        Err(e) => fail("finish-error", format!("{e}")),
    }
}

fn describe(s: &mut Src, a: &Archive, p: &Plan) {
    s.note(format!("v{} block={} {:?} {p:?}", a.num, a.block, a.entries.iter().map(|e| (clip(&e.0), e.1.len(), e.2)).collect::<Vec<_>>()));
    s.class(format!("v{}", a.num));
}

pub fn benign_plan(s: &mut Src) -> Plan {
    Plan { seed: s.draw(1 << 30), chop: *s.pick(&[1usize, 2, 3, 7, 19, 100, 5000]), interrupt: *s.pick(&[0u64, 2, 5, 50]), ..Default::default() }
}

/// short transfers and interruptions change nothing
fn short(s: &mut Src) -> Res {
    let a = gen_archive(s);
    let plan = benign_plan(s);
    describe(s, &a, &plan);
    let want = reference(&a)?;
    let io = FaultIo::new(vec![], plan);
    let buffered = s.flag();
    let r = guarded(|| {
        fn go<W: Write + Seek>(a: &Archive, w: W) -> Result<(), String> {
            let mut w = writer(a, w);
            for (n, d, c) in &a.entries {
                w.write_entry(n, d, *c).map_err(|e| e.to_string())?;
            }
            w.finish_write().map_err(|e| e.to_string())
        }
        if buffered {
            go(&a, BufWriter::with_capacity(64, io.clone()))
        } else {
            go(&a, io.clone())
        }
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail("short-write-refused", format!("short writes made writing fail: {e}")),
        Err((_, m)) => return fail("short-write-panic", m),
    }
    if io.short() > 0 {
        s.nontrivial();
    }
    ensure!(s, io.content() == want, "short-write-bytes", "short writes change the archive: {}", bytediff(&io.content(), &want));
    // in memory
    let m = memory(&a);
    let mut plain = Cursor::new(vec![]);
    if let Err(e) = m.write(&mut plain) {
        return fail("memory-write", format!("{e}"));
    }
    let io = FaultIo::new(vec![], plan);
    if let Err(e) = m.write(&mut io.clone()) {
        return fail("short-memory-write", format!("short writes made writing fail: {e}"));
    }
    ensure!(s, &io.content() == plain.get_ref(), "short-memory-bytes", "short writes change the archive");
    // reading
    let io = FaultIo::new(want.clone(), plan);
    let mut r = PakReader::new(io.clone());
    if let Err(e) = r.load_index() {
        return fail("short-read-index", format!("short reads made load_index fail: {e}"));
    }
    ensure_eq!(s, r.get_entry_names().len(), a.entries.len(), "short-read-names", "entries found through short reads");
    for (n, d, _) in &a.entries {
        match r.read_entry(n) {
            Ok(g) => {
                ensure!(s, &g == d, "short-read-data", "entry {n:?} through short reads: {}", bytediff(&g, d));
            }
            Err(e) => return fail("short-read-entry", format!("read_entry({n:?}) through short reads: {e}")),
        }
    }
    match PakMemory::load_from(&mut FaultIo::new(want.clone(), plan)) {
        Ok(m) => {
            for (n, d, _) in &a.entries {
                ensure!(s, m.get_entry(n) == Some(d), "short-load-data", "entry {n:?} loaded through short reads differs");
            }
        }
        Err(e) => return fail("short-load", format!("load_from through short reads: {e}")),
    }
    Ok(())
}

/// a full or failing disk is reported by some call
fn full(s: &mut Src) -> Res {
    let a = gen_archive(s);
    let want = reference(&a)?;
    let mut plan = if s.flag() { benign_plan(s) } else { Plan::default() };
    let kind = s.draw(3);
    match kind {
        0 => plan.capacity = Some(s.below(want.len()) as u64),
        1 => {
            // anywhere, most likely near the end
            let n = if s.flag() { s.below(12) as u64 } else { s.below(400) as u64 };
            let probe = FaultIo::new(vec![], Plan { fail_op: None, only: Some(Op::Write), ..plan });
            let mut w = writer(&a, probe.clone());
            for (n, d, c) in &a.entries {
                let _ = w.write_entry(n, d, *c);
            }
            let _ = w.finish_write();
            plan.only = Some(Op::Write);
            plan.fail_op = Some(probe.ops().saturating_sub(1 + n));
            plan.sticky = true;
        }
        _ => plan.flush = true,
    }
    describe(s, &a, &plan);
    let io = FaultIo::new(vec![], plan);
    let buf = if kind == 1 { 0 } else { *s.pick(&[0usize, 16, 1000, 8192, 1 << 20]) };
    s.class(if buf > 0 { "buffered" } else { "direct" });
    s.class(["full", "failing", "flush"][kind as usize]);
    let r = guarded(|| {
        fn go<W: Write + Seek>(a: &Archive, w: W) -> bool {
            let mut w = writer(a, w);
            let mut ok = true;
            for (n, d, c) in &a.entries {
                ok &= w.write_entry(n, d, *c).is_ok();
            }
            ok & w.finish_write().is_ok()
        }
        if buf > 0 {
            go(&a, BufWriter::with_capacity(buf, io.clone()))
        } else {
            go(&a, io.clone())
        }
    });
    let ok = match r {
        Ok(ok) => ok,
        Err((_, m)) => return fail("full-panic", format!("panicked on a failing disk: {m}")),
    };
    s.nontrivial();
    // a flush that was never asked for cannot fail
    let lost = io.failed() > 0 || io.content() != want;
    ensure!(s, !ok || !lost, "full-unreported", "every call reported success although the file could not be written: {} of {} bytes arrived", io.content().len(), want.len());
    // in memory
    let m = memory(&a);
    let mut plain = Cursor::new(vec![]);
    if m.write(&mut plain).is_ok() && kind != 2 {
        let total = plain.get_ref().len() as u64;
        let cap = s.below(total as usize) as u64;
        let mut io = FaultIo::new(vec![], Plan { capacity: Some(cap), ..plan });
        match guarded(|| m.write(&mut io).is_ok()) {
            Ok(ok) => {
                ensure!(s, !ok, "full-memory-unreported", "PakMemory::write reported success with {cap} of {total} bytes");
            }
            Err((_, m)) => return fail("full-memory-panic", m),
        }
    }
    Ok(())
}

/// after one failed operation, the calls that succeed are in the archive and the others are not
fn resume(s: &mut Src) -> Res {
    let a = gen_archive(s);
    let only = *s.pick(&[None, Some(Op::Write), Some(Op::Seek)]);
    let mut plan = if s.flag() { benign_plan(s) } else { Plan::default() };
    plan.only = only;
    let bound = if only == Some(Op::Seek) { a.entries.len() + 1 } else { 60 };
    plan.fail_op = Some(s.below(bound) as u64);
    describe(s, &a, &plan);
    let io = FaultIo::new(vec![], plan);
    let retry = s.flag();
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut w = writer(&a, io.clone());
    let mut failures = 0u64;
    for (n, d, c) in &a.entries {
        let before = io.failed();
        match guarded(|| w.write_entry(n, d, *c).is_ok()) {
            Ok(true) => {
                ensure_eq!(s, io.failed(), before, "resume-swallowed", "a failed operation was reported as success for {n:?}");
                want.insert(n.clone(), d.clone());
            }
            Ok(false) => {
                failures += 1;
                if retry {
                    match w.write_entry(n, d, *c) {
                        Ok(_) => {
                            want.insert(n.clone(), d.clone());
                        }
                        Err(e) => return fail("resume-retry", format!("writing {n:?} again after a failure: {e}")),
                    }
                }
            }
            Err((_, m)) => return fail("resume-panic", m),
        }
    }
    let mut names: Vec<String> = w.get_entry_names().into_iter().cloned().collect();
    names.sort();
    ensure_eq!(s, names, want.keys().cloned().collect::<Vec<_>>(), "resume-names", "entries of the writer after a failed write");
    let before = io.failed();
    match guarded(|| w.finish_write().is_ok()) {
        Ok(ok) => {
            ensure_eq!(s, ok, io.failed() == before, "resume-finish", "finish_write result (failures during it: {})", io.failed() - before);
            if !ok {
                s.class("failed-at-finish");
                return Ok(());
            }
        }
        Err((_, m)) => return fail("resume-panic", m),
    }
    if failures > 0 {
        s.nontrivial();
        s.class(if retry { "retried" } else { "dropped" });
    }
    let bytes = io.content();
    let p = match parse(&bytes, a.num) {
        Ok(p) => p,
        Err(e) => return fail("resume-format", format!("the archive finished after a failed write breaks the format: {e}")),
    };
    let got: BTreeMap<String, Vec<u8>> = p.entries.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
    ensure!(s, got == want, "resume-data", "the archive finished after a failed write holds other data");
    Ok(())
}

/// reads that fail are errors, and reads that succeed are right
fn failing_reads(s: &mut Src) -> Res {
    let a = gen_archive(s);
    let bytes = reference(&a)?;
    let want: BTreeMap<&String, &Vec<u8>> = a.entries.iter().map(|e| (&e.0, &e.1)).collect();
    let mut plan = if s.flag() { benign_plan(s) } else { Plan::default() };
    plan.only = *s.pick(&[None, Some(Op::Read), Some(Op::Seek)]);
    plan.sticky = s.flag();
    let buf = *s.pick(&[0usize, 32, 8192]);
    let memory = s.chance(1, 3);
    // how many operations are there?
    fn run<R: Read + Seek>(r: R, want: &BTreeMap<&String, &Vec<u8>>, memory: bool, io: &FaultIo, iter: bool) -> Result<(u64, u64), (String, String)> {
        let mut errors = 0;
        let mut oks = 0;
        if memory {
            let mut r = r;
            match PakMemory::load_from(&mut r) {
                Ok(m) => {
                    oks += 1;
                    if io.failed() > 0 {
                        return Err(("load-swallowed".into(), "load_from succeeded although an operation failed".into()));
                    }
                    if m.get_entry_names().len() != want.len() || want.iter().any(|(n, d)| m.get_entry(n) != Some(*d)) {
                        return Err(("load-wrong".into(), "load_from succeeded with wrong data".into()));
                    }
                }
                Err(_) => errors += 1,
            }
            return Ok((oks, errors));
        }
        let mut r = PakReader::new(r);
        let mut loaded = false;
        for _ in 0..2 {
            let before = io.failed();
            match r.load_index() {
                Ok(_) => {
                    if io.failed() != before {
                        return Err(("index-swallowed".into(), "load_index succeeded although an operation failed".into()));
                    }
                    loaded = true;
                    break;
                }
                Err(e) => {
                    errors += 1;
                    if io.failed() == before {
                        return Err(("index-refused".into(), format!("load_index failed with no failed operation: {e}")));
                    }
                }
            }
        }
        if !loaded {
            return Ok((oks, errors));
        }
        if r.get_entry_names().len() != want.len() {
            return Err(("index-wrong".into(), format!("{} of {} entries found", r.get_entry_names().len(), want.len())));
        }
        let check = |n: &String, got: Result<Vec<u8>, String>, faults: u64| -> Result<bool, (String, String)> {
            match got {
                Ok(d) => {
                    if faults > 0 {
                        return Err(("read-swallowed".into(), format!("reading {n:?} succeeded although an operation failed")));
                    }
                    if want.get(n) != Some(&&d) {
                        return Err(("read-wrong".into(), format!("reading {n:?} succeeded with wrong data")));
                    }
                    Ok(true)
                }
                Err(e) => {
                    if faults == 0 {
                        return Err(("read-refused".into(), format!("reading {n:?} failed with no failed operation: {e}")));
                    }
                    Ok(false)
                }
            }
        };
        if iter {
            let mut before = io.failed();
            for (n, d) in r.iter() {
                let now = io.failed();
                if check(n, d.map_err(|e| e.to_string()), now - before)? {
                    oks += 1;
                } else {
                    errors += 1;
                }
                before = now;
            }
        }
        for n in want.keys() {
            for _ in 0..2 {
                let before = io.failed();
                let got = r.read_entry(n).map_err(|e| e.to_string());
                if check(n, got, io.failed() - before)? {
                    oks += 1;
                    break;
                }
                errors += 1;
            }
        }
        Ok((oks, errors))
    }
    let iter = s.flag();
    let go = |plan: Plan| {
        let io = FaultIo::new(bytes.clone(), plan);
        let r = guarded(|| match buf {
            0 => run(io.clone(), &want, memory, &io, iter),
            n => run(BufReader::with_capacity(n, io.clone()), &want, memory, &io, iter),
        });
        (r, io)
    };
    let (_, probe) = go(plan);
    let total = probe.ops().max(1);
    plan.fail_op = Some(s.draw(total));
    describe(s, &a, &plan);
    let (r, io) = go(plan);
    s.checks += 1;
    match r {
        Ok(Ok((_, errors))) => {
            if io.failed() > 0 {
                s.nontrivial();
                s.class(if plan.sticky { "sticky" } else { "one-shot" });
                ensure!(s, errors > 0, "read-unreported", "no call reported the failed operation");
            }
        }
        Ok(Err((sig, m))) => return fail(sig, m),
        Err((_, m)) => return fail("failing-read-panic", format!("panicked on a failing read: {m}")),
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C37",
        rule: "Random archives written to and read from an in-memory file that transfers a random number of bytes at a time, is interrupted, fills up, fails at a random operation (once or for good) or cannot be flushed, directly or behind the standard buffered reader/writer. Non-trivial: at least one short transfer or failed operation occurred.",
        assumptions: &["BufReader and BufWriter of the standard library are trusted"],
        facets: vec![
            Facet { name: "short", quick: 40_000, thorough: 500_000, run: short },
            Facet { name: "full", quick: 40_000, thorough: 500_000, run: full },
            Facet { name: "resume", quick: 40_000, thorough: 500_000, run: resume },
            Facet { name: "failing-reads", quick: 60_000, thorough: 600_000, run: failing_reads },
        ],
    }]
}
