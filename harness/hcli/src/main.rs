//! The command line tool, run as a process in scratch directories.
use std::collections::BTreeMap;
use std::fs;
use std::io::Cursor;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use unreal_pak::{pakversion::PakVersion, PakReader, PakWriter};
use vkit::*;

type Tree = BTreeMap<String, Vec<u8>>;

/// A scratch directory that is removed when the case ends. Work happens a few levels below its root, so
/// that names with a few `..` in them still end up inside it.
struct Scratch {
    root: PathBuf,
    dir: PathBuf,
}
static COUNT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let root = base.join(format!("hcli.{}.{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
        fs::remove_dir_all(&root).ok();
        let dir = root.join("l1/l2/l3/l4/work");
        fs::create_dir_all(&dir).expect("scratch directory");
        Scratch { root, dir }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.root).ok();
    }
}

fn put(dir: &Path, t: &Tree) {
    for (n, d) in t {
        let p = dir.join(n);
        fs::create_dir_all(p.parent().unwrap()).expect("create directories");
        fs::write(p, d).expect("write a file");
    }
}
/// all regular files below a directory, by relative path
fn get(dir: &Path) -> Tree {
    fn go(d: &Path, pre: &str, out: &mut Tree) {
        let Ok(r) = fs::read_dir(d) else { return };
        for e in r.flatten() {
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                go(&e.path(), &format!("{n}/"), out);
            } else {
                out.insert(n, fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut out = Tree::new();
    go(dir, "", &mut out);
    out
}

struct Out {
    code: Option<i32>,
    err: String,
}
extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
fn cli(cwd: &Path, drop_to: Option<u32>, args: &[&str]) -> Out {
    cli_limited(cwd, drop_to, args, None)
}
fn cli_limited(cwd: &Path, drop_to: Option<u32>, args: &[&str], file_size: Option<u64>) -> Out {
    let exe = std::env::current_exe().unwrap().with_file_name("unreal_pak_cli");
    let mut c = Command::new(exe);
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).env_remove("RUST_BACKTRACE");
    if let Some(u) = drop_to {
        c.uid(u).gid(u);
    }
    if let Some(n) = file_size {
        unsafe {
            c.pre_exec(move || {
                signal(25, 1); // SIGXFSZ: have the write fail instead
                setrlimit(1, &[n, n]); // RLIMIT_FSIZE
                Ok(())
            });
        }
    }
    let o = c.output().expect("run the tool");
    Out { code: o.status.code(), err: String::from_utf8_lossy(&o.stderr).trim().to_string() }
}

fn component(s: &mut Src) -> String {
    match s.below(6) {
        0 => s.pick(&["a", "b", "c"]).to_string(),
        1 => format!("{}.{}", s.ascii_ident(4), s.pick(&["uasset", "uexp", "pak", "", "json"])),
        2 => format!(".{}", s.ascii_ident(4)),
        3 => format!("{} {}", s.ascii_ident(3), s.ascii_ident(3)),
        4 => format!("{}{}", s.pick(&["é", "日本", "ß", "🎮", "-", "--x", "~", "$a", "%"]), s.ascii_ident(3)),
        _ => s.ascii_ident(8),
    }
}
fn content(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[2, 10, 3, 2, 1]) {
        0 => vec![],
        1 => {
            let n = s.size(400);
            s.blob(n)
        }
        2 => vec![s.byte(); s.urange(9000, 30000)],
        3 => {
            let n = s.urange(1, 64);
            let b = s.blob(n);
            (0..s.urange(1000, 3000)).flat_map(|_| b.clone()).collect()
        }
        _ => {
            let n = 65534 + s.below(5);
            let m = s.urange(1, 255);
            (0..n).map(|k| (k * m / 7 % 251) as u8).collect()
        }
    }
}
/// a set of files whose paths do not clash with each other
fn tree(s: &mut Src, max: usize) -> Tree {
    let mut t = Tree::new();
    for _ in 0..s.size(max) {
        let depth = s.weighted(&[5, 4, 2, 1]);
        let mut n = String::new();
        // sometimes next to one that is there
        if !t.is_empty() && s.chance(1, 2) {
            let k = s.below(t.len());
            let other = t.keys().nth(k).unwrap().clone();
            if let Some(i) = other.rfind('/') {
                n = other[..=i].to_string();
            }
        }
        for _ in 0..depth {
            n += &component(s);
            n.push('/');
        }
        n += &component(s);
        // directories and files must not have one name
        let clash = t.keys().any(|o| *o == n || o.starts_with(&format!("{n}/")) || n.starts_with(&format!("{o}/")));
        // nor "." or ".." be components
        let odd = n.split('/').any(|c| c.is_empty() || c == "." || c == "..");
        if !clash && !odd {
            let d = content(s);
            t.insert(n, d);
        }
    }
    t
}
fn names(t: &Tree) -> Vec<(&str, usize)> {
    t.iter().map(|(n, d)| (n.as_str(), d.len())).collect()
}
fn same(s: &mut Src, got: &Tree, want: &Tree, sig: &str) -> Res {
    let g: Vec<_> = got.keys().collect();
    let w: Vec<_> = want.keys().collect();
    ensure_eq!(s, g, w, sig, "{sig}: the files");
    for (n, d) in want {
        if got[n] != *d {
            return fail(format!("{sig}: content"), format!("{n}: {}", bytediff(&got[n], d)));
        }
    }
    Ok(())
}
fn ran(s: &mut Src, o: &Out, what: &str) -> Res {
    ensure_eq!(s, o.code, Some(0), format!("{what}: exit"), "{what} failed: {}", clip(&o.err));
    Ok(())
}
fn under(pre: &str, t: &Tree) -> Tree {
    t.iter().map(|(n, d)| (format!("{pre}{n}"), d.clone())).collect()
}

// -------------------------------------------------------------------------------------- round trips

fn trees(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let w = sc.dir.clone();
    let t = tree(s, 8);
    let plain = s.flag();
    // the input directory, and how it is named
    let dirname = s.pick(&["in", "my mod", "mod.v1", "日本", "in.pak"]).to_string();
    put(&w.join(&dirname), &t);
    fs::create_dir_all(w.join(&dirname)).unwrap();
    if s.chance(1, 4) {
        fs::create_dir_all(w.join(&dirname).join("empty/dir")).unwrap();
    }
    let (cwd, inarg) = match s.below(6) {
        0 => (w.clone(), dirname.clone()),
        1 => (w.clone(), format!("./{dirname}")),
        2 => (w.clone(), format!("{dirname}/")),
        3 => (w.join(&dirname), ".".to_string()),
        4 => (w.clone(), format!("{dirname}/../{dirname}")),
        _ => (w.clone(), w.join(&dirname).to_string_lossy().into_owned()),
    };
    let pak = match s.below(4) {
        0 | 1 => None,
        2 => Some(w.join("x.pak")),
        _ => Some(w.join("sub.dir.pak")),
    };
    let pakpath = pak.clone().unwrap_or_else(|| w.join(format!("{dirname}.pak")));
    let stale = s.flag();
    if stale {
        let n = s.urange(0, 5000);
        let d = s.blob(n);
        fs::write(&pakpath, d).unwrap();
    }
    s.note(format!("{} files {:?} in {inarg:?} pak {pak:?} plain {plain} stale {stale}", t.len(), names(&t)));
    if t.len() >= 2 && t.keys().any(|n| n.contains('/')) {
        s.nontrivial();
    }
    s.class(format!("{} files", t.len().min(4)));
    let mut args = vec!["create".to_string(), inarg.clone()];
    if let Some(p) = &pak {
        args.push(if cwd == w && s.flag() { p.file_name().unwrap().to_string_lossy().into_owned() } else { p.to_string_lossy().into_owned() });
    }
    if plain {
        args.insert(1 + s.below(args.len()), s.pick(&["-n", "--no-compression"]).to_string());
    }
    let o = cli(&cwd, None, &args.iter().map(|a| a.as_str()).collect::<Vec<_>>());
    ran(s, &o, "create")?;
    // the input is as it was, and only the pak has been added
    let bytes = match fs::read(&pakpath) {
        Ok(b) => b,
        Err(_) => return fail("create: no pak", format!("{pakpath:?} is not there; there are {:?}", get(&w).keys())),
    };
    let pakname = pakpath.file_name().unwrap().to_string_lossy().into_owned();
    let mut all = under(&format!("{dirname}/"), &t);
    all.insert(pakname.clone(), bytes.clone());
    same(s, &get(&w), &all, "create: directory")?;
    // what the archive holds
    let held = match read(&bytes) {
        Ok(h) => h,
        Err(e) => return fail("create: unreadable", e),
    };
    same(s, &held, &t, "create: archive")?;
    let total: usize = t.values().map(|d| d.len()).sum();
    if plain {
        ensure!(s, bytes.len() > total, "create: compressed", "{} bytes of content in a pak of {} bytes without compression", total, bytes.len());
    }
    let flat = t.values().filter(|d| d.len() > 8000 && d.iter().all(|b| *b == d[0])).map(|d| d.len()).sum::<usize>();
    if !plain && flat > 0 {
        ensure!(s, bytes.len() < total - flat / 2 + 1000 * (t.len() + 1), "create: uncompressed", "{} of {} bytes are one value but the pak has {} bytes", flat, total, bytes.len());
    }
    for c in ["check", "check-header"] {
        let o = cli(&w, None, &[c, &pakname]);
        ran(s, &o, c)?;
    }
    same(s, &get(&w), &all, "check: directory")?;
    // extract it
    let stem = Path::new(&pakname).file_stem().unwrap().to_string_lossy().into_owned();
    let explicit = s.chance(2, 3);
    let outname = if explicit { s.pick(&["out", "out/deep/er", "in", "my mod"]).to_string() } else { stem };
    let outdir = w.join(&outname);
    if outdir.is_file() {
        return Ok(());
    }
    let mut want = all.clone();
    if s.flag() {
        // files that are there already, some under the names of the pak
        let mut old = tree(s, 3);
        for n in t.keys() {
            if s.chance(1, 3) {
                let d = content(s);
                old.insert(n.clone(), d);
            }
        }
        old.retain(|n, _| !want.keys().chain(t.keys().map(|k| k).collect::<Vec<_>>()).any(|o| {
            let o = o.strip_prefix(&format!("{outname}/")).unwrap_or(o);
            o.starts_with(&format!("{n}/")) || n.starts_with(&format!("{o}/"))
        }));
        put(&outdir, &old);
        want.extend(under(&format!("{outname}/"), &old));
    }
    want.extend(under(&format!("{outname}/"), &t));
    let (cwd, pakarg) = match s.below(3) {
        0 => (w.clone(), pakname.clone()),
        1 => (w.clone(), format!("./{pakname}")),
        _ => (sc.root.clone(), pakpath.to_string_lossy().into_owned()),
    };
    let mut args = vec!["extract".to_string(), pakarg];
    if explicit {
        args.push(if cwd == w && s.flag() { outname.clone() } else { outdir.to_string_lossy().into_owned() });
    }
    s.note(format!("{args:?}"));
    let o = cli(&cwd, None, &args.iter().map(|a| a.as_str()).collect::<Vec<_>>());
    ran(s, &o, "extract")?;
    same(s, &get(&w), &want, "extract: directory")?;
    same(s, &get(&sc.root), &under("l1/l2/l3/l4/work/", &want), "extract: elsewhere")
}

fn read(bytes: &[u8]) -> Result<Tree, String> {
    match guarded(|| {
        let mut p = PakReader::new(Cursor::new(bytes));
        p.load_index().map_err(|e| format!("header: {e}"))?;
        let mut t = Tree::new();
        for (n, d) in p.iter() {
            t.insert(n.clone(), d.map_err(|e| format!("{n}: {e}"))?);
        }
        Ok(t)
    }) {
        Ok(r) => r,
        Err((at, m)) => Err(format!("panic {m} in {at}")),
    }
}

fn archive(s: &mut Src, t: &[(String, Vec<u8>)]) -> Vec<u8> {
    let v = *s.pick(&[
        PakVersion::FnameBasedCompressionMethod,
        PakVersion::FrozenIndex,
        PakVersion::RelativeChunkOffsets,
        PakVersion::IndexEncryption,
        PakVersion::EncryptionKeyGuid,
        PakVersion::CompressionEncryption,
    ]);
    let mut out = Cursor::new(vec![]);
    let mut p = PakWriter::new(&mut out, v);
    for (n, d) in t {
        let z = s.flag();
        p.write_entry(n, d, z).expect("write an entry");
    }
    p.finish_write().expect("finish a pak");
    out.into_inner()
}

// -------------------------------------------------------------------------------------- full disks

/// no file may grow beyond a limit: the tool says so or does all of its work
fn full(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let w = sc.dir.clone();
    let t = tree(s, 6);
    let plain = s.flag();
    put(&w.join("in"), &t);
    fs::create_dir_all(w.join("in")).unwrap();
    let mut args = vec!["create", "in", "x.pak"];
    if plain {
        args.push("-n");
    }
    let o = cli(&w, None, &args);
    ran(s, &o, "create")?;
    let size = fs::metadata(w.join("x.pak")).map(|m| m.len()).unwrap_or(0);
    let biggest = t.values().map(|d| d.len()).max().unwrap_or(0) as u64;
    let extract = s.flag() && biggest > 0;
    let top = if extract { biggest } else { size };
    let limit = match s.below(3) {
        0 => top.saturating_sub(1 + s.size(400) as u64),
        1 => s.draw(top.max(1)),
        _ => top,
    };
    s.class(if extract { "extract" } else { "create" });
    s.class(if limit < top { "does not fit" } else { "fits" });
    s.note(format!("{} files {:?} plain {plain} extract {extract} limit {limit} of {top}", t.len(), names(&t)));
    if limit < top {
        s.nontrivial();
    }
    let o = if extract {
        cli_limited(&w, None, &["extract", "x.pak", "out"], Some(limit))
    } else {
        args[2] = "y.pak";
        cli_limited(&w, None, &args, Some(limit))
    };
    if limit >= top {
        ran(s, &o, "within the limit")?;
    }
    ensure!(s, o.code.is_some(), "full: killed", "the tool was killed");
    if o.code != Some(0) {
        return Ok(());
    }
    if extract {
        return same(s, &get(&w.join("out")), &t, "full: extract reports success");
    }
    match read(&fs::read(w.join("y.pak")).unwrap_or_default()) {
        Ok(h) => same(s, &h, &t, "full: create reports success"),
        Err(e) => fail("full: create reports success", format!("exit code 0 but the pak is unreadable: {e}")),
    }
}

// ------------------------------------------------------------------------------------------ damage

fn damaged(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let w = sc.dir.clone();
    let t = tree(s, 4);
    let mut bytes = archive(s, &t.iter().map(|(n, d)| (n.clone(), d.clone())).collect::<Vec<_>>());
    let what = match s.below(8) {
        0 => "nothing".to_string(),
        1 => {
            let n = s.below(bytes.len() + 1);
            bytes.truncate(n);
            format!("cut to {n}")
        }
        2 => {
            let n = s.urange(1, 300);
            bytes.extend(vec![0; n]);
            format!("{n} bytes added")
        }
        _ => {
            let n = 1 + s.size(3);
            let mut m = vec![];
            for _ in 0..n {
                if bytes.is_empty() {
                    break;
                }
                // the index and footer half of the time
                let from = if s.flag() { bytes.len().saturating_sub(400) } else { 0 };
                let k = from + s.below(bytes.len() - from);
                let b = s.u8v();
                m.push((k, bytes[k], b));
                bytes[k] = b;
            }
            format!("{m:?}")
        }
    };
    let name = s.pick(&["x.pak", "x", "x.y.pak"]).to_string();
    fs::write(w.join(&name), &bytes).unwrap();
    s.note(format!("{:?} damage: {what}", names(&t)));
    let expect = read(&bytes);
    let header = !matches!(&expect, Err(e) if e.starts_with("header: "));
    if !t.is_empty() && what != "nothing" {
        s.nontrivial();
    }
    s.class(match &expect {
        Ok(_) => "readable",
        Err(_) if header => "entries unreadable",
        _ => "header unreadable",
    });
    if matches!(&expect, Err(e) if e.starts_with("panic")) {
        return Ok(()); // the reader's fault, see C05
    }
    let o = cli(&w, None, &["check-header", &name]);
    ensure_eq!(s, o.code, Some(if header { 0 } else { 1 }), "check-header: exit", "check-header: {} but reading gives {:?}", clip(&o.err), expect.as_ref().err());
    let o = cli(&w, None, &["check", &name]);
    ensure_eq!(s, o.code, Some(if expect.is_ok() { 0 } else { 1 }), "check: exit", "check: {} but reading gives {:?}", clip(&o.err), expect.as_ref().err());
    same(s, &get(&w), &Tree::from([(name.clone(), bytes.clone())]), "check: directory")?;
    // names may be damaged too, so this runs without privileges and only ever below the scratch root
    let owned = own(&sc);
    let o = cli(&w, owned, &["extract", &name, "out"]);
    ensure!(s, matches!(o.code, Some(0 | 1)), "extract: crash", "extract ended with {:?}: {}", o.code, clip(&o.err));
    match &expect {
        Ok(t) if o.code == Some(0) => {
            // names that have no file of their own are left out of the comparison
            let odd = t.keys().any(|n| n.split('/').any(|c| c.is_empty() || c == "." || c == ".."));
            if !odd {
                same(s, &get(&w.join("out")), t, "extract: files")?;
            }
        }
        Ok(t) => {
            let usual = t.keys().all(|n| n.split('/').all(|c| !c.is_empty() && c != "." && c != ".." && !c.contains('\0') && c.len() < 200) && !t.keys().any(|o| o.starts_with(&format!("{n}/"))));
            ensure!(s, !usual, "extract: exit", "extract failed on a readable pak: {}", clip(&o.err));
        }
        Err(e) => {
            ensure_eq!(s, o.code, Some(1), "extract: exit", "extract reports success but reading gives {e:?}");
        }
    }
    let rest: Vec<String> = get(&sc.root).into_keys().filter(|n| !n.starts_with("l1/l2/l3/l4/work/out/")).collect();
    ensure_eq!(s, rest, vec![format!("l1/l2/l3/l4/work/{name}")], "extract: elsewhere", "files outside of the output directory");
    Ok(())
}

/// hand the scratch directory to an unprivileged user, whom the tool then runs as
fn own(sc: &Scratch) -> Option<u32> {
    fn go(p: &Path) -> std::io::Result<()> {
        std::os::unix::fs::chown(p, Some(65534), Some(65534))?;
        if p.is_dir() {
            for e in fs::read_dir(p)?.flatten() {
                go(&e.path())?;
            }
        }
        Ok(())
    }
    match go(&sc.root) {
        Ok(()) => Some(65534),
        Err(_) => None,
    }
}

// ------------------------------------------------------------------------------------- containment

fn contained(s: &mut Src) -> Res {
    let sc = Scratch::new();
    let w = sc.dir.clone();
    let mut entries: Vec<(String, Vec<u8>)> = vec![];
    let n = 1 + s.size(4);
    let mut hostile = false;
    for _ in 0..n {
        let mut up = 0;
        let name = match s.below(8) {
            0 => component(s),
            1 => format!("{}/{}", component(s), component(s)),
            2 => {
                up = s.urange(1, 3);
                format!("{}{}", "../".repeat(up), component(s))
            }
            3 => {
                up = 2;
                format!("{}/../../{}", component(s), component(s))
            }
            4 => {
                up = 1;
                format!("{}/{}", w.join("abs").display(), component(s))
            }
            5 => {
                up = 1;
                let d = component(s);
                format!("{d}/{d}/../../../{}", component(s))
            }
            6 => format!("./{}", component(s)),
            _ => {
                let c = component(s);
                match s.below(5) {
                    0 => format!("{c}//{c}x"),
                    1 => format!("{c}/../{c}y"),
                    2 => format!("{c}/"),
                    3 => "..".to_string(),
                    _ => String::new(),
                }
            }
        };
        hostile |= up > 0;
        let d = s.blob(8);
        if entries.iter().all(|e| e.0 != name) {
            entries.push((name, d));
        }
    }
    let bytes = archive(s, &entries);
    fs::write(w.join("x.pak"), &bytes).unwrap();
    // something to overwrite outside
    for f in ["../victim", "a", "b", "c"] {
        fs::write(w.join(f), b"mine").unwrap();
    }
    let before = get(&sc.root);
    s.note(format!("{:?}", entries.iter().map(|e| &e.0).collect::<Vec<_>>()));
    if hostile {
        s.nontrivial();
    }
    s.class(if hostile { "leaves the directory" } else { "stays" });
    let owned = own(&sc);
    let out = s.pick(&["out", "x/y"]).to_string();
    let explicit = s.chance(3, 4);
    let out = if explicit { out } else { "x".to_string() };
    let args: Vec<&str> = if explicit { vec!["extract", "x.pak", &out] } else { vec!["extract", "x.pak"] };
    let o = cli(&w, owned, &args);
    ensure!(s, matches!(o.code, Some(0 | 1)), "extract: crash", "extract ended with {:?}: {}", o.code, clip(&o.err));
    let pre = format!("l1/l2/l3/l4/work/{out}/");
    let after: Tree = get(&sc.root).into_iter().filter(|(n, _)| !n.starts_with(&pre)).collect();
    same(s, &after, &before, "extract: outside of the output directory")?;
    if hostile {
        ensure_eq!(s, o.code, Some(1), "extract: silent", "a name that leaves the output directory is not reported");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- refusals

/// Something on the disk is in the way: it is reported, and nothing else than the target is touched.
fn refused(s: &mut Src) -> Res {
    use std::os::unix::fs::PermissionsExt;
    let sc = Scratch::new();
    let w = sc.dir.clone();
    let mut t = tree(s, 6);
    if t.is_empty() {
        t.insert(component(s), content(s));
    }
    let keys: Vec<String> = t.keys().cloned().collect();
    let name = keys[s.below(keys.len())].clone();
    put(&w.join("in"), &t);
    let bytes = archive(s, &t.iter().map(|(n, d)| (n.clone(), d.clone())).collect::<Vec<_>>());
    fs::write(w.join("a.pak"), &bytes).unwrap();
    fs::write(w.join("other"), b"mine").unwrap();
    let mut closed: Vec<(PathBuf, u32)> = vec![];
    let plain = s.flag();
    let what = s.pick(&[
        "create: no such directory",
        "create: closed directory",
        "create: closed file",
        "create: pak in no directory",
        "create: pak is a directory",
        "create: pak is closed",
        "extract: output is a file",
        "extract: file in the way of a directory",
        "extract: directory in the way of a file",
        "extract: closed output",
        "no such pak",
        "pak is a directory",
        "closed pak",
    ]);
    s.class(*what);
    let mut target = "x.pak".to_string();
    let mut args: Vec<String> = vec!["create".into(), "in".into(), "x.pak".into()];
    let reading = |s: &mut Src, pak: &str| -> Vec<String> {
        match s.below(4) {
            0 => vec!["check".into(), pak.into()],
            1 => vec!["check-header".into(), pak.into()],
            2 => vec!["extract".into(), pak.into()],
            _ => vec!["extract".into(), pak.into(), "out".into()],
        }
    };
    match *what {
        "create: no such directory" => {
            args[1] = s.pick(&["nowhere", "in/nowhere", "other/in"]).to_string();
            if s.chance(1, 3) && args[1] == "nowhere" {
                args.pop();
                target = "nowhere.pak".into();
            }
        }
        "create: closed directory" => {
            let dir = match name.rsplit_once('/') {
                Some((d, _)) if s.chance(3, 4) => w.join("in").join(d),
                _ if s.chance(1, 4) => w.join("in"),
                _ => {
                    let d = w.join("in").join(format!("{}.closed", component(s)));
                    fs::create_dir_all(&d).unwrap();
                    d
                }
            };
            closed.push((dir, *s.pick(&[0, 0o300, 0o100])));
        }
        "create: closed file" => closed.push((w.join("in").join(&name), *s.pick(&[0, 0o200, 0o300]))),
        "create: pak in no directory" => {
            target = s.pick(&["nowhere/x.pak", "other/x.pak"]).to_string();
            args[2] = target.clone();
        }
        "create: pak is a directory" => {
            fs::create_dir_all(w.join("x.pak")).unwrap();
            if s.flag() {
                fs::write(w.join("x.pak/inner"), b"mine").unwrap();
            }
        }
        "create: pak is closed" => {
            fs::write(w.join("x.pak"), b"mine").unwrap();
            closed.push((w.join("x.pak"), 0o444));
        }
        "extract: output is a file" => args = vec!["extract".into(), "a.pak".into(), s.pick(&["other", "other/out", "in/../other"]).to_string()],
        "extract: file in the way of a directory" => {
            args = vec!["extract".into(), "a.pak".into(), "out".into()];
            fs::create_dir_all(w.join("out")).unwrap();
            match keys.iter().find(|k| k.contains('/')) {
                Some(k) => fs::write(w.join("out").join(k.split('/').next().unwrap()), b"old").unwrap(),
                None => return Ok(()),
            }
        }
        "extract: directory in the way of a file" => {
            args = vec!["extract".into(), "a.pak".into(), "out".into()];
            fs::create_dir_all(w.join("out").join(&name)).unwrap();
        }
        "extract: closed output" => {
            args = vec!["extract".into(), "a.pak".into(), "out".into()];
            fs::create_dir_all(w.join("out")).unwrap();
            closed.push((w.join("out"), *s.pick(&[0, 0o555, 0o444])));
        }
        "no such pak" => args = reading(s, "b.pak"),
        "pak is a directory" => {
            fs::create_dir_all(w.join("b.pak")).unwrap();
            args = reading(s, "b.pak");
        }
        _ => {
            args = reading(s, "a.pak");
            closed.push((w.join("a.pak"), *s.pick(&[0, 0o200])));
        }
    }
    let making = args[0] == "create";
    if making && plain {
        args.push("-n".into());
        if args.len() == 3 {
            args.swap(1, 2);
        }
    }
    s.note(format!("{what}: {args:?} of {:?} at {name:?}", names(&t)));
    let before = get(&sc.root);
    let owned = own(&sc);
    if owned.is_none() && !closed.is_empty() {
        return Ok(());
    }
    for (p, m) in &closed {
        fs::set_permissions(p, fs::Permissions::from_mode(*m)).unwrap();
    }
    s.nontrivial();
    let o = cli(&w, owned, &args.iter().map(|a| a.as_str()).collect::<Vec<_>>());
    ensure_eq!(s, o.code, Some(1), "refused: exit code", "{what}: the tool says {:?}", clip(&o.err));
    ensure!(s, !o.err.is_empty(), "refused: silent", "{what}: nothing is said on standard error");
    let dir = "l1/l2/l3/l4/work/";
    let left = |t: Tree| -> Tree {
        t.into_iter()
            .filter(|(n, _)| if making { *n != format!("{dir}{target}") } else { !n.starts_with(&format!("{dir}out/")) })
            .collect()
    };
    let (after, before) = (get(&sc.root), before);
    for (n, d) in &after {
        let Some(k) = n.strip_prefix(&format!("{dir}out/")) else { continue };
        ensure!(s, before.get(n) == Some(d) || t.get(k) == Some(d), "refused: output", "{what}: {n} is neither what it was nor what the pak holds");
    }
    same(s, &left(after), &left(before), "refused: elsewhere")
}

fn main() {
    vkit::main(vec![Property {
        id: "C11",
        rule: "two or more files, one of them in a directory; a damaged pak with entries; a pak with a name that leaves the directory; the disk is full before the end; something on the disk is in the way",
        assumptions: &["the exit code of the tool is 0 on success and 1 on failure, as documented by its code"],
        facets: vec![
            Facet { name: "trees", quick: 12_000, thorough: 150_000, run: trees },
            Facet { name: "full", quick: 8_000, thorough: 100_000, run: full },
            Facet { name: "refused", quick: 6_000, thorough: 80_000, run: refused },
            Facet { name: "damaged", quick: 12_000, thorough: 150_000, run: damaged },
            Facet { name: "contained", quick: 8_000, thorough: 60_000, run: contained },
        ],
    }])
}
