//! Scratch worlds: a game directory, mod paks, and an integrator configuration.
use crate::mini::Mini;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fs::{self, File};
use std::io::{BufReader, Cursor};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::Asset;
use unreal_mod_integrator::*;
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader, PakWriter};
use vkit::*;

pub type Tree = BTreeMap<String, Vec<u8>>;
pub type Paks = Vec<PakReader<BufReader<File>>>;
pub type A = Asset<Cursor<Vec<u8>>>;

pub struct Scratch(pub PathBuf);
static COUNT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let root = base.join(format!("hinteg.{}.{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
        fs::remove_dir_all(&root).ok();
        for d in ["game", "mods", "paks"] {
            fs::create_dir_all(root.join(d)).expect("scratch directory");
        }
        Scratch(root)
    }
    pub fn at(&self, p: &str) -> PathBuf {
        self.0.join(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.0).ok();
    }
}

pub fn pak_bytes(s: &mut Src, t: &Tree) -> Vec<u8> {
    let v = *s.pick(&[PakVersion::FnameBasedCompressionMethod, PakVersion::FnameBasedCompressionMethod, PakVersion::CompressionEncryption]);
    let mut c = Cursor::new(vec![]);
    let mut w = PakWriter::new(&mut c, v);
    for (n, d) in t {
        let z = s.flag();
        w.write_entry(n, d, z).expect("write an entry");
    }
    w.finish_write().expect("finish a pak");
    c.into_inner()
}
pub fn write_pak(s: &mut Src, at: &Path, t: &Tree) {
    let b = pak_bytes(s, t);
    fs::write(at, b).expect("write a pak");
}
pub fn read_pak(at: &Path) -> Result<Tree, Fail> {
    let f = match File::open(at) {
        Ok(f) => f,
        Err(e) => return fail("output: the integrated pak is missing", e.to_string()),
    };
    let mut p = PakReader::new(BufReader::new(f));
    if let Err(e) = p.load_index() {
        return fail("output: the integrated pak cannot be opened", e.to_string());
    }
    let names: Vec<String> = p.get_entry_names().into_iter().cloned().collect();
    let mut t = Tree::new();
    for n in names {
        match p.read_entry(&n) {
            Ok(d) => t.insert(n, d),
            Err(e) => return fail("output: an entry of the integrated pak cannot be read", format!("{n}: {e}")),
        };
    }
    Ok(t)
}
pub fn open_paks(paths: &[PathBuf]) -> Paks {
    paths
        .iter()
        .map(|p| {
            let mut r = PakReader::new(BufReader::new(File::open(p).expect("open a pak")));
            r.load_index().expect("load a pak");
            r
        })
        .collect()
}
pub fn files(d: &Path) -> Tree {
    let mut t = Tree::new();
    for e in fs::read_dir(d).expect("a directory").flatten() {
        t.insert(e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_default());
    }
    t
}
/// a package of the tree, by its name
pub fn parse(t: &Tree, name: &str) -> Result<A, Fail> {
    let Some(a) = t.get(name) else { return fail("output: a package is missing", name.to_string()) };
    let u = Path::new(name).with_extension("uexp").to_string_lossy().into_owned();
    let bulk = t.get(&u).cloned();
    match guarded(|| Asset::new(Cursor::new(a.clone()), bulk.map(Cursor::new), EngineVersion::VER_UE4_23, None)) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => fail("output: a package of the integrated pak cannot be read", format!("{name}: {e}")),
        Err((m, at)) => fail("output: a package of the integrated pak cannot be read", format!("{name}: {m} at {at}")),
    }
}

/// a package with one number in it
pub fn small(v: i32) -> (Vec<u8>, Vec<u8>) {
    let mut m = Mini::default();
    let c = m.class("/Script/Engine", "Thing");
    let mut w = vec![];
    m.int_prop(&mut w, "Value", v);
    m.end(&mut w);
    w.extend([0; 4]);
    m.export(c, 0, "Thing_0", w);
    m.build()
}

#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub name: String,
    pub id: String,
    pub author: Option<String>,
    pub description: Option<String>,
    pub version: String,
    pub build: Option<String>,
    pub sync: Option<&'static str>,
    pub homepage: Option<String>,
    pub integrator: Map<String, Value>,
}
pub fn words(s: &mut Src, max: usize) -> String {
    if s.chance(1, 3) { s.text(max) } else { s.ascii_text(max) }.replace('\0', " ")
}
pub fn opt(s: &mut Src, max: usize) -> Option<String> {
    s.flag().then(|| words(s, max))
}
impl Meta {
    pub fn gen(s: &mut Src, id: String) -> Meta {
        Meta {
            name: words(s, 10),
            id,
            author: opt(s, 8),
            description: opt(s, 20),
            version: format!("{}.{}.{}", s.size(9), s.size(30), s.size(9)),
            build: opt(s, 6),
            sync: if s.chance(3, 4) { Some(*s.pick(&["server", "client", "serverclient", "none"])) } else { None },
            homepage: opt(s, 12),
            integrator: Map::new(),
        }
    }
    pub fn json(&self) -> Vec<u8> {
        let mut m = json!({
            "schema_version": 2, "name": self.name, "mod_id": self.id, "version": self.version,
            "integrator": self.integrator,
        });
        let o = m.as_object_mut().unwrap();
        for (k, v) in [("author", &self.author), ("description", &self.description), ("game_build", &self.build), ("homepage", &self.homepage)] {
            if let Some(v) = v {
                o.insert(k.into(), json!(v));
            }
        }
        if let Some(v) = self.sync {
            o.insert("sync".into(), json!(v));
        }
        serde_json::to_vec(&m).unwrap()
    }
}
pub fn mod_id(s: &mut Src, k: usize) -> String {
    match s.below(4) {
        0 => format!("Mod{k}"),
        1 => format!("{}{k}", s.ascii_ident(6)),
        2 => format!("{}-{k}", words(s, 5)),
        _ => format!("Author.Name_{k}"),
    }
}
pub fn value(s: &mut Src, depth: usize) -> Value {
    match s.below(if depth == 0 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => json!(s.flag()),
        2 => json!(s.i64v()),
        3 => json!(words(s, 8)),
        4 => json!(format!("/Game/{}", s.ascii_ident(5))),
        5 => Value::Array((0..s.size(3)).map(|_| value(s, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..s.size(3) {
                m.insert(words(s, 4), value(s, depth - 1));
            }
            Value::Object(m)
        }
    }
}

#[derive(Debug)]
pub struct Oops(pub String);
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "oops {}", self.0)
    }
}
impl std::error::Error for Oops {}

/// what a handler or dynamic mod does when it is called
#[derive(Clone, Debug, Default)]
pub struct Act {
    pub put: Vec<(String, Vec<u8>)>,
    pub fail: bool,
}
/// one call of a handler or dynamic mod, as it saw it
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub who: String,
    pub data: u64,
    pub args: Vec<Value>,
    /// entries of the integrated pak
    pub entries: Vec<String>,
    pub mods: Vec<Vec<String>>,
    pub games: Vec<Vec<String>>,
}
pub type Log = Rc<RefCell<Vec<Call>>>;
fn names(p: &Paks) -> Vec<Vec<String>> {
    p.iter()
        .map(|e| {
            let mut l: Vec<String> = e.get_entry_names().into_iter().cloned().collect();
            l.sort();
            l
        })
        .collect()
}
fn act(log: &Log, a: &Act, who: &str, data: u64, args: &[Value], out: &mut PakMemory, g: &Paks, m: &Paks) -> Result<(), Oops> {
    let mut games = names(g);
    games.sort();
    log.borrow_mut().push(Call {
        who: who.into(),
        data,
        args: args.to_vec(),
        entries: out.get_entry_names().into_iter().cloned().collect(),
        mods: names(m),
        games,
    });
    for (n, d) in &a.put {
        out.set_entry(n.clone(), d.clone());
    }
    if a.fail {
        return Err(Oops(who.into()));
    }
    Ok(())
}
pub struct Dynamic {
    pub id: String,
    pub act: Act,
    pub log: Log,
}
impl IntegratorModInfo for Dynamic {
    fn get_mod_id(&self) -> String {
        self.id.clone()
    }
    fn get_priority(&self) -> u32 {
        5
    }
    fn is_core(&self) -> bool {
        false
    }
}
impl DynamicMod<Oops> for Dynamic {
    fn integrate(&self, out: &mut PakMemory, g: &mut Paks, m: &mut Paks) -> Result<(), Oops> {
        act(&self.log, &self.act, &self.id, 0, &[], out, g, m)
    }
}
#[derive(Clone)]
pub struct Baked {
    pub meta: Meta,
    pub core: bool,
    pub file: &'static str,
    pub data: &'static [u8],
}
#[derive(Default)]
pub struct Config {
    pub log: Log,
    pub data: u64,
    pub handlers: BTreeMap<String, Act>,
    pub baked: Vec<Baked>,
}
static DATA: [u64; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
impl Config {
    fn handlers(&self) -> HashMap<String, Box<HandlerFn<u64, Oops>>> {
        let mut h: HashMap<String, Box<HandlerFn<u64, Oops>>> = HashMap::new();
        for (n, a) in &self.handlers {
            let (log, a, who) = (self.log.clone(), a.clone(), n.clone());
            h.insert(n.clone(), Box::new(move |d, out, g, m, args| act(&log, &a, &who, *d, args, out, g, m)));
        }
        h
    }
    fn baked(&self) -> Vec<IntegratorMod<Oops>> {
        self.baked
            .iter()
            .map(|b| BakedMod { data: b.data, mod_id: b.meta.id.clone(), filename: b.file, priority: 1, is_core: b.core }.into())
            .collect()
    }
}
pub struct Plain<'c>(pub &'c Config);
pub struct Odd<'c>(pub &'c Config);
macro_rules! config {
    ($t:ident, $name:expr, $version:expr) => {
        impl<'c> IntegratorConfig<'static, u64, Oops> for $t<'c> {
            fn get_data(&self) -> &'static u64 {
                &DATA[self.0.data as usize]
            }
            fn get_handlers(&self) -> HashMap<String, Box<HandlerFn<u64, Oops>>> {
                self.0.handlers()
            }
            fn get_baked_mods(&self) -> Vec<IntegratorMod<Oops>> {
                self.0.baked()
            }
            const GAME_NAME: &'static str = $name;
            const INTEGRATOR_VERSION: &'static str = $version;
            const ENGINE_VERSION: EngineVersion = EngineVersion::VER_UE4_23;
        }
    };
}
pub const GAMES: [(&str, &str); 2] = [("Astro", "1.2.3"), ("A Game$1", "0.1.0-βeta")];
config!(Plain, GAMES[0].0, GAMES[0].1);
config!(Odd, GAMES[1].0, GAMES[1].1);

pub fn integrate(game: usize, c: &Config, mods: &[IntegratorMod<Oops>], paks: &Path, dir: &Path, refuse: bool) -> Result<Result<(), Error>, (String, String)> {
    guarded(|| match game {
        0 => integrate_mods(&Plain(c), mods, paks, dir, refuse),
        _ => integrate_mods(&Odd(c), mods, paks, dir, refuse),
    })
}
