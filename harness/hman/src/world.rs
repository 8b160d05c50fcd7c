//! Scratch worlds for the mod manager: the user's local data, a game, a folder to drop files from.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::fs;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use unreal_mod_manager::drive::*;
use unreal_pak::{pakversion::PakVersion, PakReader, PakWriter};
use vkit::*;

pub type Tree = BTreeMap<String, Vec<u8>>;
pub const INTEGRATED: &str = "900-ModIntegrator_P.pak";

pub struct Scratch(pub PathBuf);
static COUNT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let root = base.join(format!("hman.{}.{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
        fs::remove_dir_all(&root).ok();
        let w = Scratch(root);
        for d in [w.mods(), w.paks(), w.inbox(), w.game()] {
            fs::create_dir_all(d).expect("scratch directory");
        }
        fs::write(w.game().join("pakchunk0.pak"), game_pak()).expect("the game");
        w
    }
    pub fn local(&self) -> PathBuf {
        self.0.join("local")
    }
    pub fn mods(&self) -> PathBuf {
        self.local().join(GAME).join("Saved").join("Mods")
    }
    pub fn paks(&self) -> PathBuf {
        self.local().join(GAME).join("Saved").join("Paks")
    }
    pub fn config(&self) -> PathBuf {
        self.mods().join("modconfig.json")
    }
    pub fn inbox(&self) -> PathBuf {
        self.0.join("inbox")
    }
    pub fn install(&self) -> PathBuf {
        self.0.join("install")
    }
    pub fn game(&self) -> PathBuf {
        self.install().join(GAME).join("Content").join("Paks")
    }
    pub fn platform(&self) -> Platform {
        Platform { install: Some(self.install()), paks: Some(self.paks()), build: Some((1, 2, 3, 4)) }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.0).ok();
    }
}
pub fn pak_of(t: &Tree, zip: bool) -> Vec<u8> {
    let mut c = Cursor::new(vec![]);
    let mut w = PakWriter::new(&mut c, PakVersion::FnameBasedCompressionMethod);
    for (n, d) in t {
        w.write_entry(n, d, zip).expect("write an entry");
    }
    w.finish_write().expect("finish a pak");
    c.into_inner()
}
fn game_pak() -> &'static [u8] {
    static P: OnceLock<Vec<u8>> = OnceLock::new();
    P.get_or_init(|| pak_of(&[("TheGame/Content/x.bin".to_string(), vec![1, 2, 3])].into_iter().collect(), false))
}
pub fn read_pak(b: &[u8]) -> Option<Tree> {
    let mut p = PakReader::new(Cursor::new(b.to_vec()));
    p.load_index().ok()?;
    let names: Vec<String> = p.get_entry_names().into_iter().cloned().collect();
    names.into_iter().map(|n| p.read_entry(&n).ok().map(|d| (n, d))).collect()
}
/// files of a directory; directories are listed with a trailing slash
pub fn files(d: &Path) -> Tree {
    let mut t = Tree::new();
    if let Ok(l) = fs::read_dir(d) {
        for e in l.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if e.path().is_dir() {
                t.insert(format!("{n}/"), vec![]);
            } else {
                t.insert(n, fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    t
}
pub fn words(s: &mut Src, max: usize) -> String {
    if s.chance(1, 3) { s.text(max) } else { s.ascii_text(max) }.replace('\0', " ")
}
pub fn opt(s: &mut Src, max: usize) -> Option<String> {
    s.flag().then(|| words(s, max))
}
pub type V3 = (u64, u64, u64);
pub fn vtext(v: &V3) -> String {
    format!("{}.{}.{}", v.0, v.1, v.2)
}
pub fn vparse(t: &str) -> Option<V3> {
    let l: Vec<&str> = t.split('.').collect();
    if l.len() != 3 {
        return None;
    }
    let mut o = [0; 3];
    for (a, b) in o.iter_mut().zip(l) {
        if b.is_empty() || !b.bytes().all(|c| c.is_ascii_digit()) || (b.len() > 1 && b.starts_with('0')) {
            return None;
        }
        *a = b.parse().ok()?;
    }
    Some((o[0], o[1], o[2]))
}
pub fn version(s: &mut Src) -> V3 {
    (s.size(3) as u64, s.size(12) as u64, s.size(4) as u64)
}
pub fn mod_id(s: &mut Src, k: usize) -> String {
    match s.below(3) {
        0 => format!("Mod{k}"),
        1 => format!("{}{k}", ["Alpha", "B", "Zz.author", "C3.x"][s.below(4)]),
        _ => format!("Q{k}.Name"),
    }
}

/// the file of one version of a mod
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub id: String,
    pub version: V3,
    pub priority: u32,
    pub name: String,
    pub author: Option<String>,
    pub description: Option<String>,
    pub build: Option<String>,
    pub sync: Option<&'static str>,
    pub homepage: Option<String>,
    pub download: Option<String>,
    /// mod -> (requirement, index file)
    pub depends: BTreeMap<String, (String, Option<String>)>,
    pub dlls: Vec<String>,
    pub salt: u8,
    /// bytes of another file in it
    pub bulk: usize,
}
impl Spec {
    pub fn gen(s: &mut Src, id: &str, version: V3) -> Spec {
        Spec {
            id: id.into(),
            version,
            priority: *s.pick(&[0, 0, 1, 9, 10, 99, 100, 123, 999]),
            name: words(s, 8),
            author: opt(s, 6),
            description: opt(s, 12),
            build: match s.below(4) {
                0 => None,
                1 => Some(format!("{}.{}.{}.{}", s.size(3), s.size(40), s.size(99), s.size(3))),
                2 => Some("1.24.29.0".into()),
                _ => Some((*s.pick(&["", "1", "1.2.3", "a.b.c.d", "1.2.3.", "1..2.3", "1.2.3.x", "-1.2.3.4", "99999999999999999999.0.0.0"])).into()),
            },
            sync: if s.chance(3, 4) { Some(*s.pick(&["server", "client", "serverclient", "none"])) } else { None },
            homepage: opt(s, 8),
            salt: s.byte(),
            bulk: if s.chance(1, 12) { s.urange(3000, 90_000) } else { 0 },
            ..Default::default()
        }
    }
    pub fn file(&self) -> String {
        format!("{:03}-{}-{}_P.pak", self.priority, self.id, vtext(&self.version))
    }
    pub fn json(&self) -> Map<String, Value> {
        let mut m = json!({"schema_version": 2, "name": self.name, "mod_id": self.id, "version": vtext(&self.version)});
        let o = m.as_object_mut().unwrap();
        for (k, v) in [("author", &self.author), ("description", &self.description), ("game_build", &self.build), ("homepage", &self.homepage)] {
            if let Some(v) = v {
                o.insert(k.into(), json!(v));
            }
        }
        if let Some(v) = self.sync {
            o.insert("sync".into(), json!(v));
        }
        if let Some(u) = &self.download {
            o.insert("download".into(), json!({"type": "index_file", "url": u}));
        }
        if !self.depends.is_empty() {
            let d: Map<String, Value> = self
                .depends
                .iter()
                .map(|(k, (r, u))| {
                    let v = match u {
                        Some(u) => json!({"version": r, "download": {"type": "index_file", "url": u}}),
                        None => json!(r),
                    };
                    (k.clone(), v)
                })
                .collect();
            o.insert("dependencies".into(), Value::Object(d));
        }
        if !self.dlls.is_empty() {
            o.insert("cpp_loader_dlls".into(), json!(self.dlls));
        }
        m.as_object().unwrap().clone()
    }
    pub fn tree(&self) -> Tree {
        let mut t = Tree::new();
        t.insert("metadata.json".into(), serde_json::to_vec(&self.json()).unwrap());
        t.insert(format!("TheGame/Content/{}.bin", self.id), vec![self.salt; 1 + self.salt as usize % 7]);
        if self.bulk > 0 {
            let mut k = 1u32;
            let next = |_| {
                k = k.wrapping_mul(1664525).wrapping_add(1013904223);
                (k >> 24) as u8
            };
            let mut b: Vec<u8> = (0..self.bulk).map(next).collect();
            b.push(self.salt);
            t.insert(format!("TheGame/Content/{}.bulk", self.id), b);
        }
        t
    }
    pub fn bytes(&self) -> Vec<u8> {
        pak_of(&self.tree(), self.salt % 2 == 0)
    }
    /// what the manager shows of the game build
    pub fn shown_build(&self) -> Option<String> {
        let b = self.build.as_ref()?;
        let l: Vec<&str> = b.split('.').collect();
        if l.len() < 4 {
            return None;
        }
        let mut o = vec![];
        for p in &l[..4] {
            o.push(p.parse::<usize>().ok()?.to_string());
        }
        Some(o.join("."))
    }
    pub fn shown_sync(&self) -> &'static str {
        match self.sync {
            None | Some("serverclient") => "Server and Client",
            Some("server") => "Server only",
            Some("client") => "Client only",
            _ => "None",
        }
    }
}
/// the details shown of a mod are those of this version of it
pub fn check_details(s: &mut Src, m: &Mod, x: &Spec) -> Res {
    let got = (&m.name, &m.author, &m.description, &m.build, m.sync.as_str(), &m.homepage, &m.download);
    let b = x.shown_build();
    let want = (&x.name, &x.author, &x.description, &b, x.shown_sync(), &x.homepage, &x.download);
    ensure!(s, got == want, "details: differ from the metadata", "details of {}: {got:?}, expected {want:?}", x.id);
    let want: BTreeMap<String, Option<String>> = x.depends.iter().map(|(k, e)| (k.clone(), e.1.clone())).collect();
    let got: BTreeMap<String, Option<String>> = m.depends.iter().map(|(k, e)| (k.clone(), e.1.clone())).collect();
    ensure_eq!(s, got, want, "details: dependencies", "dependencies of {}", x.id);
    ensure_eq!(s, m.size, x.bytes().len() as u64, "details: size", "size of {}", x.id);
    Ok(())
}
pub fn ended<T>(what: &str, e: Ended) -> Result<T, Fail> {
    match e {
        Ended::Crash(m) => fail(format!("{what}: the background thread crashed: {}", norm(&m)), m),
        Ended::Late => {
            println!("ERROR the background thread of the mod manager did not answer within two minutes");
            std::process::exit(2)
        }
    }
}
pub fn settle(what: &str, x: &mut Session) -> Res {
    match x.settle() {
        Ok(()) => Ok(()),
        Err(e) => ended(what, e),
    }
}
pub fn exit(what: &str, x: Session) -> Res {
    match x.exit() {
        Ok(()) => Ok(()),
        Err(e) => ended(what, e),
    }
}
