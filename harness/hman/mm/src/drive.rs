//! Drives the real background thread, the way the window does, and takes snapshots of its data.
use crate::background_work::{background_work, BackgroundThreadData, BackgroundThreadMessage as Msg};
use crate::config::{GameConfig, IconData, InstallManager};
use crate::error::{ModLoaderError, ModLoaderWarning, ModLoaderWarningKind as K};
use crate::game_mod::SelectedVersion;
use crate::mod_processing::dependencies::{DependencyGraph, ModWithDependencies};
use crate::update_info::UpdateInfo;
use crate::version::GameBuild;
use crate::{FileToProcess, ModLoaderAppData};
use parking_lot::Mutex;
use semver::{Version, VersionReq};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::thread::JoinHandle;
use std::time::{Duration, Instant};
use unreal_asset::engine_version::EngineVersion;
use unreal_mod_integrator::{BakedMod, HandlerFn, IntegratorConfig, IntegratorMod};
use unreal_mod_metadata::{Dependency, DownloadInfo, Metadata};

pub const GAME: &str = "TheGame";
pub const VERSION: &str = "9.8.7";

#[derive(Debug)]
pub struct Oops;
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "oops")
    }
}
impl std::error::Error for Oops {}

#[derive(Clone, Debug)]
pub struct Baked {
    pub id: String,
    pub file: &'static str,
    pub data: &'static [u8],
    pub priority: u32,
    pub core: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Platform {
    pub install: Option<PathBuf>,
    pub paks: Option<PathBuf>,
    pub build: Option<(usize, usize, usize, usize)>,
}
struct Integ {
    baked: Vec<Baked>,
}
static UNIT: () = ();
impl IntegratorConfig<'static, (), Oops> for Integ {
    fn get_data(&self) -> &'static () {
        &UNIT
    }
    fn get_handlers(&self) -> HashMap<String, Box<HandlerFn<(), Oops>>> {
        HashMap::new()
    }
    fn get_baked_mods(&self) -> Vec<IntegratorMod<Oops>> {
        self.baked
            .iter()
            .map(|b| BakedMod { data: b.data, mod_id: b.id.clone(), filename: b.file, priority: b.priority, is_core: b.core }.into())
            .collect()
    }
    const GAME_NAME: &'static str = GAME;
    const INTEGRATOR_VERSION: &'static str = VERSION;
    const ENGINE_VERSION: EngineVersion = EngineVersion::VER_UE4_23;
}
struct Game(Integ);
impl GameConfig<'static, Integ, (), Oops> for Game {
    fn get_integrator_config(&self) -> &Integ {
        &self.0
    }
    fn get_game_build(&self, _: &Path) -> Option<GameBuild> {
        None
    }
    fn get_install_managers(&self) -> BTreeMap<&'static str, Box<dyn InstallManager>> {
        BTreeMap::new()
    }
    fn get_newer_update(&self) -> Result<Option<UpdateInfo>, ModLoaderError> {
        Ok(None)
    }
    fn update_modloader(&self, _: Box<dyn Fn(f32)>) -> Result<(), ModLoaderError> {
        Ok(())
    }
    fn get_icon(&self) -> Option<IconData> {
        None
    }
    const WINDOW_TITLE: &'static str = "t";
    const CONFIG_DIR: &'static str = "c";
    const CRATE_VERSION: &'static str = "0.0.0";
    const ABOUT_TEXT: &'static str = "a";
}
#[derive(Debug)]
struct Manager {
    p: Platform,
    launched: Sender<()>,
}
impl InstallManager for Manager {
    fn get_game_install_path(&self) -> Option<PathBuf> {
        self.p.install.clone()
    }
    fn get_paks_path(&self) -> Option<PathBuf> {
        self.p.paks.clone()
    }
    fn get_game_build(&self) -> Option<GameBuild> {
        self.p.build.map(|b| GameBuild::new(b.0, b.1, b.2, b.3))
    }
    fn launch_game(&self) -> Result<(), ModLoaderWarning> {
        let _ = self.launched.send(());
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Picked {
    Latest(String),
    Indirect(Option<String>),
    Exact(String),
}
impl Picked {
    pub fn version(&self) -> String {
        match self {
            Picked::Latest(v) | Picked::Exact(v) => v.clone(),
            Picked::Indirect(v) => v.clone().unwrap_or_default(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ver {
    pub id: String,
    pub file: String,
    pub downloaded: bool,
    pub url: Option<String>,
    pub meta: Option<Metadata>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Mod {
    pub versions: BTreeMap<String, Ver>,
    pub picked: Picked,
    pub latest: Option<String>,
    pub enabled: bool,
    pub name: String,
    pub author: Option<String>,
    pub description: Option<String>,
    pub build: Option<String>,
    pub sync: String,
    pub homepage: Option<String>,
    pub download: Option<String>,
    pub depends: BTreeMap<String, (String, Option<String>)>,
    pub size: u64,
}
/// (kind, mod, text)
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Warn {
    pub kind: String,
    pub about: Option<String>,
    pub who: Vec<(String, String)>,
    pub text: String,
}
#[derive(Clone, Debug, Default)]
pub struct View {
    pub mods: BTreeMap<String, Mod>,
    pub warnings: Vec<Warn>,
    pub error: Option<String>,
    pub failed: bool,
    pub refuse: bool,
    pub platform: Option<String>,
    pub build: Option<String>,
    pub paks: Option<PathBuf>,
    pub install: Option<PathBuf>,
    pub trusted: BTreeSet<Vec<u8>>,
    pub untrusted: Vec<(String, String, Vec<u8>)>,
    pub profiles: serde_json::Value,
    /// (mod, dependents)
    pub dependents: Option<BTreeMap<String, Vec<String>>>,
}

fn warn_view(w: &ModLoaderWarning) -> Warn {
    let (kind, about, who) = match &w.kind {
        K::UnresolvedDependency(id, who) => ("unresolved", Some(id.clone()), who.clone()),
        K::ReferencedByOtherMods(id, who) => ("referenced", Some(id.clone()), who.iter().map(|e| (e.clone(), String::new())).collect()),
        K::IoError(_) | K::IoErrorWithMessage(..) => ("io", w.mod_id.clone(), vec![]),
        K::UnrealPakError(_) => ("pak", w.mod_id.clone(), vec![]),
        K::IntegratorError(_) => ("integrator", w.mod_id.clone(), vec![]),
        K::MissingMetadata => ("no-metadata", w.mod_id.clone(), vec![]),
        K::InvalidMetadata => ("metadata", w.mod_id.clone(), vec![]),
        K::InvalidModFileName => ("file-name", w.mod_id.clone(), vec![]),
        K::InvalidVersion => ("version", w.mod_id.clone(), vec![]),
        K::IndexFileDownloadFailed(_) | K::IndexFileDownloadFailedStatus(_) => ("index-download", w.mod_id.clone(), vec![]),
        K::InvalidIndexFile => ("index", w.mod_id.clone(), vec![]),
        K::IndexFileMissingMod => ("index-missing", w.mod_id.clone(), vec![]),
        K::DownloadFailed(_) => ("download", w.mod_id.clone(), vec![]),
        _ => ("other", w.mod_id.clone(), vec![]),
    };
    Warn { kind: kind.into(), about, who, text: w.to_string() }
}

pub struct Session {
    data: Arc<Mutex<ModLoaderAppData>>,
    tx: Sender<Msg>,
    launched: Receiver<()>,
    thread: Option<JoinHandle<Option<String>>>,
}
pub enum Ended {
    /// the background thread crashed
    Crash(String),
    /// it did not answer in time
    Late,
}
const NO_MANAGER: &str = "No install manager";

impl Session {
    /// `local` is the local data directory of the user
    pub fn start(local: PathBuf, platforms: &[(&'static str, Platform)], baked: Vec<Baked>) -> Session {
        let (launch, launched) = channel();
        let mut managers: BTreeMap<&'static str, Box<dyn InstallManager>> = BTreeMap::new();
        for (n, p) in platforms {
            managers.insert(n, Box::new(Manager { p: p.clone(), launched: launch.clone() }));
        }
        let data = Arc::new(Mutex::new(ModLoaderAppData {
            refuse_mismatched_connections: true,
            install_managers: managers,
            ..Default::default()
        }));
        let bg = BackgroundThreadData {
            data: data.clone(),
            use_cpp_loader: false,
            ready_exit: Arc::new(AtomicBool::new(false)),
            last_integration_time: Arc::new(Mutex::new(Instant::now())),
            working: Arc::new(AtomicBool::new(true)),
            newer_update: Arc::new(Mutex::new(None)),
            should_update: Arc::new(AtomicBool::new(false)),
            update_progress: Arc::new(AtomicI32::new(0)),
        };
        let (tx, rx) = channel();
        let thread = std::thread::Builder::new()
            .name("background".into())
            .spawn(move || {
                directories::set_data_dir(Some(local));
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| background_work(Game(Integ { baked }), bg, rx))) {
                    Ok(_) => None,
                    Err(e) => Some(
                        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|e| e.to_string())).unwrap_or_default(),
                    ),
                }
            })
            .expect("spawn a thread");
        Session { data, tx, launched, thread: Some(thread) }
    }
    /// wait until everything sent so far has been dealt with
    pub fn settle(&mut self) -> Result<(), Ended> {
        let _ = self.tx.send(Msg::LaunchGame);
        let start = Instant::now();
        loop {
            if self.launched.recv_timeout(Duration::from_millis(2)).is_ok() {
                return Ok(());
            }
            if self.thread.as_ref().map(|t| t.is_finished()).unwrap_or(true) {
                return Err(Ended::Crash(self.thread.take().and_then(|t| t.join().ok().flatten()).unwrap_or_default()));
            }
            if let Some(mut d) = self.data.try_lock() {
                let n = d.warnings.len();
                d.warnings.retain(|w| !matches!(&w.kind, K::Other(t) if t == NO_MANAGER));
                if d.warnings.len() < n {
                    return Ok(());
                }
            }
            if start.elapsed() > Duration::from_secs(120) {
                return Err(Ended::Late);
            }
        }
    }
    /// end the session and wait for the thread
    pub fn exit(mut self) -> Result<(), Ended> {
        let _ = self.tx.send(Msg::Exit);
        let start = Instant::now();
        loop {
            if self.thread.as_ref().map(|t| t.is_finished()).unwrap_or(true) {
                return match self.thread.take().map(|t| t.join()) {
                    Some(Ok(None)) => Ok(()),
                    Some(Ok(Some(m))) => Err(Ended::Crash(m)),
                    _ => Err(Ended::Crash(String::new())),
                };
            }
            if start.elapsed() > Duration::from_secs(120) {
                return Err(Ended::Late);
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    pub fn import(&self, files: &[PathBuf]) {
        let _ = self.tx.send(Msg::Import(files.iter().map(|f| FileToProcess::new(f.clone(), true)).collect()));
    }
    pub fn remove(&self, id: &str) {
        let _ = self.tx.send(Msg::RemoveMod(id.into()));
    }
    pub fn integrate(&self) {
        let _ = self.tx.send(Msg::integrate());
    }
    pub fn save(&self) {
        let _ = self.tx.send(Msg::WriteConfig);
    }
    pub fn enable(&self, id: &str, on: bool) {
        if let Some(m) = self.data.lock().game_mods.get_mut(id) {
            m.enabled = on;
        }
    }
    pub fn pick(&self, id: &str, p: &Picked) {
        let v = |t: &String| Version::parse(t).expect("a version");
        if let Some(m) = self.data.lock().game_mods.get_mut(id) {
            m.selected_version = match p {
                Picked::Latest(t) => SelectedVersion::Latest(v(t)),
                Picked::Exact(t) => SelectedVersion::Specific(v(t)),
                Picked::Indirect(t) => SelectedVersion::LatestIndirect(t.as_ref().map(v)),
            };
        }
    }
    pub fn refuse(&self, on: bool) {
        self.data.lock().refuse_mismatched_connections = on;
    }
    pub fn platform(&self, p: &str) -> bool {
        self.data.lock().set_game_platform(p).is_ok()
    }
    /// as the window does when the user trusts the listed mods
    pub fn trust(&self) {
        let mut d = self.data.lock();
        let l: Vec<Vec<u8>> = d.untrusted_mods.iter().map(|e| e.hash.clone()).collect();
        d.trusted_mods.extend(l);
        d.untrusted_mods.clear();
    }
    pub fn profiles(&self, v: serde_json::Value) {
        self.data.lock().profiles = serde_json::from_value(v).expect("profiles");
    }
    pub fn clear_warnings(&self) {
        self.data.lock().warnings.clear();
    }
    pub fn view(&self) -> View {
        let d = self.data.lock();
        let mods = d
            .game_mods
            .iter()
            .map(|(id, m)| {
                let versions = m
                    .versions
                    .iter()
                    .map(|(v, e)| {
                        let w = Ver {
                            id: e.mod_id.clone(),
                            file: e.file_name.clone(),
                            downloaded: e.downloaded,
                            url: e.download_url.clone(),
                            meta: e.metadata.clone(),
                        };
                        (v.to_string(), w)
                    })
                    .collect();
                let w = Mod {
                    versions,
                    picked: match &m.selected_version {
                        SelectedVersion::Latest(v) => Picked::Latest(v.to_string()),
                        SelectedVersion::Specific(v) => Picked::Exact(v.to_string()),
                        SelectedVersion::LatestIndirect(v) => Picked::Indirect(v.as_ref().map(|v| v.to_string())),
                    },
                    latest: m.latest_version.as_ref().map(|v| v.to_string()),
                    enabled: m.enabled,
                    name: m.name.clone(),
                    author: m.author.clone(),
                    description: m.description.clone(),
                    build: m.game_build.map(|b| b.to_string()),
                    sync: m.sync.to_string(),
                    homepage: m.homepage.clone(),
                    download: m.download.as_ref().map(|e| e.url.clone()),
                    depends: m
                        .dependencies
                        .iter()
                        .map(|(k, e)| (k.clone(), (e.version.to_string(), e.download.as_ref().map(|e| e.url.clone()))))
                        .collect(),
                    size: m.size,
                };
                (id.clone(), w)
            })
            .collect();
        let dependents = d.dependency_graph.as_ref().map(|g| {
            d.game_mods
                .keys()
                .map(|id| {
                    let mut l = g.find_mod_dependents(id);
                    l.sort();
                    l.dedup();
                    (id.clone(), l)
                })
                .collect()
        });
        View {
            mods,
            warnings: d.warnings.iter().map(warn_view).collect(),
            error: d.error.as_ref().map(|e| e.to_string()),
            failed: d.failed,
            refuse: d.refuse_mismatched_connections,
            platform: d.selected_game_platform.clone(),
            build: d.game_build.map(|b| b.to_string()),
            paks: d.paks_path.clone(),
            install: d.game_install_path.clone(),
            trusted: d.trusted_mods.iter().cloned().collect(),
            untrusted: d.untrusted_mods.iter().map(|e| (e.name.clone(), e.version.clone(), e.hash.clone())).collect(),
            profiles: serde_json::to_value(&d.profiles).expect("profiles"),
            dependents,
        }
    }
}

// ---------------------------------------------------------------------------- the dependency graph

#[derive(Clone, Debug)]
pub struct Node {
    pub id: String,
    pub versions: Vec<String>,
    /// mod, requirement, urls
    pub needs: BTreeMap<String, (String, Option<String>)>,
}
#[derive(Default)]
pub struct Graph(DependencyGraph);
#[derive(Clone, Debug, Default)]
pub struct Resolved {
    pub versions: BTreeMap<String, String>,
    pub warnings: Vec<Warn>,
}
impl Graph {
    /// mod -> (requirement, urls)
    pub fn add(&mut self, l: &[Node]) -> BTreeMap<String, (VersionReq, Vec<String>)> {
        let l: Vec<ModWithDependencies> = l
            .iter()
            .map(|n| {
                let needs = n
                    .needs
                    .iter()
                    .map(|(k, (r, u))| {
                        let download = u
                            .as_ref()
                            .map(|u| DownloadInfo { download_mode: unreal_mod_metadata::DownloadMode::IndexFile, url: u.clone() });
                        (k.clone(), Dependency::new(VersionReq::parse(r).expect("a requirement"), download))
                    })
                    .collect();
                ModWithDependencies::new(n.id.clone(), n.versions.iter().map(|v| Version::parse(v).expect("a version")).collect(), needs)
            })
            .collect();
        self.0
            .add_mods(&l)
            .into_iter()
            .map(|(k, (r, d))| (k, (r, d.into_iter().map(|e| e.url).collect())))
            .collect()
    }
    pub fn resolve(&self) -> Resolved {
        let (v, w) = self.0.validate_graph();
        Resolved {
            versions: v.into_iter().map(|(k, v)| (k, v.to_string())).collect(),
            warnings: w.iter().map(warn_view).collect(),
        }
    }
    pub fn dependents(&self, id: &str) -> Vec<String> {
        self.0.find_mod_dependents(id)
    }
    pub fn dependents_with_version(&self, id: &str) -> Vec<(String, String)> {
        self.0.find_mod_dependents_with_version(id)
    }
}
pub fn build_text(t: &str) -> Option<String> {
    GameBuild::try_from(&t.to_string()).ok().map(|b| b.to_string())
}
