//! Stand-in: Steam is not installed.
use std::path::PathBuf;
#[derive(Debug, Clone)]
pub struct SteamDir {
    pub path: PathBuf,
}
#[derive(Debug, Clone)]
pub struct SteamApp {
    pub path: PathBuf,
}
impl SteamDir {
    pub fn locate() -> Option<SteamDir> {
        None
    }
    pub fn app(&mut self, _app_id: &u32) -> Option<&SteamApp> {
        None
    }
}
