//! Stand-in for the window.
use crate::background_work::BackgroundThreadMessage;
use crate::update_info::UpdateInfo;
use crate::ModLoaderAppData;
use parking_lot::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32};
use std::sync::{mpsc::Sender, Arc};
use std::time::Instant;
pub(crate) struct ModLoaderApp {
    pub window_title: String,
}
impl ModLoaderApp {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        _data: Arc<Mutex<ModLoaderAppData>>,
        _background_tx: Sender<BackgroundThreadMessage>,
        window_title: String,
        _modloader_version: &'static str,
        _ready_exit: Arc<AtomicBool>,
        _working: Arc<AtomicBool>,
        _last_integration_time: Arc<Mutex<Instant>>,
        _newer_update: Arc<Mutex<Option<UpdateInfo>>>,
        _update_progress: Arc<AtomicI32>,
        _about_text: String,
    ) -> Self {
        ModLoaderApp { window_title }
    }
}
impl eframe::App for ModLoaderApp {}
