//! Stand-in: the local data directory is the one the harness set for this thread.
use std::path::{Path, PathBuf};
use std::cell::RefCell;
thread_local! {
    static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
pub fn set_data_dir(p: Option<PathBuf>) {
    DIR.with(|d| *d.borrow_mut() = p);
}
#[derive(Debug, Clone)]
pub struct BaseDirs(PathBuf);
impl BaseDirs {
    pub fn new() -> Option<Self> {
        DIR.with(|d| d.borrow().clone()).map(BaseDirs)
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.0
    }
    pub fn data_dir(&self) -> &Path {
        &self.0
    }
}
