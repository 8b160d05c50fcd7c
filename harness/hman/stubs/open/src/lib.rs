//! Stand-in: nothing is ever opened.
use std::ffi::OsStr;
pub fn that(_path: impl AsRef<OsStr>) -> std::io::Result<()> {
    Ok(())
}
