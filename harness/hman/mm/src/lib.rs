#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/mm/lib.rs"));
pub mod drive;
