#![allow(improper_ctypes_definitions)]
extern crate libsecp256k1 as secp;
pub mod cn;
pub mod words;
pub mod mn;
pub mod sd;
pub mod xp;
pub mod ek;
pub mod hi;
pub mod wl;
#[cfg(feature = "native")]
pub const TABLES: &[&[(&str, fn())]] = &[cn::TABLE, mn::TABLE, sd::TABLE, xp::TABLE, ek::TABLE, hi::TABLE, wl::TABLE];
