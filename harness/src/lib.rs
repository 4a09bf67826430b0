//! Property checks for webrtc-sdp: see /verif/DESIGN.md.

#[macro_use]
pub mod engine;
pub mod big;
pub mod build;
pub mod dbg;
pub mod dict;
pub mod gen;
pub mod guard;
pub mod invalid;
pub mod meter;
pub mod model;
pub mod proj;
pub mod props;
pub mod sess;
pub mod wire;
