//! C05: types generated by prost-build together with prost-reflect-build, against their dynamic twins.
mod fv;
#[allow(dead_code)]
mod parse;
mod props;

use fv::*;
use props::{entry, Entry};

include!(concat!(env!("OUT_DIR"), "/types.rs"));

fn main() {
    prmon::cli(vec![&props::C05]);
}
