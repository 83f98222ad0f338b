#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
mod rt; mod abs; mod model; mod world; mod lab;
use abs::*; use model::*; use rt::*; use world::*; use lab::*;
fn main() {
    scenario();
    println!("ok");
}
include!("scenario.rs");
