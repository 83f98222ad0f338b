#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
mod rt; mod stats; mod abs; mod model; mod world; mod lab;
use abs::*; use model::*; use rt::*; use world::*; use lab::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
fn main() {
    install();
    scenario();
    println!("ok");
}
include!("scenario.rs");
