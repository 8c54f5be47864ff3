//! The checks, one module per property.

use crate::ctx::*;

pub mod common;
pub mod damage;
pub mod items;
pub mod sites;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
#[cfg(feature = "json")]
pub mod c15;

pub struct Scenario {
    pub name: &'static str,
    pub run: fn() -> Result<(), Violation>,
}

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Result<(), Violation>,
    pub quick_runs: u64,
    /// Runs per worker process.
    pub batch: u64,
    pub scenarios: &'static [Scenario],
    pub real: &'static str,
    pub stub: &'static str,
}

pub const REAL: &str = "gvas (all of src/), flate2/miniz_oxide, byteorder, indexmap, standard library: real code, built from /repo's working tree";
pub const STUB: &str = "the stream (simulated file), the memory allocator's accounting and limit, hash seeds; expected bytes and documents come from the reference model and encoder";

pub const ALL: &[&Check] = &[
    &c01::CHECK,
    &c02::CHECK,
    &c03::CHECK,
    &c04::CHECK,
    &c05::CHECK,
    &c06::CHECK,
    &c07::CHECK,
    &c08::CHECK,
    &c09::CHECK,
    &c10::CHECK,
    &c11::CHECK,
    &c12::CHECK,
    &c13::CHECK,
    &c14::CHECK,
    &c19::CHECK,
    &c20::CHECK,
    &c21::CHECK,
    &c22::CHECK,
    #[cfg(feature = "json")]
    &c15::CHECK,
];

pub fn find(id: &str) -> &'static Check {
    for c in ALL {
        if c.id == id {
            return c;
        }
    }
    eprintln!("HARNESS-ERROR: no check {id}");
    std::process::exit(2)
}
