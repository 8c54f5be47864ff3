//! C07: memory held by a load is bounded by a multiple of its input.

use super::c06::case;
use super::items::*;
use super::*;
use crate::alloc::measured;
use crate::enc::unzlib_len;
use crate::model::Container;
use crate::rt::{Out, guard};
use crate::simio::*;

pub const CHECK: Check = Check { id: "C07", run, quick_runs: 1_200_000, batch: 4000, scenarios: &[], real: REAL, stub: STUB };

pub const FACTOR: u64 = 1024;
pub const BASE: u64 = 1 << 20;

/// Bytes a load of `b` is given, counting what it unpacks to.
fn given(b: &[u8], palworld: bool) -> u64 {
    let mut n = b.len();
    if palworld && b.len() > 12 {
        match b[11] {
            0x31 => n += unzlib_len(&b[12..], 1 << 30).len(),
            0x32 => {
                let mid = unzlib_len(&b[12..], 1 << 30);
                n += mid.len() + unzlib_len(&mid, 1 << 30).len();
            }
            _ => {}
        }
    }
    n as u64
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let k = case(c, Want { file: 6, parts: 4, prims: 1 });
    let mut plan = if c.chance(FAULT, 1, 8) { Plan::benign(c) } else { Plan::clean() };
    plan.max_calls = 4000 + 64 * k.bytes.len() as u64;
    let n = given(&k.bytes, k.item.container() != Container::Plain);
    // the table is the caller's, but made while the load is measured
    let bound = FACTOR * n + BASE + 256 * k.item.table();
    c.note(|| format!("load of {} from {} bytes, {n} after decompression, bound {bound}", k.item.name(), k.bytes.len()));
    c.digest.bytes(&k.bytes);
    let mut f = SimFile::new(k.bytes, plan);
    let mut stack = k.item.path();
    let (r, u) = measured((bound + (64 << 20)) as i64, || guard(|| k.item.read_raw(&mut f, &k.hints, &mut stack).is_ok()));
    f.settle(c, "load");
    c.eval();
    let per = u.peak.max(0) as u64 / n.max(1);
    if n > 4096 {
        c.probe(match per {
            0..=15 => "peak under 16 times the input",
            16..=63 => "peak 16 to 64 times the input",
            64..=255 => "peak 64 to 256 times the input",
            256..=511 => "peak 256 to 512 times the input",
            _ => "peak over 512 times the input",
        });
    }
    if u.peak > bound as i64 {
        return violation(
            "memory out of proportion",
            format!("{}: {} bytes held (largest block {}) for {n} bytes of input", k.item.name(), u.peak, u.largest),
        );
    }
    match r {
        Out::Ret(true) => c.probe("accepted"),
        Out::Ret(false) => c.probe("rejected"),
        // Crashes are C06's subject.
        _ => c.probe("crashed"),
    }
    Ok(())
}
