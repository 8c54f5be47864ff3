//! C12: corruption inside a compressed save is detected.

use super::damage::*;
use super::*;
use crate::checks::common::*;
use crate::enc::*;
use crate::glue;
use crate::model::Container;
use crate::rt::Out;
use crate::simio::*;

pub const CHECK: Check = Check { id: "C12", run, quick_runs: 800_000, batch: 4000, scenarios: &[], real: REAL, stub: STUB };

/// Changes a few stored bytes where they are.
fn scratch(c: &mut Ctx, b: &mut [u8]) {
    let n = b.len();
    let k = 1 + c.weighted(FAULT, &[8, 3, 2, 1]);
    for _ in 0..k {
        let at = match c.weighted(FAULT, &[6, 2, 2, 3]) {
            0 => c.choose(FAULT, n),
            1 => c.choose(FAULT, n.min(12)),
            2 => 12 + c.choose(FAULT, (n - 12).min(16)),
            _ => n - 1 - c.choose(FAULT, (n - 12).min(16)),
        };
        match c.weighted(FAULT, &[4, 3, 1, 1]) {
            0 => {
                b[at] ^= 1 << c.choose(FAULT, 8);
                c.fault("flipped_bit");
            }
            1 => {
                b[at] = c.choose(FAULT, 256) as u8;
                c.fault("overwritten_byte");
            }
            2 => {
                let e = (at + 1 + c.choose(FAULT, 64)).min(n);
                b[at..e].fill(0);
                c.fault("zeroed_block");
            }
            _ => {
                let from = c.choose(FAULT, n);
                let k = (1 + c.choose(FAULT, 32)).min(n - at).min(n - from);
                b.copy_within(from..from + k, at);
                c.fault("transplanted_block");
            }
        }
    }
}

/// What the stored bytes decode to if every checksum in them is right.
fn checksummed(b: &[u8]) -> Option<Vec<u8>> {
    let payload = b.get(12..)?;
    match b[11] {
        0x31 => unzlib_strict(payload, 1 << 30).ok().map(|x| x.0),
        0x32 => unzlib_strict(&unzlib_len(payload, 1 << 30), 1 << 30).ok().map(|x| x.0),
        _ => None,
    }
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let cont = if c.choose(OP, 2) == 0 { Container::PlzZlib } else { Container::PlzTwice };
    let s = document(c, cont, false);
    let hints = hint_map(&s.hints);
    let want = glue::expected(&s.doc);
    let plain = encode_doc(&s.doc, &s.hints, None).plain;
    let level = |c: &mut Ctx| if c.choose(OP, 2) == 0 { 0 } else { c.choose(OP, 10) as u32 };
    let lv = (level(c), level(c));
    let whole = if c.chance(OP, 1, 4) {
        // as the library itself stores it
        let mut f = SimFile::new(Vec::new(), Plan::clean());
        match save(&mut f, &glue::build(&s.doc)) {
            Out::Ret(Ok(())) => f.data,
            _ => wrap(&plain, cont, lv),
        }
    } else {
        wrap(&plain, cont, lv)
    };
    let rounds = 2 + c.choose(FAULT, 6);
    for _ in 0..rounds {
        let b = if c.chance(FAULT, 1, 5) {
            let mut t = Target::raw(whole.clone()).with_container_fields();
            damage(c, &mut t);
            t.bytes
        } else {
            let mut b = whole.clone();
            scratch(c, &mut b);
            b
        };
        if b == whole {
            continue;
        }
        c.digest.bytes(&b);
        let plan = if c.chance(FAULT, 1, 8) { Plan::benign(c) } else { Plan::clean() };
        let mut f = SimFile::new(b, plan);
        f.plan.max_calls = 100_000 + 64 * f.data.len() as u64;
        let r = load(&mut f, cont, &hints);
        f.settle(c, "load");
        c.eval();
        match r {
            Out::Ret(Ok(d)) => {
                if let Some(x) = glue::diff(&glue::project(&d), &want) {
                    // A collision of the format's own checksum cannot be noticed.
                    if checksummed(&f.data).is_some_and(|p| p != plain) {
                        c.probe("checksum collision");
                        continue;
                    }
                    return violation("corruption not detected", format!("{cont:?}: {x}"));
                }
                c.probe("change without effect");
            }
            Out::Ret(Err(_)) => c.probe("detected"),
            Out::Panic(p) => return violation("panic while loading", p),
            _ => return violation("load does not end", String::new()),
        }
    }
    Ok(())
}
