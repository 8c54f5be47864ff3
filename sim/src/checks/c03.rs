//! C03: a load depends only on the bytes.

use super::items::*;
use super::*;
use crate::checks::common::*;
use crate::enc::wrap;
use crate::model::Container;
use crate::rt::{Out, guard};
use crate::simio::*;

pub const CHECK: Check = Check { id: "C03", run, quick_runs: 1_000_000, batch: 5000, scenarios: &[], real: REAL, stub: STUB };

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let item = Item::draw(c, ANY);
    let alt = if c.chance(OP, 1, 2) { Some(Rng::new(c.choose(OP, 1 << 16) as u64)) } else { None };
    let lv = (c.choose(OP, 10) as u32, c.choose(OP, 10) as u32);
    let broken = c.chance(OP, 1, 2);
    let enc = item.encoded(alt);
    let cont = item.container();
    let mut stored;
    if broken {
        stored = damaged(c, &enc, cont, lv);
    } else {
        stored = wrap(&enc.plain, cont, lv);
    }
    if broken && stored.len() > 1 << 20 {
        stored.truncate(1 << 20);
    }
    // The item lies somewhere inside a larger stream.
    let off = match c.weighted(OP, &[3, 1, 1]) {
        0 => 0,
        1 => c.choose(OP, 40),
        _ => c.choose(OP, 5000),
    };
    let mut bytes = vec![0xEE; off];
    bytes.extend_from_slice(&stored);
    if !broken {
        let mut r = Rng::new(c.choose(OP, 1 << 16) as u64);
        let n = [0, 1, 4, 60, 3000][c.choose(OP, 5)];
        bytes.extend((0..n).map(|_| r.next() as u8));
    }
    c.note(|| format!("{} of {} bytes at {off}, {}", item.name(), stored.len(), if broken { "damaged" } else { "intact" }));

    let deliveries = if broken { 3 } else { 2 };
    let mut first: Option<String> = None;
    for d in 0..deliveries {
        let mut plan = if d == 0 && broken { Plan::clean() } else { Plan::benign(c) };
        plan.max_calls = 2000 + 40 * bytes.len() as u64;
        if broken {
            plan.origin = 0;
        }
        let mut f = SimFile::new(bytes.clone(), plan).at(off as u64).traced(c);
        let r = guard(|| item.read(&mut f));
        f.settle(c, "load");
        c.eval();
        if broken {
            let text = match r {
                Out::Ret(Ok(g)) => {
                    c.probe("damaged but accepted");
                    format!("{g:?}")
                }
                Out::Ret(Err(e)) => format!("{e:?} / {e}"),
                Out::Panic(p) => format!("panic {p}"),
                Out::Limit => "does not end".into(),
                Out::Injected => "unwound".into(),
            };
            c.digest.bytes(text.as_bytes());
            match &first {
                None => first = Some(text),
                Some(t) if *t != text => {
                    let at = t.bytes().zip(text.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(80);
                    let cut = |s: &str| clip(&s.chars().skip(at.min(s.chars().count().saturating_sub(1))).collect::<String>(), 300);
                    return violation("outcome depends on the delivery", format!("{}: {} / {}", item.name(), cut(t), cut(&text)));
                }
                _ => {}
            }
        } else {
            match r {
                Out::Ret(Ok(g)) => {
                    if g != item.expected() {
                        return violation("wrong document", format!("{}: {} instead of {}", item.name(), glue_clip(&g), glue_clip(&item.expected())));
                    }
                }
                Out::Ret(Err(e)) => return violation("intact item not accepted", format!("{}: {}", item.name(), err_text(&e))),
                Out::Panic(p) => return violation("panic", format!("{}: {p}", item.name())),
                _ => return violation("load does not end", item.name().into()),
            }
        }
    }
    if cont == Container::Plain && off > 0 {
        c.probe("item inside a larger stream");
    }
    Ok(())
}

fn glue_clip<T: std::fmt::Debug>(t: &T) -> String {
    crate::glue::clipd(t)
}
