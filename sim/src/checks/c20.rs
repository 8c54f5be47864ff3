//! C20: a load or save gives back all the memory it took.

use super::c06::case;
use super::c08::spoiled;
use super::items::*;
use super::*;
use crate::alloc::held_after;
use crate::checks::common::*;
use crate::glue;
use crate::rt::{Out, guard};
use crate::simio::*;
use std::collections::HashMap;

pub const CHECK: Check = Check { id: "C20", run, quick_runs: 250_000, batch: 2500, scenarios: &[], real: REAL, stub: STUB };

fn ended<T>(r: Out<Result<T, gvas::error::Error>>) -> &'static str {
    match r {
        Out::Ret(Ok(v)) => {
            drop(v);
            "success"
        }
        Out::Ret(Err(e)) => {
            let _ = e.to_string();
            "failure"
        }
        Out::Panic(_) => "panic",
        Out::Limit => "call limit",
        Out::Injected => "unwinding",
    }
}

/// Bytes still held after the operation, its stream and its result are gone.
fn held(times: u32, op: &dyn Fn(&mut SimFile) -> &'static str, bytes: &[u8], start: u64, plan: &Plan) -> i64 {
    held_after(|| {
        for _ in 0..times {
            let mut f = SimFile::new(bytes.to_vec(), plan.clone()).at(start);
            op(&mut f);
        }
    })
}

fn run(c: &mut Ctx) -> Result<(), Violation> {
    let what = c.weighted(OP, &[3, 3, 3, 1]);
    let mut base = Plan::benign(c);
    let (bytes, start, op): (Vec<u8>, u64, Box<dyn Fn(&mut SimFile) -> &'static str>) = match what {
        0 => {
            let item = Item::draw(c, ANY);
            let lv = (c.choose(OP, 10) as u32, c.choose(OP, 10) as u32);
            let bytes = item.stored(None, lv);
            let hints: HashMap<String, String> = if c.chance(OP, 1, 4) { HashMap::new() } else { item.hints() };
            c.note(|| format!("load of {} from {} bytes", item.name(), bytes.len()));
            (bytes, 0, Box::new(move |f| ended(guard(|| item.read_raw(f, &hints, &mut item.path())))))
        }
        1 => {
            let k = case(c, Want { file: 6, parts: 4, prims: 1 });
            base.max_calls = 4000 + 64 * k.bytes.len() as u64;
            c.note(|| format!("load of {} from {} damaged bytes", k.item.name(), k.bytes.len()));
            (k.bytes, 0, Box::new(move |f| ended(guard(|| k.item.read_raw(f, &k.hints, &mut k.item.path())))))
        }
        2 => {
            let item = Item::draw(c, ANY);
            let old = old_content(c, 200);
            let start = start_offset(c, old.len());
            c.note(|| format!("save of {}", item.name()));
            (old, start, Box::new(move |f| ended(guard(|| item.write(f)))))
        }
        _ => {
            let (doc, how) = spoiled(c);
            c.note(|| format!("refused save, {how}"));
            (Vec::new(), 0, Box::new(move |f| {
                let g = glue::build(&doc);
                ended(save(f, &g))
            }))
        }
    };
    let mut plan = base.clone();
    if c.chance(FAULT, 3, 4) {
        let mut dry = SimFile::new(bytes.clone(), base).at(start);
        op(&mut dry);
        let (n, end) = (dry.calls.max(1), dry.max_off);
        dry.settle(c, "dry run");
        if what < 2 && c.chance(FAULT, 1, 4) {
            plan.eof_at = Some(c.choose(FAULT, bytes.len() + 1) as u64);
        } else {
            place_failures(c, &mut plan, n, start, end);
            // A stream that fails and then panics while the failure is passed on
            // makes the language itself lose the value being returned.
            if let Some(p) = plan.events.iter().find(|e| e.1 == Ev::Panic).copied() {
                plan.events = vec![p];
                plan.capacity = None;
            }
        }
    }
    let mut f = SimFile::new(bytes.clone(), plan.clone()).at(start).traced(c);
    let how = op(&mut f);
    f.settle(c, "operation");
    c.digest.bytes(how.as_bytes());
    c.probe(how);

    // Something may be set up once; what matters is that it does not go on.
    held(2, &op, &bytes, start, &plan);
    let more = held(3, &op, &bytes, start, &plan);
    c.eval();
    if more > 0 {
        c.probe("held on to memory at first");
        held(60, &op, &bytes, start, &plan);
        let a = held(64, &op, &bytes, start, &plan);
        let b = held(64, &op, &bytes, start, &plan);
        if a > 0 && b > 0 {
            let kind = ["load", "load of damaged bytes", "save", "refused save"][what];
            return violation("memory not given back", format!("{kind} ending in {how}: {} bytes more after 128 repetitions", a + b));
        }
    }
    Ok(())
}
