//! `Bitcode`: whole streams mapped to modules, with the mapping state seen on the way.

use std::convert::TryFrom;

use llvm_bitstream::Bitstream;
#[cfg(mollusc_verif)]
use llvm_mapper::verif;
use llvm_mapper::Bitcode;
use llvm_support::StrtabRef;
use serde_json::{json, Value};

use crate::{bytes, guard, limbs, with_peak};

/// Without the hook, nothing is seen of the mapping state.
#[cfg(not(mollusc_verif))]
mod verif {
    pub fn start() {}
    pub fn take() -> Vec<(&'static str, String)> {
        vec![]
    }
}

fn text(s: &str) -> Value {
    json!(s.as_bytes())
}

fn modules(code: &Bitcode, lookups: &[(usize, usize)]) -> Value {
    code.modules
        .iter()
        .map(|m| {
            json!({
                "producer": text(&m.identification.producer),
                "epoch": limbs(m.identification.epoch),
                "triple": text(&m.module.triple),
                "asm": m.module.asm.iter().map(|s| text(s)).collect::<Vec<_>>(),
                "deplibs": m.module.deplibs.iter().map(|s| text(s)).collect::<Vec<_>>(),
                "strtab": m.strtab.as_ref(),
                "symtab": m.symtab.as_ref().map_or(json!([]), |s| json!([s.as_ref()])),
                "look": lookups.iter().map(|&(offset, size)| {
                    let sref = StrtabRef { offset, size };
                    let tried = m.strtab.try_get(&sref).ok();
                    // Both ways of asking have to agree.
                    if tried != m.strtab.get(&sref) {
                        json!("ambiguous")
                    } else {
                        tried.map_or(json!([]), |s| json!([text(s)]))
                    }
                }).collect::<Vec<_>>(),
            })
        })
        .collect()
}

fn seen_as_text(seen: Vec<(&'static str, String)>) -> Value {
    seen.iter().map(|(k, v)| json!([k, v])).collect()
}

pub fn exec(case: &Value) -> Value {
    let data = bytes(&case["data"]);
    let lookups: Vec<(usize, usize)> = case["look"].as_array().map_or(vec![], |l| {
        l.iter()
            .map(|p| {
                let n = |i: usize| p[i].as_str().unwrap().parse().unwrap();
                (n(0), n(1))
            })
            .collect()
    });
    let crash = case["mode"] == "crash";
    if !crash {
        verif::start();
    }
    // A stream of which some entries have already been taken.
    let skip = case["skip"].as_u64().unwrap_or(0);
    let rest = |data: Vec<u8>| match Bitstream::from(data) {
        Ok((_, mut s)) => {
            for _ in 0..skip {
                if s.advance().is_err() {
                    return None;
                }
            }
            Bitcode::try_from(s).ok()
        }
        Err(_) => None,
    };
    let (first, peak) = with_peak(|| {
        guard(|| if skip > 0 { rest(data.clone()) } else { Bitcode::try_from(&data[..]).ok() })
    });
    let seen = verif::take();
    let panicked = json!({"out": "panic"});
    let first = match first {
        Err(()) => return panicked,
        Ok(r) => r,
    };
    // The other entry point, and a second time: the result depends on nothing but the bytes.
    let again = guard(|| rest(data.clone()));
    let again = match again {
        Err(()) => return panicked,
        Ok(r) => r,
    };
    // The same content, spelled differently.
    let mut alts = vec![];
    for alt in case["alts"].as_array().unwrap_or(&vec![]) {
        let data = bytes(alt);
        verif::start();
        match guard(|| Bitcode::try_from(&data[..]).ok().map(|c| modules(&c, &lookups))) {
            Err(()) => return panicked,
            Ok(r) => alts.push(json!({
                "res": if r.is_some() { "ok" } else { "err" },
                "modules": r.unwrap_or(json!([])),
                "seen": seen_as_text(verif::take()),
            })),
        }
    }
    let looked = guard(|| first.as_ref().map_or(json!([]), |c| modules(c, &lookups)));
    let looked = match looked {
        Err(()) => return panicked,
        Ok(v) => v,
    };
    json!({
        "out": "ok",
        "res": if first.is_some() { "ok" } else { "err" },
        "same": again.map_or(json!([]), |c| modules(&c, &lookups)) == looked,
        "modules": looked,
        "seen": seen_as_text(seen),
        "alts": alts,
        "peak": peak >> 10,
    })
}
