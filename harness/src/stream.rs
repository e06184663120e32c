//! `Bitstream`: the container and every entry until the end or the first error.

use llvm_bitstream::error::Error;
use llvm_bitstream::parser::StreamEntry;
use llvm_bitstream::{BitcodeWrapper, Bitstream};
use serde_json::{json, Value};

use crate::{bytes, guard, limbs, with_peak};

type Opened<'a> = Result<(Option<BitcodeWrapper>, Bitstream<&'a [u8]>), Error>;

fn open<'a>(data: &'a [u8], kind: &str) -> Opened<'a> {
    match kind {
        "raw" => Bitstream::from_raw(data).map(|s| (None, s)),
        "wrapped" => Bitstream::from_wrapped(data).map(|(w, s)| (Some(w), s)),
        "auto" => Bitstream::from(data),
        _ => panic!("kind {}", kind),
    }
}

fn entry(e: Option<Result<StreamEntry, Error>>) -> Value {
    match e {
        None => json!({"t": "eos"}),
        Some(Err(_)) => json!({"t": "err"}),
        Some(Ok(StreamEntry::EndBlock)) => json!({"t": "end"}),
        Some(Ok(StreamEntry::SubBlock(b))) => {
            json!({"t": "block", "id": limbs(b.block_id), "len": limbs(b.len)})
        }
        Some(Ok(StreamEntry::Record(r))) => json!({
            "t": "rec",
            "ab": r.abbrev_id.map_or(json!([]), limbs),
            "code": limbs(r.code),
            "f": r.fields.into_iter().map(limbs).collect::<Vec<_>>(),
        }),
    }
}

pub fn exec(case: &Value) -> Value {
    let data = bytes(&case["data"]);
    let keep = case["mode"] != "crash";
    let (opened, mut peak) = with_peak(|| guard(|| open(&data, case["kind"].as_str().unwrap())));
    let panicked = json!({"out": "panic"});
    let (wrapper, mut stream) = match opened {
        Err(()) => return panicked,
        Ok(Err(_)) => {
            return json!({"out": "ok", "open": "err", "magic": [], "wrapper": [], "ev": [], "n": 0,
                          "last": "rejected", "peak": peak >> 10})
        }
        Ok(Ok(x)) => x,
    };
    let (mut ev, mut n, mut past) = (vec![], 0u64, 0);
    let last = loop {
        let (e, p) = with_peak(|| guard(|| stream.next()));
        peak = peak.max(p);
        let e = match e {
            Err(()) => return panicked,
            Ok(e) => e,
        };
        let last = match &e {
            None => "eos",
            Some(Err(_)) => "err",
            _ => "",
        };
        n += 1;
        if keep {
            ev.push(entry(e));
        }
        // The end stays the end.
        if last == "eos" && past < 2 {
            past += 1;
            n -= 1;
        } else if !last.is_empty() {
            break last;
        }
    };
    // Asking on after an error is harmless, whatever the answers.
    if last == "err" && guard(|| (0..32).for_each(|_| drop(stream.next()))).is_err() {
        return panicked;
    }
    // From an owned source and without the iterator, it is the same.
    let same = guard(|| {
        let mut other = match case["kind"].as_str().unwrap() {
            "raw" => Bitstream::from_raw(data.clone()).unwrap(),
            "wrapped" => Bitstream::from_wrapped(data.clone()).unwrap().1,
            _ => Bitstream::from(data.clone()).unwrap().1,
        };
        other.magic == stream.magic
            && ev.iter().all(|e| match other.advance() {
                Err(Error::Exhausted) => *e == entry(None),
                // Only blocks convert to blocks.
                Ok(StreamEntry::SubBlock(b)) => {
                    let again = StreamEntry::SubBlock(b).as_block().map(StreamEntry::SubBlock);
                    again.map_or(false, |b| *e == entry(Some(Ok(b))))
                }
                Ok(StreamEntry::EndBlock) => *e == entry(Some(Ok(StreamEntry::EndBlock))) && StreamEntry::EndBlock.as_block().is_none(),
                r => *e == entry(Some(r)),
            })
    });
    json!({
        "out": if same == Ok(true) { "ok" } else { "differs" }, "open": "ok", "magic": limbs(stream.magic.into()),
        "wrapper": wrapper.map_or(json!([]), |w| json!([
            limbs(w.magic.into()), limbs(w.version.into()), limbs(w.offset.into()),
            limbs(w.size.into()), limbs(w.cpu_type.into())])),
        "ev": ev, "n": n, "last": last, "peak": peak >> 10,
    })
}
