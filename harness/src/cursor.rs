//! `BitCursor`: sequences of operations, with everything the caller can see after each.

use std::io::{Seek, SeekFrom};

use llvm_bitcursor::BitCursor;
use serde_json::{json, Value};

use crate::{bytes, guard, limbs};

type Res = Result<Value, ()>;

fn num(op: &Value, key: &str) -> u64 {
    op[key].as_str().unwrap().parse::<u64>().unwrap()
}
fn snum(op: &Value, key: &str) -> i64 {
    op[key].as_str().unwrap().parse::<i64>().unwrap()
}

fn typed(cur: &mut BitCursor<Vec<u8>>, t: &str, n: Option<usize>) -> Res {
    macro_rules! go {
        ($t:ty) => {{
            let r = match n {
                Some(n) => cur.read_as::<$t>(n),
                None => cur.read_exact::<$t>(),
            };
            // A result that doesn't fit must not have been returned in the first place.
            r.map(|v| limbs(v as u64)).map_err(|_| ())
        }};
    }
    match t {
        "u8" => go!(u8),
        "u16" => go!(u16),
        "u32" => go!(u32),
        "u64" => go!(u64),
        "usize" => go!(usize),
        "i8" => go!(i8),
        "i16" => go!(i16),
        "i32" => go!(i32),
        "i64" => go!(i64),
        _ => panic!("type {}", t),
    }
}

fn step(cur: &mut BitCursor<Vec<u8>>, op: &Value) -> Res {
    match op["op"].as_str().unwrap() {
        "read" => cur.read(num(op, "ns") as usize).map(limbs).map_err(|_| ()),
        "read_as" => typed(cur, op["t"].as_str().unwrap(), Some(num(op, "ns") as usize)),
        "exact" => typed(cur, op["t"].as_str().unwrap(), None),
        "vbr" => cur.read_vbr(num(op, "ns") as usize).map(limbs).map_err(|_| ()),
        "svbr" => cur
            .read_svbr(num(op, "ns") as usize)
            .map(|v| {
                let mut out = limbs(v.unsigned_abs() as u64);
                out.as_array_mut().unwrap().insert(0, json!((v < 0) as u8));
                out
            })
            .map_err(|_| ()),
        "align" => {
            cur.align32();
            Ok(json!([]))
        }
        "seek_bit" => cur.seek_bit(num(op, "xs") as usize).map(|_| json!([])).map_err(|_| ()),
        "seek_start" => cur.seek(SeekFrom::Start(num(op, "xs"))).map(limbs).map_err(|_| ()),
        "seek_end" => cur.seek(SeekFrom::End(snum(op, "xs"))).map(limbs).map_err(|_| ()),
        "seek_cur" => cur.seek(SeekFrom::Current(snum(op, "xs"))).map(limbs).map_err(|_| ()),
        "rewind" => cur.rewind().map(|_| json!([])).map_err(|_| ()),
        other => panic!("op {}", other),
    }
}

fn exec_inner(case: &Value) -> Value {
    let data = bytes(&case["data"]);
    let made = guard(|| match case["win"].as_str() {
        None => Ok(BitCursor::new(data)),
        Some(w) => BitCursor::new_with_len(data, w.parse().unwrap()),
    });
    let mut cur = match made {
        Err(()) => return json!({"new": "panic", "ops": []}),
        Ok(Err(_)) => return json!({"new": "err", "ops": []}),
        Ok(Ok(cur)) => cur,
    };
    let lens = json!([cur.byte_len(), cur.bit_len()]);
    let mut ops = vec![];
    for op in case["ops"].as_array().unwrap() {
        let o = guard(|| {
            let r = step(&mut cur, op);
            json!({
                "res": if r.is_ok() { "ok" } else { "err" },
                "v": r.unwrap_or_else(|_| json!([])),
                "pos": cur.tell_bit(), "tb": cur.tell_byte(), "ex": cur.exhausted(),
                "sp": cur.stream_position().unwrap(),
            })
        });
        match o {
            Ok(o) => ops.push(o),
            Err(()) => {
                ops.push(json!({"res": "panic"}));
                break;
            }
        }
    }
    json!({"new": "ok", "lens": lens, "ops": ops})
}

pub fn exec(case: &Value) -> Value {
    let mut v = exec_inner(case);
    v["out"] = json!("ok");
    v
}
