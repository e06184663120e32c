//! The support types: codes, alignments and their tables, layouts, types and operations.
//!
//! A case is a history of events over a pool of types, a type alignment table and a pointer
//! alignment table.

use std::cmp::Ordering;
use std::convert::TryFrom;
use std::fmt::Debug;

use llvm_mapper::block::BlockId;
use llvm_mapper::record::{DataLayout, SelectionKind};
use llvm_support::bitcodes::*;
use llvm_support::*;
use serde_json::{json, Value};

use crate::{guard, limbs};

struct State {
    pool: Vec<Type>,
    types: TypeAlignSpecs,
    pointers: PointerAlignSpecs,
}

fn dbg(v: &impl Debug) -> Value {
    json!(format!("{:?}", v))
}

fn opt<T, E>(r: Result<T, E>, f: impl FnOnce(T) -> Value) -> Value {
    r.map_or(json!([]), |v| json!([f(v)]))
}

fn u(v: &Value) -> u64 {
    match v {
        // Numbers beyond 2^53 are passed as text.
        Value::String(s) => s.parse().unwrap(),
        v => v.as_u64().unwrap(),
    }
}

fn code(table: &str, n: u64) -> Value {
    // The entity, and the code it says it has (if it does).
    macro_rules! tried {
        ($t:ty) => {
            opt(<$t>::try_from(n), |v| json!([format!("{:?}", v), []]))
        };
    }
    macro_rules! both {
        ($t:ty) => {
            opt(<$t>::try_from(n), |v| json!([format!("{:?}", v), [limbs(u64::from(v))]]))
        };
    }
    match table {
        "Linkage" => tried!(Linkage),
        "Visibility" => both!(Visibility),
        "DllStorageClass" => both!(DllStorageClass),
        "ThreadLocalMode" => both!(ThreadLocalMode),
        "UnnamedAddr" => both!(UnnamedAddr),
        "RuntimePreemption" => both!(RuntimePreemption),
        "CallingConvention" => tried!(CallingConvention),
        "SelectionKind" => tried!(SelectionKind),
        "BlockId" => {
            // However it's converted, it's the same.
            let other = ReservedBlockId::try_from(n)
                .map(BlockId::from)
                .or_else(|_| IrBlockId::try_from(n).map(BlockId::from))
                .unwrap_or(BlockId::Unknown(n));
            json!([if BlockId::from(n) == other { json!([format!("{:?}", other), []]) } else { json!(["Odd(0)", []]) }])
        }
        "ReservedBlockId" => tried!(ReservedBlockId),
        "IrBlockId" => tried!(IrBlockId),
        "ReservedAbbrevId" => tried!(ReservedAbbrevId),
        "AbbrevOpEnc" => tried!(AbbrevOpEnc),
        "BlockInfoCode" => tried!(BlockInfoCode),
        "IdentificationCode" => tried!(IdentificationCode),
        "ModuleCode" => both!(ModuleCode),
        "TypeCode" => both!(TypeCode),
        "StrtabCode" => both!(StrtabCode),
        "SymtabCode" => both!(SymtabCode),
        "AttributeCode" => both!(AttributeCode),
        "FunctionCode" => both!(FunctionCode),
        "UnaryOpcode" => both!(UnaryOpcode),
        "BinaryOpcode" => both!(BinaryOpcode),
        "RMWOperation" => both!(RMWOperation),
        "AttributeKind" => tried!(AttributeKind),
        "AttributeId" => tried!(AttributeId),
        "UnaryOp" => tried!(UnaryOp),
        t => panic!("no table {}", t),
    }
}

fn views(a: Align) -> Value {
    let bits = if a.shift() <= 60 { json!([limbs(a.bit_align())]) } else { json!([]) };
    let shown = a.to_string().parse::<u64>() == Ok(a.byte_align());
    json!([limbs(a.shift().into()), limbs(if shown { a.byte_align() } else { 0 }), bits])
}

fn scalar(op: &str, n: u64) -> Value {
    let narrow = |f: &dyn Fn(u32) -> Value| u32::try_from(n).map_or(json!("wide"), f);
    match op {
        "shift" => u8::try_from(n).map_or(json!("wide"), |s| opt(Align::from_shift(s), views)),
        "bytes" => opt(Align::from_byte_align(n), views),
        "bits" => opt(Align::from_bit_align(n), views),
        "maybe" => u8::try_from(n).map_or(json!("wide"), |s| opt(MaybeAlign::try_from(s), |a| dbg(&a))),
        "width" => narrow(&|w| opt(AlignedTypeWidth::try_from(w), |w| dbg(&w))),
        "space32" => narrow(&|w| opt(AddressSpace::try_from(w), |w| dbg(&w))),
        "space64" => opt(AddressSpace::try_from(n), |w| dbg(&w)),
        o => panic!("no operation {}", o),
    }
}

/// The documented constants: numbers, or what numbers the typed ones stand for.
fn constants() -> Value {
    let width = |w: AlignedTypeWidth| -> u64 {
        (1..1024u32).find(|&n| AlignedTypeWidth::try_from(n).ok() == Some(w)).unwrap_or(0).into()
    };
    let float = |t: AlignedType| if let AlignedType::Float(w) = t { width(w) } else { 0 };
    let integer = |t: AlignedType| if let AlignedType::Integer(w) = t { width(w) } else { 0 };
    let all: Vec<(&str, u64)> = vec![
        ("ALIGN8", Align::ALIGN8.byte_align()),
        ("ALIGN16", Align::ALIGN16.byte_align()),
        ("ALIGN32", Align::ALIGN32.byte_align()),
        ("ALIGN64", Align::ALIGN64.byte_align()),
        ("ALIGN128", Align::ALIGN128.byte_align()),
        ("MAX_SHIFT", Align::MAX_SHIFT.into()),
        ("MAX_ALIGN", TypeAlignSpec::MAX_ALIGN.byte_align()),
        ("MAX_TYPE_BIT_WIDTH", TypeAlignSpec::MAX_TYPE_BIT_WIDTH.into()),
        ("MAX_WIDTH", AlignedTypeWidth::MAX.into()),
        ("MAX_SPACE", AddressSpace::MAX.into()),
        ("DEFAULT_SPACE", AddressSpace::try_from(0u32).map_or(9, |s| (s != AddressSpace::default()).into())),
        ("DEFAULT_POINTER", {
            let p = PointerAlignSpec::default();
            let (a, b) = (p.abi_alignment.bit_align(), p.preferred_alignment.bit_align());
            let space = p.address_space == AddressSpace::default();
            if space && a == b && a == p.pointer_size && a == p.index_size { a } else { 0 }
        }),
        ("WIDTH1", width(AlignedTypeWidth::WIDTH1)),
        ("WIDTH8", width(AlignedTypeWidth::WIDTH8)),
        ("WIDTH16", width(AlignedTypeWidth::WIDTH16)),
        ("WIDTH32", width(AlignedTypeWidth::WIDTH32)),
        ("WIDTH64", width(AlignedTypeWidth::WIDTH64)),
        ("WIDTH128", width(AlignedTypeWidth::WIDTH128)),
        ("FLOAT16", float(AlignedType::FLOAT16)),
        ("FLOAT32", float(AlignedType::FLOAT32)),
        ("FLOAT64", float(AlignedType::FLOAT64)),
        ("FLOAT128", float(AlignedType::FLOAT128)),
        ("INTEGER1", integer(AlignedType::INTEGER1)),
        ("INTEGER8", integer(AlignedType::INTEGER8)),
        ("INTEGER16", integer(AlignedType::INTEGER16)),
        ("INTEGER32", integer(AlignedType::INTEGER32)),
        ("INTEGER64", integer(AlignedType::INTEGER64)),
        ("MIN_INT_BITS", IntegerType::MIN_INT_BITS.into()),
        ("MAX_INT_BITS", IntegerType::MAX_INT_BITS.into()),
        ("LLVM_IR_MAGIC", LLVM_IR_MAGIC.into()),
        ("BITCODE_WRAPPER_MAGIC", BITCODE_WRAPPER_MAGIC.into()),
        ("INITIAL_ABBREV_ID_WIDTH", INITIAL_ABBREV_ID_WIDTH),
        ("FIRST_APPLICATION_ABBREV_ID", FIRST_APPLICATION_ABBREV_ID as u64),
        ("FIRST_APPLICATION_BLOCK_ID", FIRST_APPLICATION_BLOCK_ID),
    ];
    json!([
        all.into_iter().map(|(k, v)| (k.to_string(), limbs(v))).collect::<std::collections::BTreeMap<_, _>>(),
        CHAR6_ALPHABET
    ])
}

fn order<T: Ord>(a: T, b: T) -> Value {
    // All the ways of comparing have to agree.
    let c = a.cmp(&b);
    let agree = a.partial_cmp(&b) == Some(c)
        && (a == b) == (c == Ordering::Equal)
        && (a < b) == (c == Ordering::Less)
        && b.cmp(&a) == c.reverse();
    json!(if agree { c as i8 } else { 9 })
}

fn compare(what: &str, a: &Value, b: &Value) -> Value {
    let pair = match what {
        "align" => {
            let f = |v: &Value| Align::from_byte_align(u(v)).ok();
            f(a).zip(f(b)).map(|(x, y)| order(x, y))
        }
        "width" => {
            let f = |v: &Value| AlignedTypeWidth::try_from(u32::try_from(u(v)).ok()?).ok();
            f(a).zip(f(b)).map(|(x, y)| order(x, y))
        }
        "space" => {
            let f = |v: &Value| AddressSpace::try_from(u(v)).ok();
            f(a).zip(f(b)).map(|(x, y)| order(x, y))
        }
        "type" => aligned(a).zip(aligned(b)).map(|(x, y)| order(x, y)),
        // Specifications are ordered by what they are for.
        "tspec" => {
            let f = |v: &Value, n| TypeAlignSpec::new(aligned(v)?, Align::from_shift(n).ok()?, Align::from_shift(9).ok()?).ok();
            f(a, 0).zip(f(b, 1)).map(|(x, y)| order(x, y))
        }
        "pspec" => {
            let f = |v: &Value, n| {
                let s = AddressSpace::try_from(u(v)).ok()?;
                PointerAlignSpec::new(s, Align::from_shift(n).ok()?, Align::from_shift(9).ok()?, 8 << n, 8).ok()
            };
            f(a, 0).zip(f(b, 1)).map(|(x, y)| {
                let c = x.cmp(&y);
                json!(if x.partial_cmp(&y) == Some(c) && y.cmp(&x) == c.reverse() { c as i8 } else { 9 })
            })
        }
        o => panic!("no comparison {}", o),
    };
    pair.map_or(json!([]), |v| json!([v]))
}

fn aligned(v: &Value) -> Option<AlignedType> {
    let width = || AlignedTypeWidth::try_from(u32::try_from(u(&v[1])).ok()?).ok();
    Some(match v[0].as_str().unwrap() {
        "Aggregate" => AlignedType::Aggregate,
        "Float" => AlignedType::Float(width()?),
        "Integer" => AlignedType::Integer(width()?),
        "Vector" => AlignedType::Vector(width()?),
        o => panic!("no class {}", o),
    })
}

fn align(v: &Value) -> Option<Align> {
    Align::from_byte_align(u(v)).ok()
}

fn text(v: &Value) -> String {
    String::from_utf8(crate::bytes(v)).unwrap()
}

impl State {
    fn ty(&self, v: &Value) -> Type {
        self.pool[v.as_u64().unwrap() as usize % self.pool.len()].clone()
    }

    fn tys(&self, v: &Value) -> Vec<Type> {
        v.as_array().unwrap().iter().map(|v| self.ty(v)).collect()
    }

    /// Made by the constructor of `Type`, and by that of its payload: they have to agree.
    fn construct(&self, e: &Value) -> Option<(Type, bool)> {
        let space = || AddressSpace::try_from(u(&e["as"])).ok();
        let name = || match &e["name"] {
            Value::Array(a) if a.is_empty() => None,
            v => Some(text(&v[0])),
        };
        let flag = |k: &str| e[k].as_bool().unwrap();
        let (a, b) = match e["c"].as_str().unwrap() {
            "Integer" => {
                let w = u32::try_from(u(&e["w"])).ok()?;
                (Type::new_integer(w).ok(), IntegerType::try_from(w).ok().map(Type::Integer))
            }
            "OpaquePointer" => {
                let t = Type::OpaquePointer(space()?);
                (Some(t.clone()), Some(t))
            }
            "Pointer" => {
                let s = space()?;
                (
                    Type::new_pointer(self.ty(&e["t"]), s).ok(),
                    PointerType::new(self.ty(&e["t"]), s).ok().map(Type::Pointer),
                )
            }
            "Array" => (
                Type::new_array(u(&e["n"]), self.ty(&e["t"])).ok(),
                ArrayType::new(u(&e["n"]), self.ty(&e["t"])).ok().map(Type::Array),
            ),
            "FixedVector" => (
                Type::new_vector(u(&e["n"]), self.ty(&e["t"])).ok(),
                VectorType::new(u(&e["n"]), self.ty(&e["t"])).ok().map(Type::FixedVector),
            ),
            "ScalableVector" => (
                Type::new_scalable_vector(u(&e["n"]), self.ty(&e["t"])).ok(),
                VectorType::new(u(&e["n"]), self.ty(&e["t"])).ok().map(Type::ScalableVector),
            ),
            "Struct" => (
                Type::new_struct(name(), self.tys(&e["f"]), flag("packed")).ok(),
                StructType::new(name(), self.tys(&e["f"]), flag("packed")).ok().map(Type::Struct),
            ),
            "Function" => (
                Type::new_function(self.ty(&e["ret"]), self.tys(&e["params"]), flag("va")).ok(),
                FunctionType::new(self.ty(&e["ret"]), self.tys(&e["params"]), flag("va"))
                    .ok()
                    .map(Type::Function),
            ),
            "Half" => (Some(Type::Half), Some(Type::Half)),
            "BFloat" => (Some(Type::BFloat), Some(Type::BFloat)),
            "Float" => (Some(Type::Float), Some(Type::Float)),
            "Double" => (Some(Type::Double), Some(Type::Double)),
            "Metadata" => (Some(Type::Metadata), Some(Type::Metadata)),
            "X86Fp80" => (Some(Type::X86Fp80), Some(Type::X86Fp80)),
            "Fp128" => (Some(Type::Fp128), Some(Type::Fp128)),
            "PpcFp128" => (Some(Type::PpcFp128), Some(Type::PpcFp128)),
            "Void" => (Some(Type::Void), Some(Type::Void)),
            "Label" => (Some(Type::Label), Some(Type::Label)),
            "X86Mmx" => (Some(Type::X86Mmx), Some(Type::X86Mmx)),
            "X86Amx" => (Some(Type::X86Amx), Some(Type::X86Amx)),
            "Token" => (Some(Type::Token), Some(Type::Token)),
            o => panic!("no constructor {}", o),
        };
        let same = a == b;
        a.or(b).map(|t| (t, same))
    }

    fn exec(&mut self, e: &Value) -> Value {
        let each = |f: &dyn Fn(u64) -> Value| -> Value {
            e["ns"].as_array().unwrap().iter().map(|n| guard(|| f(u(n))).unwrap_or(json!("panic"))).collect()
        };
        match e["e"].as_str().unwrap() {
            "code" => each(&|n| code(e["t"].as_str().unwrap(), n)),
            "scalar" => each(&|n| scalar(e["op"].as_str().unwrap(), n)),
            "compare" => e["ps"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| compare(e["of"].as_str().unwrap(), &p[0], &p[1]))
                .collect(),
            "layout" => opt(text(&e["s"]).parse::<DataLayout>(), |l| dbg(&l)),
            "default" => json!([dbg(&DataLayout::default())]),
            "type" => {
                let made = self.construct(e);
                if let Some((t, _)) = &made {
                    self.pool.push(t.clone());
                }
                made.map_or(json!([]), |(t, same)| {
                    let is = [
                        t.is_floating(),
                        t.is_integer(),
                        t.is_pointee(),
                        t.is_array_element(),
                        t.is_struct_element(),
                        t.is_vector_element(),
                        t.is_argument(),
                        t.is_return(),
                        t.is_floating_or_floating_vector(),
                        t.is_integer_or_integer_vector(),
                    ];
                    let (inner, widths) = match &t {
                        Type::Integer(i) => (None, json!([limbs(i.bit_width().into()), limbs(i.byte_width().into())])),
                        Type::Pointer(p) => (Some(p.pointee()), json!([])),
                        Type::Array(a) => (Some(a.element()), json!([])),
                        Type::FixedVector(v) | Type::ScalableVector(v) => (Some(v.element()), json!([])),
                        _ => (None, json!([])),
                    };
                    json!([{
                        "t": dbg(&t), "same": same, "is": is, "scalar": dbg(&t.scalar_type()),
                        "inner": inner.map_or(json!([]), |t| json!([dbg(t)])), "widths": widths,
                    }])
                })
            }
            "tnew" => {
                let spec = aligned(&e["ty"])
                    .and_then(|t| TypeAlignSpec::new(t, align(&e["abi"])?, align(&e["pref"])?).ok());
                self.type_spec(spec)
            }
            "tparse" => {
                let spec = text(&e["s"]).parse().ok();
                self.type_spec(spec)
            }
            "pnew" => {
                let spec = AddressSpace::try_from(u(&e["as"])).ok().and_then(|s| {
                    PointerAlignSpec::new(s, align(&e["abi"])?, align(&e["pref"])?, u(&e["size"]), u(&e["index"])).ok()
                });
                self.pointer_spec(spec)
            }
            "pparse" => {
                let spec = text(&e["s"]).parse().ok();
                self.pointer_spec(spec)
            }
            "consts" => constants(),
            // Which of the pool's types are equal to one of them, in either direction.
            "equal" => {
                let a = self.ty(&e["t"]);
                self.pool.iter().map(|b| if (a == *b) == (*b == a) { json!(a == *b) } else { json!("odd") }).collect()
            }
            "binop" => each(&|n| {
                opt(BinaryOp::try_from((n, &self.ty(&e["t"]))), |o| dbg(&o))
            }),
            o => panic!("no event {}", o),
        }
    }

    fn type_spec(&mut self, spec: Option<TypeAlignSpec>) -> Value {
        spec.map_or(json!([]), |s| {
            self.types.update(s);
            json!([{"spec": dbg(&s), "table": dbg(&self.types)}])
        })
    }

    fn pointer_spec(&mut self, spec: Option<PointerAlignSpec>) -> Value {
        spec.map_or(json!([]), |s| {
            self.pointers.update(s);
            json!([{"spec": dbg(&s), "table": dbg(&self.pointers)}])
        })
    }
}

pub fn exec(case: &Value) -> Value {
    let mut s = State {
        pool: vec![Type::Void],
        types: TypeAlignSpecs::default(),
        pointers: PointerAlignSpecs::default(),
    };
    let ev: Vec<Value> = case["ev"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| guard(|| s.exec(e)).unwrap_or(json!("panic")))
        .collect();
    json!({"out": "ok", "ev": ev})
}
