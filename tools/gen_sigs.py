#!/usr/bin/env python3
"""Writes harness/src/props/sigs.rs: a filter of every signature shape."""
import itertools, os
OWNED = [("()", "Unit"), ("bool", "Bool"), ("u8", "U8"), ("u16", "U16"), ("u32", "U32"), ("u64", "U64"), ("u128", "U128"),
         ("usize", "Usize"), ("i8", "I8"), ("i16", "I16"), ("i32", "I32"), ("i64", "I64"), ("i128", "I128"), ("isize", "Isize"),
         ("f32", "F32"), ("f64", "F64"), ("String", "Str"), ("Vec<Value>", "List"), ("BTreeMap<String, Value>", "Map"), ("Value", "Value")]
REFS = [("&str", "StrRef"), ("&[Value]", "ListRef"), ("&BTreeMap<String, Value>", "MapRef"), ("&Value", "ValueRef")]
STR = REFS[0]
turn = 0
def owned():
    global turn
    turn += 1
    # Mostly types that convert from common values.
    return OWNED[(turn * 7) % len(OWNED)]
sigs = []
for t in OWNED + REFS:
    sigs.append([t])
# Every type in the first argument, receivers in turn.
for i, t in enumerate(OWNED + [STR]):
    sigs.append([(REFS + [OWNED[19], OWNED[11]])[i % 6], t])
# Every shape of every arity.
for n in range(1, 5):
    for recv in [None] + REFS:
        for args in itertools.product([False, True], repeat=n):
            sigs.append([recv or owned()] + [STR if a else owned() for a in args])
# Every type in every later position.
for pos in (2, 3, 4):
    for i, t in enumerate(OWNED):
        s = [REFS[i % 4] if i % 2 else OWNED[19]] + [OWNED[(i * 3 + k) % 20] if (i + k) % 2 else OWNED[19] for k in range(pos - 1)] + [t]
        sigs.append(s)
out = ["//! Written by tools/gen_sigs.py.", "", "use std::collections::BTreeMap;", "", "use upon::Value;", "",
       "use crate::funcs::{Filter, Shape, Ty};", "use crate::reg_filter;", "", "pub static SIGS: &[Filter] = &["]
for s in sigs:
    names = "vabcd"
    params = ", ".join(f"{n}: {t}" for n, (t, _) in zip(names, s))
    tys = ", ".join(f"Ty::{k}" for _, k in s)
    out.append(f"    Filter {{ params: &[{tys}], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!({params}), result: Shape::List }},")
out.append("];")
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/props/sigs.rs")
open(p, "w").write("\n".join(out) + "\n")
print(len(sigs))
