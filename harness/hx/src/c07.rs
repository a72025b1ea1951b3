//! C07: constant folding and constant construction against the specification.
use crate::explore::*;
use crate::sem::*;
use crate::ensure;
use hugr_core::extension::prelude::{ConstString, ConstUsize, PRELUDE, bool_t, error_type, string_type, usize_t};
use hugr_core::ops::{ExtensionOp, Value, constant::CustomSerialized, dataflow::DataflowOpTrait};
use hugr_core::std_extensions::arithmetic::{
    conversions, float_ops,
    float_types::{ConstF64, float64_type},
    int_ops,
    int_types::{ConstInt, INT_TYPES},
};
use hugr_core::std_extensions::{collections::list, logic};
use hugr_core::types::{SumType, Term, Type, TypeArg};
use hugr_core::{Extension, IncomingPort, PortIndex};
use std::sync::Arc;

/// Folds `op` on constants for all its inputs and compares with the specification.
fn check_fold(op: &ExtensionOp, ins: &[V], cov: &mut Cov) -> Result<(), Fail> {
    let sig = op.signature();
    let mut consts: Vec<(IncomingPort, Value)> = vec![];
    for (k, (v, t)) in ins.iter().zip(sig.input().iter()).enumerate() {
        let Some(c) = v.to_const(t) else { return Err(Fail::Bad { key: String::new(), msg: format!("HARNESS: no constant for {v:?}: {t}") }) };
        consts.push((k.into(), c));
    }
    let ev = eval_ext(op.def().extension_id(), op.def().name(), op.args(), ins);
    let got = match guard(|| op.constant_fold(&consts)) {
        Ok(g) => g,
        Err(p) => return bad_key(format!("fold-panic:{}{}", op.def().name(), if matches!(ev, Ev::Unspecified(_)) { ":unrepresentable" } else { "" }), format!("folding panics: {p}; op {} on {ins:?}", opname(op))),
    };
    compare(op, ins, &ev, got)?;
    cov.step(1);
    Ok(())
}
fn opname(op: &ExtensionOp) -> String {
    format!("{}.{}<{}>", op.def().extension_id(), op.def().name(), op.args().iter().map(|a| a.to_string()).collect::<Vec<_>>().join(","))
}
fn compare(op: &ExtensionOp, ins: &[V], ev: &Ev, got: Option<Vec<(hugr_core::OutgoingPort, Value)>>) -> Result<(), Fail> {
    let Some(mut got) = got else { return Ok(()) };
    got.sort_by_key(|x| x.0.index());
    let sig = op.signature();
    for (p, v) in &got {
        let Some(t) = sig.output().get(p.index()) else {
            return bad(format!("fold produces a value on a port the operation does not have; op {} port {} on {ins:?}", opname(op), p.index()));
        };
        if v.get_type() != *t {
            return bad_key(format!("fold-type:{}.{}:{}:{}->{}", op.def().extension_id(), op.def().name(), p.index(), v.get_type(), t), format!("folded constant has type {} but the output is {}; op {} port {} on {ins:?}", v.get_type(), t, opname(op), p.index()));
        }
        if let Value::Sum(s) = v {
            // the fields inhabit the variant
            if let Some(row) = sum_row(&s.sum_type, s.tag) {
                let ok = row.len() == s.values.len() && s.values.iter().zip(&row).all(|(v, t)| v.get_type() == *t);
                ensure!(ok, "folded sum constant is ill-typed; op {} on {ins:?}: {v:?}", opname(op));
            }
        }
    }
    match ev {
        Ev::Unspecified(_) => Ok(()),
        Ev::Unknown => bad(format!("HARNESS: no semantics for {}", opname(op))),
        Ev::Panic => bad(format!("an operation that panics was folded to a value; op {} on {ins:?} -> {got:?}", opname(op))),
        Ev::Vals(vs) => {
            for (p, v) in &got {
                let gv = V::of_const(v);
                ensure!(gv.as_ref() == Some(&vs[p.index()]), "folded to a wrong value; op {} port {} on {ins:?}: {:?} but the specification gives {:?}", opname(op), p.index(), gv, vs[p.index()]);
            }
            Ok(())
        }
        _ => bad("HARNESS: higher order"),
    }
}

pub fn int_corners(lw: u8) -> Vec<u64> {
    let n = 1u64 << lw;
    if lw <= 3 {
        return (0..(1u64 << n)).collect();
    }
    let max = if lw == 6 { u64::MAX } else { (1u64 << n) - 1 };
    let mut v = vec![0, 1, 2, 3, 4, 5, 7, n - 1, n, n + 1, 2 * n, 2 * n + 1, max, max - 1, max - 2, max / 2, max / 2 + 1, max / 2 + 2, max / 3, 10, 0x55, 0xAA, 64, 65, 127, 128, 255, 256];
    for k in [7u32, 8, 15, 16, 31, 32, 33, 63] {
        if k < n as u32 {
            v.extend([1u64 << k, (1u64 << k) - 1, (1u64 << k) + 1, max - (1u64 << k) + 1, max - (1u64 << k)]);
        }
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
pub fn float_corners() -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 0.25, -0.25, 0.5, -0.5, 0.75, -0.75, 0.999999999999, 1.0, -1.0, 1.5, -1.5, 2.0, -2.0, 2.5, -2.5, 3.0, 3.7, -3.7, 10.0, 127.0, 127.5, 128.0,
        -128.0, -128.5, -128.999, -129.0, 255.0, 255.9, 256.0, 32767.0, 32768.0, -32768.0, -32769.0, 65535.0, 65536.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
        4294967295.0, 4294967296.0, 9007199254740991.0, 9007199254740993.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0,
        -9223372036854777856.0, 18446744073709549568.0, 18446744073709551616.0, 1e30, -1e30, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::EPSILON, 5e-324, -5e-324, 1e-10,
    ];
    for k in [1.0, 4.0, 15.0, 16.0, 7.0, 8.0] {
        v.push(k + 0.0001);
        v.push(-k - 0.0001);
    }
    v
}

fn ext_ops(e: &Arc<Extension>) -> Vec<String> {
    let mut v: Vec<String> = e.operations().map(|(n, _)| n.to_string()).collect();
    v.sort();
    v
}
fn inst(e: &Arc<Extension>, n: &str, args: Vec<TypeArg>) -> Option<ExtensionOp> {
    ExtensionOp::new(e.get_op(n)?.clone(), args).ok()
}

/// Values of a type for operations other than the integer sweep.
fn values_of(t: &Type) -> Vec<V> {
    if *t == bool_t() {
        return vec![V::bool(false), V::bool(true)];
    }
    if *t == float64_type() {
        return float_corners().into_iter().map(V::f).collect();
    }
    if *t == usize_t() {
        return [0u64, 1, 2, 3, 4, u64::MAX].into_iter().map(V::Usize).collect();
    }
    if *t == string_type() {
        return vec![V::Str(String::new()), V::Str("a".into())];
    }
    if *t == error_type() {
        return vec![V::Err];
    }
    for lw in 0..=6u8 {
        if *t == INT_TYPES[lw as usize] {
            return int_corners(lw).into_iter().map(|n| V::Int(lw, n)).collect();
        }
    }
    if *t == list::list_type(bool_t()) {
        let mut v = vec![];
        for n in 0..4u32 {
            for m in 0..(1u32 << n) {
                v.push(V::List((0..n).map(|k| V::bool(m >> k & 1 == 1)).collect()));
            }
        }
        return v;
    }
    if let Some(s) = t.as_sum() {
        let mut out = vec![];
        for tag in 0..s.num_variants() {
            let Some(row) = sum_row(s, tag) else { continue };
            let mut acc: Vec<Vec<V>> = vec![vec![]];
            for t in row {
                let mut vs = values_of(&t);
                vs.truncate(4);
                acc = acc.into_iter().flat_map(|a| vs.iter().map(move |v| a.iter().cloned().chain([v.clone()]).collect())).collect();
            }
            out.extend(acc.into_iter().map(|f| V::Sum(tag, f)));
        }
        return out;
    }
    vec![]
}

pub fn run(r: &mut Runner) {
    r.assume("where the specification leaves a case open (ties of fround, ftostring, sign conversion of negative values, insertion at the end of a list) any folded value of the right type is accepted");
    r.assume("reference semantics in sem.rs are written from specification/hugr.md and the operation descriptions");
    let tier = r.quick();
    // every int op, every width up to 8 bits, every input
    let int_ops_names = ext_ops(&int_ops::EXTENSION);
    let two = ["iwiden_u", "iwiden_s", "inarrow_u", "inarrow_s"];
    r.family("int-all-inputs", "every arithmetic.int operation at 1,2,4,8 bits (both widths for casts): every input; 16,32,64 bits: every pair of boundary values", 200.0, |c, cov| {
        let name = c.pick(&int_ops_names).clone();
        let lw = c.choose(7) as u8;
        let args: Vec<TypeArg> = if two.contains(&name.as_str()) { vec![(lw as u64).into(), (c.choose(7) as u64).into()] } else { vec![(lw as u64).into()] };
        let Some(op) = inst(&int_ops::EXTENSION, &name, args) else { return Err(Fail::Skip) };
        let nin = op.signature().input_count();
        let xs = int_corners(lw);
        let a = xs[c.choose(xs.len())];
        cov.describe(|| format!("{} on first input {a} with every second input", opname(&op)));
        match nin {
            1 => {
                check_fold(&op, &[V::Int(lw, a)], cov)?;
                cov.state((&name, op.args().len(), lw, a));
            }
            2 => {
                for &b in &xs {
                    check_fold(&op, &[V::Int(lw, a), V::Int(lw, b)], cov)?;
                    cov.state((&name, lw, a, b));
                }
            }
            _ => return bad("HARNESS: arity"),
        }
        cov.trace();
        Ok(())
    });
    // float, conversions, logic
    let exts: Vec<(Arc<Extension>, Vec<String>)> = [&*float_ops::EXTENSION, &*conversions::EXTENSION, &*logic::EXTENSION, &*list::EXTENSION, &*PRELUDE]
        .into_iter()
        .map(|e| (e.clone(), ext_ops(e)))
        .collect();
    let all_args = |e: &Arc<Extension>, n: &str| -> Vec<Vec<TypeArg>> {
        let np = match e.name().as_ref() as &str {
            "arithmetic.conversions" if ["trunc_u", "trunc_s", "convert_u", "convert_s", "itostring_u", "itostring_s"].contains(&n) => return (0..7u64).map(|w| vec![w.into()]).collect(),
            "collections.list" => return vec![vec![bool_t().into()]],
            "prelude" => n,
            _ => return vec![vec![]],
        };
        let rows: Vec<Vec<Type>> = vec![vec![], vec![bool_t()], vec![bool_t(), usize_t()], vec![INT_TYPES[1].clone(), bool_t(), bool_t()], vec![Type::new_tuple(vec![bool_t(), bool_t()]), usize_t()]];
        match np {
            "MakeTuple" | "UnpackTuple" | "Barrier" => rows.iter().map(|r| vec![Term::new_list(r.iter().cloned().map(Into::into))]).collect(),
            "Noop" => vec![vec![bool_t().into()], vec![usize_t().into()]],
            "load_nat" => vec![vec![0u64.into()], vec![5u64.into()], vec![u64::MAX.into()]],
            "panic" | "exit" => vec![vec![Term::new_list([bool_t().into()]), Term::new_list([bool_t().into()])]],
            _ => vec![vec![]],
        }
    };
    r.family("other-ops", "every float, conversion, logic, list and prelude operation on all combinations of boundary values of its input types (floats incl. signed zeros, subnormals, range ends; lists up to length 3)", 200.0, |c, cov| {
        let (e, names) = c.pick(&exts).clone();
        let n = c.pick(&names).clone();
        let argss = all_args(&e, &n);
        let args = c.pick(&argss).clone();
        let Some(op) = inst(&e, &n, args) else { return Err(Fail::Skip) };
        let ins: Vec<Vec<V>> = op.signature().input().iter().map(values_of).collect();
        if ins.iter().any(|x| x.is_empty()) {
            return Err(Fail::Skip);
        }
        if eval_ext(op.def().extension_id(), op.def().name(), op.args(), &ins.iter().map(|x| x[0].clone()).collect::<Vec<_>>()) == Ev::Unknown {
            return Err(Fail::Skip); // not a pure operation known to the specification (print, println...)
        }
        cov.describe(|| format!("{} on all boundary inputs", opname(&op)));
        let mut idx = vec![0usize; ins.len()];
        if !idx.is_empty() {
            idx[0] = c.choose(ins[0].len());
        }
        loop {
            let cur: Vec<V> = idx.iter().zip(&ins).map(|(i, v)| v[*i].clone()).collect();
            check_fold(&op, &cur, cov)?;
            cov.state((opname(&op), &idx));
            let mut k = ins.len();
            loop {
                if k <= 1 {
                    cov.trace();
                    return Ok(());
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < ins[k].len() {
                    break;
                }
                idx[k] = 0;
            }
        }
    });
    // partial information: only some inputs known
    let mut exts2 = exts.clone();
    exts2.push((int_ops::EXTENSION.clone(), int_ops_names.clone()));
    r.family("partial-inputs", "every operation with every proper subset of its inputs known: a folded output must be right for every value of the unknown inputs (3-8 values each)", 120.0, |c, cov| {
        let (e, names) = c.pick(&exts2).clone();
        let n = c.pick(&names).clone();
        let argss: Vec<Vec<TypeArg>> = if e.name().as_ref() as &str == "arithmetic.int" {
            let ws = [0u64, 1, 3, 6];
            if two.contains(&n.as_str()) { vec![vec![3u64.into(), 3u64.into()]] } else { ws.iter().map(|w| vec![(*w).into()]).collect() }
        } else {
            all_args(&e, &n)
        };
        let args = c.pick(&argss).clone();
        let Some(op) = inst(&e, &n, args) else { return Err(Fail::Skip) };
        let short = |t: &Type| {
            let v = values_of(t);
            if v.len() <= 8 { v } else { [0, 1, 2, v.len() / 2, v.len() - 2, v.len() - 1].iter().map(|i| v[*i].clone()).collect() }
        };
        let sig = op.signature();
        let ins: Vec<Vec<V>> = sig.input().iter().map(short).collect();
        if ins.iter().any(|x| x.is_empty()) || ins.is_empty() {
            return Err(Fail::Skip);
        }
        if eval_ext(op.def().extension_id(), op.def().name(), op.args(), &ins.iter().map(|x| x[0].clone()).collect::<Vec<_>>()) == Ev::Unknown {
            return Err(Fail::Skip);
        }
        let known: Vec<bool> = ins.iter().map(|_| c.flag()).collect();
        if known.iter().all(|x| *x) {
            return Err(Fail::Skip);
        }
        let fixed: Vec<usize> = ins.iter().zip(&known).map(|(v, k)| if *k { c.choose(v.len()) } else { 0 }).collect();
        let consts: Vec<(IncomingPort, Value)> =
            (0..ins.len()).filter(|k| known[*k]).map(|k| (k.into(), ins[k][fixed[k]].to_const(&sig.input()[k]).unwrap())).collect();
        let got = match guard(|| op.constant_fold(&consts)) {
            Ok(g) => g,
            Err(p) => return bad_key(format!("fold-panic-partial:{n}"), format!("folding panics with inputs {consts:?} known: {p}; op {}", opname(&op))),
        };
        cov.step(1);
        cov.trace();
        cov.state((opname(&op), &known, &fixed));
        let Some(got) = got else {
            cov.outcome("not folded");
            return Ok(());
        };
        cov.outcome("folded");
        // every completion
        let mut idx = fixed.clone();
        loop {
            let cur: Vec<V> = idx.iter().zip(&ins).map(|(i, v)| v[*i].clone()).collect();
            let ev = eval_ext(op.def().extension_id(), op.def().name(), op.args(), &cur);
            if let Err(Fail::Bad { msg, .. }) = compare(&op, &cur, &ev, Some(got.clone())) {
                return bad_key(format!("partial:{n}"), format!("folded from {} of {} inputs: {msg}", consts.len(), ins.len()));
            }
            let mut k = 0;
            loop {
                if k == ins.len() {
                    return Ok(());
                }
                if known[k] {
                    k += 1;
                    continue;
                }
                idx[k] += 1;
                if idx[k] < ins[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    });
    // constants whose representation is not the one the folder knows
    r.family("foreign-constants", "every operation with each input, or all, replaced by a constant of the declared type in an opaque representation, or by a constant of another type/width: no crash, and nothing folded from a wrongly-typed or opaque input unless independent of it", 60.0, |c, cov| {
        let (e, names) = c.pick(&exts2).clone();
        let n = c.pick(&names).clone();
        let argss: Vec<Vec<TypeArg>> = if e.name().as_ref() as &str == "arithmetic.int" {
            if two.contains(&n.as_str()) { vec![vec![3u64.into(), 3u64.into()]] } else { vec![vec![1u64.into()], vec![6u64.into()]] }
        } else {
            all_args(&e, &n)
        };
        let args = c.pick(&argss).clone();
        let Some(op) = inst(&e, &n, args) else { return Err(Fail::Skip) };
        let sig = op.signature();
        let ins: Vec<Vec<V>> = sig.input().iter().map(values_of).collect();
        if ins.iter().any(|x| x.is_empty()) || ins.is_empty() {
            return Err(Fail::Skip);
        }
        if eval_ext(op.def().extension_id(), op.def().name(), op.args(), &ins.iter().map(|x| x[0].clone()).collect::<Vec<_>>()) == Ev::Unknown {
            return Err(Fail::Skip);
        }
        let mut consts = vec![];
        for (k, t) in sig.input().iter().enumerate() {
            let v = match c.choose(3) {
                0 => ins[k][ins[k].len() / 2].to_const(t).unwrap(),
                1 => {
                    if t.as_sum().is_some() {
                        return Err(Fail::Skip);
                    }
                    Value::extension(CustomSerialized::new(t.clone(), serde_json::json!({"x": 1})))
                }
                _ => {
                    if !(e.name().as_ref() as &str).starts_with("arithmetic.int") {
                        return Err(Fail::Skip);
                    }
                    // an integer of another width
                    ConstInt::new_u(2, 3).unwrap().into()
                }
            };
            consts.push((IncomingPort::from(k), v));
        }
        if consts.iter().zip(sig.input().iter()).all(|((_, v), _)| v.get_custom_value::<CustomSerialized>().is_none() && v.get_type() != INT_TYPES[2]) {
            return Err(Fail::Skip);
        }
        cov.trace();
        cov.step(1);
        cov.state(format!("{}{consts:?}", opname(&op)));
        match guard(|| op.constant_fold(&consts)) {
            Err(p) => bad_key(format!("fold-panic-foreign:{n}"), format!("folding panics on a constant in a foreign representation: {p}; op {} consts {consts:?}", opname(&op))),
            Ok(None) => Ok(()),
            Ok(Some(g)) => {
                // folding through is allowed for operations that only move values
                for (p, v) in &g {
                    let moved = (e.name().as_ref() as &str) == "arithmetic.conversions" || consts.iter().any(|c| c.1 == *v) || ["MakeTuple", "push", "set", "insert", "And", "Or"].contains(&n.as_str());
                    ensure!(moved, "folded a value from an operand it cannot read; op {} port {} consts {consts:?} -> {v:?}", opname(&op), p.index());
                }
                Ok(())
            }
        }
    });
    r.family("constructors", "ConstInt::new_u/new_s at log widths 0..=8 and 63,64,255 with every value up to 8 bits and boundary values to 64 bits; ConstF64::new on finite, infinite and NaN; ConstUsize", 60.0, |c, cov| {
        let widths = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 255];
        match c.choose(3) {
            0 => {
                let lw = *c.pick(&widths);
                let mut xs: Vec<u64> = (0..300).collect();
                for w in 4..=6 {
                    xs.extend(int_corners(w));
                }
                for &x in &xs {
                    let fits = lw <= 6 && (lw == 6 || x < (1u64 << (1u32 << lw)));
                    let got = ConstInt::new_u(lw, x);
                    cov.step(1);
                    cov.state((lw, x));
                    ensure!(got.is_ok() == fits, "ConstInt::new_u accepts exactly the range: new_u({lw}, {x}) = {got:?}");
                    if let Ok(g) = got {
                        ensure!(g.value_u() == x && g.log_width() == lw && g.value_s() as i128 == sgn(x, lw), "ConstInt::new_u value: new_u({lw},{x}) reads back as {} / {}", g.value_u(), g.value_s());
                    }
                }
            }
            1 => {
                let lw = *c.pick(&widths);
                let mut xs: Vec<i64> = (-300..300).collect();
                for w in 4..=6 {
                    xs.extend(int_corners(w).iter().flat_map(|x| [*x as i64, (*x as i64).wrapping_neg()]));
                }
                for &x in &xs {
                    let fits = lw <= 6 && (x as i128) >= -(1i128 << ((1u32 << lw) - 1)) && (x as i128) < (1i128 << ((1u32 << lw) - 1));
                    let got = guard(|| ConstInt::new_s(lw, x)).or_else(|p| bad(format!("ConstInt::new_s({lw},{x}) panics: {p}")))?;
                    cov.step(1);
                    cov.state((lw, x, 's'));
                    ensure!(got.is_ok() == fits, "ConstInt::new_s accepts exactly the range: new_s({lw}, {x}) = {got:?}");
                    if let Ok(g) = got {
                        ensure!(g.value_s() == x && g.log_width() == lw, "ConstInt::new_s value: new_s({lw},{x}) reads back as {}", g.value_s());
                        ensure!(lw == 6 || g.value_u() < (1u64 << (1u32 << lw)), "ConstInt::new_s({lw},{x}) stores {} which exceeds its width", g.value_u());
                        ensure!(ConstInt::new_u(lw, g.value_u()).ok().as_ref() == Some(&g), "signed and unsigned constants of the same bits differ at {lw},{x}");
                    }
                }
            }
            _ => {
                for f in float_corners().into_iter().chain([f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]) {
                    let g = guard(|| ConstF64::new(f)).ok();
                    cov.step(1);
                    cov.state((f.to_bits(), 'f'));
                    ensure!(g.is_some() == f.is_finite(), "ConstF64::new({f})");
                    if let Some(g) = g {
                        ensure!(g.value().to_bits() == f.to_bits(), "ConstF64 value {f}");
                    }
                }
                for n in [0u64, 1, u64::MAX] {
                    ensure!(ConstUsize::new(n).value() == n, "ConstUsize");
                }
                ensure!(ConstString::new("x".into()).value() == "x", "ConstString");
            }
        }
        cov.trace();
        Ok(())
    });
    let _ = (tier, SumType::new_unary(1));
}
fn sgn(x: u64, lw: u8) -> i128 {
    let n = 1u32 << lw;
    let x = x as i128;
    if x >= 1i128 << (n - 1) { x - (1i128 << n) } else { x }
}
