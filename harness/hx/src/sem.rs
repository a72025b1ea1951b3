//! Reference semantics of the standard operations, written from the specification
//! (specification/hugr.md, operation descriptions) with unbounded arithmetic, on plain values.
use hugr_core::extension::prelude::{ConstError, ConstString, ConstUsize};
use hugr_core::ops::{OpType, Value};
use hugr_core::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
use hugr_core::std_extensions::collections::{
    array::ArrayValue, borrow_array::BArrayValue, list::ListValue, static_array::StaticArrayValue,
    value_array::VArrayValue,
};
use hugr_core::types::{SumType, Term, Type, TypeArg, TypeEnum};
use hugr_core::{Hugr, Node};
use std::sync::Arc;

#[derive(Clone)]
pub enum FnV {
    /// a function node of the program under execution
    Node(Node, Vec<TypeArg>),
    /// a function constant
    Hugr(Arc<Hugr>),
}
impl PartialEq for FnV {
    fn eq(&self, _: &Self) -> bool {
        true // only observable by calling
    }
}
impl Eq for FnV {}
impl std::fmt::Debug for FnV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<fn>")
    }
}

/// A value. Floats by bits; sums by tag and fields.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    Sum(usize, Vec<V>),
    Int(u8, u64),
    F(u64),
    Usize(u64),
    Str(String),
    Err,
    List(Vec<V>),
    Arr(Vec<Option<V>>),
    SArr(Vec<V>),
    Func(FnV),
    /// opaque token (linear resource, external value)
    Tok(u64),
}
impl V {
    pub fn bool(b: bool) -> V {
        V::Sum(b as usize, vec![])
    }
    pub fn f(x: f64) -> V {
        V::F(x.to_bits())
    }
    pub fn unit() -> V {
        V::Sum(0, vec![])
    }
    pub fn tuple(v: Vec<V>) -> V {
        V::Sum(0, v)
    }
    pub fn some(v: Vec<V>) -> V {
        V::Sum(1, v)
    }
    pub fn none() -> V {
        V::Sum(0, vec![])
    }
    pub fn ok(v: V) -> V {
        V::Sum(1, vec![v])
    }
    pub fn err() -> V {
        V::Sum(0, vec![V::Err])
    }
    pub fn arr(v: Vec<V>) -> V {
        V::Arr(v.into_iter().map(Some).collect())
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            V::Sum(t, v) if v.is_empty() && *t < 2 => Some(*t == 1),
            _ => None,
        }
    }
    /// Decodes a constant.
    pub fn of_const(v: &Value) -> Option<V> {
        Some(match v {
            Value::Sum(s) => V::Sum(s.tag, s.values.iter().map(V::of_const).collect::<Option<_>>()?),
            Value::Function { hugr } => V::Func(FnV::Hugr(Arc::new((**hugr).clone()))),
            Value::Extension { .. } => {
                if let Some(i) = v.get_custom_value::<ConstInt>() {
                    V::Int(i.log_width(), i.value_u())
                } else if let Some(f) = v.get_custom_value::<ConstF64>() {
                    V::f(f.value())
                } else if let Some(u) = v.get_custom_value::<ConstUsize>() {
                    V::Usize(u.value())
                } else if let Some(s) = v.get_custom_value::<ConstString>() {
                    V::Str(s.value().to_string())
                } else if v.get_custom_value::<ConstError>().is_some() {
                    V::Err
                } else if let Some(l) = v.get_custom_value::<ListValue>() {
                    V::List(l.get_contents().iter().map(V::of_const).collect::<Option<_>>()?)
                } else if let Some(l) = v.get_custom_value::<ArrayValue>() {
                    V::arr(l.get_contents().iter().map(V::of_const).collect::<Option<_>>()?)
                } else if let Some(l) = v.get_custom_value::<VArrayValue>() {
                    V::arr(l.get_contents().iter().map(V::of_const).collect::<Option<_>>()?)
                } else if let Some(l) = v.get_custom_value::<BArrayValue>() {
                    V::arr(l.get_contents().iter().map(V::of_const).collect::<Option<_>>()?)
                } else if let Some(l) = v.get_custom_value::<StaticArrayValue>() {
                    V::SArr(l.get_contents().iter().map(V::of_const).collect::<Option<_>>()?)
                } else {
                    return None;
                }
            }
        })
    }
    /// Encodes as a constant of the given type.
    pub fn to_const(&self, ty: &Type) -> Option<Value> {
        Some(match (self, ty.as_type_enum()) {
            (V::Sum(t, vs), TypeEnum::Sum(s)) => {
                let row = sum_row(s, *t)?;
                let vals = vs.iter().zip(&row).map(|(v, t)| v.to_const(t)).collect::<Option<Vec<_>>>()?;
                Value::sum(*t, vals, s.clone()).ok()?
            }
            (V::Int(w, n), _) => ConstInt::new_u(*w, *n).ok()?.into(),
            (V::F(b), _) => { let f = f64::from_bits(*b); if !f.is_finite() { return None; } ConstF64::new(f).into() },
            (V::Usize(n), _) => ConstUsize::new(*n).into(),
            (V::Str(s), _) => ConstString::new(s.clone()).into(),
            (V::Err, _) => ConstError::new(1, "e").into(),
            (V::List(vs), TypeEnum::Extension(c)) => {
                let Term::Runtime(e) = &c.args()[0] else { return None };
                ListValue::new(e.clone(), vs.iter().map(|v| v.to_const(e)).collect::<Option<Vec<_>>>()?).into()
            }
            _ => return None,
        })
    }
}
pub fn sum_row(s: &SumType, tag: usize) -> Option<Vec<Type>> {
    let r = s.get_variant(tag)?;
    r.iter().map(|t| t.clone().try_into_type().ok()).collect()
}

/// Result of evaluating an operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Vals(Vec<V>),
    Panic,
    /// The specification does not say.
    Unspecified(&'static str),
    /// higher-order: array repeat (function, n)
    Repeat(V, u64),
    /// higher-order: array scan (array, function, accumulators)
    Scan(Vec<Option<V>>, V, Vec<V>),
    /// Not an operation known here.
    Unknown,
}

fn one(v: V) -> Ev {
    Ev::Vals(vec![v])
}
fn bits(lw: u8) -> u32 {
    1 << lw
}
fn modn(x: i128, lw: u8) -> u64 {
    x.rem_euclid(1i128 << bits(lw)) as u64
}
fn signed(x: u64, lw: u8) -> i128 {
    let n = bits(lw);
    let x = x as i128;
    if x >= 1i128 << (n - 1) { x - (1i128 << n) } else { x }
}
pub fn nat(t: &TypeArg) -> Option<u64> {
    match t {
        Term::BoundedNat(n) => Some(*n),
        _ => None,
    }
}

fn float_max(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        f64::NAN
    } else if a == 0.0 && b == 0.0 {
        if a.is_sign_positive() { a } else { b }
    } else if a > b {
        a
    } else {
        b
    }
}
fn float_min(a: f64, b: f64) -> f64 {
    -float_max(-a, -b)
}

/// Semantics of the extension operation `ext.name<args>` on `i`.
pub fn eval_ext(ext: &str, name: &str, args: &[TypeArg], i: &[V]) -> Ev {
    match ext {
        "arithmetic.int" => eval_int(name, args, i).unwrap_or(Ev::Unknown),
        "arithmetic.float" => eval_float(name, i).unwrap_or(Ev::Unknown),
        "arithmetic.conversions" => eval_conv(name, args, i).unwrap_or(Ev::Unknown),
        "logic" => {
            let b: Option<Vec<bool>> = i.iter().map(|v| v.as_bool()).collect();
            let Some(b) = b else { return Ev::Unknown };
            one(V::bool(match (name, b.len()) {
                ("And", 2) => b[0] & b[1],
                ("Or", 2) => b[0] | b[1],
                ("Eq", 2) => b[0] == b[1],
                ("Xor", 2) => b[0] != b[1],
                ("Not", 1) => !b[0],
                _ => return Ev::Unknown,
            }))
        }
        "prelude" => match name {
            "MakeTuple" => one(V::tuple(i.to_vec())),
            "UnpackTuple" => match &i[0] {
                V::Sum(0, v) => Ev::Vals(v.clone()),
                _ => Ev::Unknown,
            },
            "Noop" | "Barrier" => Ev::Vals(i.to_vec()),
            "MakeError" => one(V::Err),
            "panic" | "exit" => Ev::Panic,
            "load_nat" => match nat(&args[0]) {
                Some(n) => one(V::Usize(n)),
                None => Ev::Unknown,
            },
            _ => Ev::Unknown,
        },
        "collections.list" => eval_list(name, i).unwrap_or(Ev::Unknown),
        "collections.array" | "collections.value_array" | "collections.borrow_arr" => {
            eval_array(name, args, i).unwrap_or(Ev::Unknown)
        }
        "collections.static_array" => match (name, i) {
            ("get", [V::SArr(a), V::Usize(k)]) => one(match a.get(*k as usize) {
                Some(v) => V::some(vec![v.clone()]),
                None => V::none(),
            }),
            ("len", [V::SArr(a)]) => one(V::Usize(a.len() as u64)),
            _ => Ev::Unknown,
        },
        _ => Ev::Unknown,
    }
}

/// Semantics of any leaf operation (extension operations, tags).
pub fn eval_op(op: &OpType, i: &[V]) -> Ev {
    match op {
        OpType::Tag(t) => one(V::Sum(t.tag, i.to_vec())),
        OpType::ExtensionOp(e) => eval_ext(e.def().extension_id(), e.def().name(), e.args(), i),
        _ => Ev::Unknown,
    }
}

fn eval_int(name: &str, args: &[TypeArg], i: &[V]) -> Option<Ev> {
    let lw = nat(args.first()?)? as u8;
    let mut x = vec![];
    for v in i {
        match v {
            V::Int(w, n) if *w == lw => x.push(*n),
            _ => return None,
        }
    }
    let n = bits(lw);
    let u = |k: usize| x[k] as i128;
    let s = |k: usize| signed(x[k], lw);
    let int = |v: i128| V::Int(lw, modn(v, lw));
    let fits_u = |v: i128, w: u8| v >= 0 && v < (1i128 << bits(w));
    let fits_s = |v: i128, w: u8| v >= -(1i128 << (bits(w) - 1)) && v < (1i128 << (bits(w) - 1));
    // Euclidean: q*m + r = n, 0 <= r < m
    let divmod = |a: i128, m: i128| if m == 0 { None } else { Some((a.div_euclid(m), a.rem_euclid(m))) };
    Some(match name {
        "iwiden_u" => one(V::Int(nat(&args[1])? as u8, modn(u(0), nat(&args[1])? as u8))),
        "iwiden_s" => one(V::Int(nat(&args[1])? as u8, modn(s(0), nat(&args[1])? as u8))),
        "inarrow_u" => {
            let w = nat(&args[1])? as u8;
            one(if fits_u(u(0), w) { V::ok(V::Int(w, modn(u(0), w))) } else { V::err() })
        }
        "inarrow_s" => {
            let w = nat(&args[1])? as u8;
            one(if fits_s(s(0), w) { V::ok(V::Int(w, modn(s(0), w))) } else { V::err() })
        }
        "ieq" => one(V::bool(u(0) == u(1))),
        "ine" => one(V::bool(u(0) != u(1))),
        "ilt_u" => one(V::bool(u(0) < u(1))),
        "ilt_s" => one(V::bool(s(0) < s(1))),
        "igt_u" => one(V::bool(u(0) > u(1))),
        "igt_s" => one(V::bool(s(0) > s(1))),
        "ile_u" => one(V::bool(u(0) <= u(1))),
        "ile_s" => one(V::bool(s(0) <= s(1))),
        "ige_u" => one(V::bool(u(0) >= u(1))),
        "ige_s" => one(V::bool(s(0) >= s(1))),
        "imax_u" => one(int(u(0).max(u(1)))),
        "imax_s" => one(int(s(0).max(s(1)))),
        "imin_u" => one(int(u(0).min(u(1)))),
        "imin_s" => one(int(s(0).min(s(1)))),
        "iadd" => one(int(u(0) + u(1))),
        "isub" => one(int(u(0) - u(1))),
        "ineg" => one(int(-u(0))),
        "imul" => one(int(((x[0] as u128).wrapping_mul(x[1] as u128) % (1u128 << n)) as i128)),
        "idivmod_checked_u" | "idivmod_u" | "idivmod_checked_s" | "idivmod_s" | "idiv_checked_u" | "idiv_u"
        | "idiv_checked_s" | "idiv_s" | "imod_checked_u" | "imod_u" | "imod_checked_s" | "imod_s" => {
            let a = if name.ends_with("_s") { s(0) } else { u(0) };
            let r = divmod(a, u(1));
            let out = r.map(|(q, r)| {
                if name.starts_with("idivmod") {
                    vec![int(q), int(r)]
                } else if name.starts_with("idiv") {
                    vec![int(q)]
                } else {
                    vec![int(r)]
                }
            });
            if name.contains("checked") {
                match out {
                    None => one(V::err()),
                    Some(v) if v.len() == 2 => one(V::ok(V::tuple(v))),
                    Some(v) => one(V::ok(v[0].clone())),
                }
            } else {
                match out {
                    None => Ev::Panic,
                    Some(v) => Ev::Vals(v),
                }
            }
        }
        "ipow" => {
            // modular exponentiation
            let m = 1u128 << n;
            let (mut b, mut e, mut r) = (x[0] as u128 % m, x[1], 1u128 % m);
            while e > 0 {
                if e & 1 == 1 {
                    r = r.wrapping_mul(b) % m;
                }
                b = b.wrapping_mul(b) % m;
                e >>= 1;
            }
            one(V::Int(lw, r as u64))
        }
        "iabs" => one(int(s(0).abs())),
        "iand" => one(int(u(0) & u(1))),
        "ior" => one(int(u(0) | u(1))),
        "ixor" => one(int(u(0) ^ u(1))),
        "inot" => one(int(-1 - u(0))),
        "ishl" => one(if u(1) >= n as i128 { int(0) } else { V::Int(lw, (((x[0] as u128) << x[1]) % (1u128 << n)) as u64) }),
        "ishr" => one(if u(1) >= n as i128 { int(0) } else { int(u(0) >> u(1)) }),
        "irotl" | "irotr" => {
            let k = (x[1] % n as u64) as u32;
            let k = if name == "irotl" { k } else { (n - k) % n };
            // bit by bit
            let mut r = 0u64;
            for b in 0..n {
                if x[0] >> b & 1 == 1 {
                    r |= 1 << ((b + k) % n);
                }
            }
            one(V::Int(lw, r))
        }
        "iu_to_s" | "is_to_u" => {
            // equal values when the value is representable in both
            if s(0) >= 0 { one(int(u(0))) } else { Ev::Unspecified("sign conversion out of range") }
        }
        _ => return None,
    })
}

fn eval_float(name: &str, i: &[V]) -> Option<Ev> {
    let mut x = vec![];
    for v in i {
        match v {
            V::F(b) => x.push(f64::from_bits(*b)),
            _ => return None,
        }
    }
    let b2 = |b: bool| one(V::bool(b));
    let f1 = |f: f64| one(V::f(f));
    Some(match (name, x.len()) {
        ("feq", 2) => b2(x[0] == x[1]),
        ("fne", 2) => b2(x[0] != x[1]),
        ("flt", 2) => b2(x[0] < x[1]),
        ("fgt", 2) => b2(x[0] > x[1]),
        ("fle", 2) => b2(x[0] <= x[1]),
        ("fge", 2) => b2(x[0] >= x[1]),
        ("fmax", 2) => f1(float_max(x[0], x[1])),
        ("fmin", 2) => f1(float_min(x[0], x[1])),
        ("fadd", 2) => f1(x[0] + x[1]),
        ("fsub", 2) => f1(x[0] - x[1]),
        ("fmul", 2) => f1(x[0] * x[1]),
        ("fdiv", 2) => f1(x[0] / x[1]),
        ("fpow", 2) => f1(x[0].powf(x[1])),
        ("fneg", 1) => f1(-x[0]),
        ("fabs", 1) => f1(x[0].abs()),
        ("ffloor", 1) => f1(x[0].floor()),
        ("fceil", 1) => f1(x[0].ceil()),
        ("fround", 1) => {
            if x[0].is_finite() && (x[0].abs() - x[0].abs().floor()) == 0.5 {
                Ev::Unspecified("rounding of ties")
            } else {
                f1(x[0].round())
            }
        }
        ("ftostring", 1) => Ev::Unspecified("implementation dependent"),
        _ => return None,
    })
}

fn eval_conv(name: &str, args: &[TypeArg], i: &[V]) -> Option<Ev> {
    Some(match (name, i) {
        ("trunc_u" | "trunc_s", [V::F(b)]) => {
            let w = nat(args.first()?)? as u8;
            let n = bits(w) as i32;
            let f = f64::from_bits(*b);
            if !f.is_finite() {
                return Some(one(V::err()));
            }
            let t = f.trunc();
            let (lo, hi) = if name == "trunc_u" { (0.0, 2f64.powi(n)) } else { (-(2f64.powi(n - 1)), 2f64.powi(n - 1)) };
            // no integer of the type is the truncation: must not be a value
            one(if t >= lo && t < hi { V::ok(V::Int(w, modn(t as i128, w))) } else { V::err() })
        }
        ("convert_u", [V::Int(_, n)]) => one(V::f(*n as f64)),
        ("convert_s", [V::Int(w, n)]) => one(V::f(signed(*n, *w) as i64 as f64)),
        ("itobool", [V::Int(0, n)]) => one(V::bool(*n == 1)),
        ("ifrombool", [b]) => one(V::Int(0, b.as_bool()? as u64)),
        ("itostring_u", [V::Int(_, n)]) => one(V::Str(n.to_string())),
        ("itostring_s", [V::Int(w, n)]) => one(V::Str(signed(*n, *w).to_string())),
        ("itousize", [V::Int(6, n)]) => one(V::Usize(*n)),
        ("ifromusize", [V::Usize(n)]) => one(V::Int(6, *n)),
        ("bytecast_int64_to_float64", [V::Int(6, n)]) => one(V::F(*n)),
        ("bytecast_float64_to_int64", [V::F(n)]) => one(V::Int(6, *n)),
        _ => return None,
    })
}

fn eval_list(name: &str, i: &[V]) -> Option<Ev> {
    Some(match (name, i) {
        ("pop", [V::List(l)]) => {
            let mut l = l.clone();
            match l.pop() {
                Some(e) => Ev::Vals(vec![V::List(l), V::some(vec![e])]),
                None => Ev::Vals(vec![V::List(l), V::none()]),
            }
        }
        ("push", [V::List(l), e]) => {
            let mut l = l.clone();
            l.push(e.clone());
            one(V::List(l))
        }
        ("get", [V::List(l), V::Usize(k)]) => one(match usize::try_from(*k).ok().and_then(|k| l.get(k)) {
            Some(e) => V::some(vec![e.clone()]),
            None => V::none(),
        }),
        ("set", [V::List(l), V::Usize(k), e]) => {
            let mut l = l.clone();
            if (*k as usize) < l.len() {
                let old = std::mem::replace(&mut l[*k as usize], e.clone());
                Ev::Vals(vec![V::List(l), V::Sum(1, vec![old])])
            } else {
                Ev::Vals(vec![V::List(l), V::Sum(0, vec![e.clone()])])
            }
        }
        ("insert", [V::List(l), V::Usize(k), e]) => {
            let mut l = l.clone();
            if (*k as usize) < l.len() {
                l.insert(*k as usize, e.clone());
                Ev::Vals(vec![V::List(l), V::Sum(1, vec![V::unit()])])
            } else if *k as usize == l.len() {
                Ev::Unspecified("insertion at the end")
            } else {
                Ev::Vals(vec![V::List(l), V::Sum(0, vec![e.clone()])])
            }
        }
        ("length", [V::List(l)]) => Ev::Vals(vec![V::List(l.clone()), V::Usize(l.len() as u64)]),
        _ => return None,
    })
}

fn eval_array(name: &str, args: &[TypeArg], i: &[V]) -> Option<Ev> {
    let full = |a: &Vec<Option<V>>| a.iter().all(|x| x.is_some());
    Some(match (name, i) {
        ("new_array", _) => one(V::arr(i.to_vec())),
        ("unpack", [V::Arr(a)]) => {
            if !full(a) {
                return Some(Ev::Panic);
            }
            Ev::Vals(a.iter().map(|x| x.clone().unwrap()).collect())
        }
        ("get", [V::Arr(a), V::Usize(k)]) => match usize::try_from(*k).ok().and_then(|k| a.get(k)) {
            None => Ev::Vals(vec![V::none(), V::Arr(a.clone())]),
            Some(Some(e)) => Ev::Vals(vec![V::some(vec![e.clone()]), V::Arr(a.clone())]),
            Some(None) => Ev::Panic,
        },
        ("set", [V::Arr(a), V::Usize(k), e]) => {
            let mut a = a.clone();
            match usize::try_from(*k).ok().and_then(|k| a.get_mut(k)) {
                None => one(V::Sum(0, vec![e.clone(), V::Arr(a)])),
                Some(None) => Ev::Panic,
                Some(slot) => {
                    let old = slot.replace(e.clone()).unwrap();
                    one(V::Sum(1, vec![old, V::Arr(a)]))
                }
            }
        }
        ("swap", [V::Arr(a), V::Usize(j), V::Usize(k)]) => {
            let mut a = a.clone();
            let n = a.len() as u64;
            if *j >= n || *k >= n {
                one(V::Sum(0, vec![V::Arr(a)]))
            } else if a[*j as usize].is_none() || a[*k as usize].is_none() {
                Ev::Panic
            } else {
                a.swap(*j as usize, *k as usize);
                one(V::Sum(1, vec![V::Arr(a)]))
            }
        }
        ("pop_left" | "pop_right", [V::Arr(a)]) => {
            let mut a = a.clone();
            if a.is_empty() {
                return Some(one(V::none()));
            }
            let e = if name == "pop_left" { a.remove(0) } else { a.pop().unwrap() };
            match e {
                None => Ev::Panic,
                Some(e) => one(V::some(vec![e, V::Arr(a)])),
            }
        }
        ("discard_empty", [V::Arr(_)]) => Ev::Vals(vec![]),
        ("clone", [V::Arr(a)]) => {
            if !full(a) {
                return Some(Ev::Unspecified("cloning an array with borrowed elements"));
            }
            Ev::Vals(vec![V::Arr(a.clone()); 2])
        }
        ("discard", [V::Arr(_)]) => Ev::Vals(vec![]),
        ("repeat", [f]) => Ev::Repeat(f.clone(), nat(args.first()?)?),
        ("scan", [V::Arr(a), f, acc @ ..]) => {
            if !full(a) {
                return Some(Ev::Panic);
            }
            Ev::Scan(a.clone(), f.clone(), acc.to_vec())
        }
        ("to_array" | "from_array", [V::Arr(a)]) => {
            if !full(a) {
                return Some(Ev::Panic);
            }
            one(V::Arr(a.clone()))
        }
        ("borrow", [V::Arr(a), V::Usize(k)]) => {
            let mut a = a.clone();
            match usize::try_from(*k).ok().and_then(|k| a.get_mut(k)).and_then(|s| s.take()) {
                None => Ev::Panic, // out of bounds or already borrowed
                Some(e) => Ev::Vals(vec![V::Arr(a), e]),
            }
        }
        ("return", [V::Arr(a), V::Usize(k), e]) => {
            let mut a = a.clone();
            match usize::try_from(*k).ok().and_then(|k| a.get_mut(k)) {
                Some(s @ None) => {
                    *s = Some(e.clone());
                    one(V::Arr(a))
                }
                _ => Ev::Panic, // out of bounds or not borrowed
            }
        }
        ("discard_all_borrowed", [V::Arr(a)]) => {
            if a.iter().any(|x| x.is_some()) { Ev::Panic } else { Ev::Vals(vec![]) }
        }
        ("new_all_borrowed", []) => one(V::Arr(vec![None; nat(args.first()?)? as usize])),
        ("is_borrowed", [V::Arr(a), V::Usize(k)]) => match usize::try_from(*k).ok().and_then(|k| a.get(k)) {
            None => Ev::Panic,
            Some(s) => Ev::Vals(vec![V::Arr(a.clone()), V::bool(s.is_none())]),
        },
        _ => return None,
    })
}
