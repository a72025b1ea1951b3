//! C15: types, kinds and substitution against kind-directed reference definitions.
use crate::explore::*;
use crate::prog::{b, q};
use crate::{ensure, ensure_eq};
use hugr_core::extension::{Extension, ExtensionRegistry, TypeDefBound};
use hugr_core::ops;
use hugr_core::types::type_param::{check_term_type, check_term_types, SeqPart};
use hugr_core::types::{CustomType, FuncValueType, PolyFuncTypeRV, Signature, SumType, Term, Type, TypeBound, TypeEnum, TypeRV, TypeRowRV};
use hugr_core::{Hugr, HugrView};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, LazyLock};

type Res<T = ()> = Result<T, Fail>;
use TypeBound::{Copyable as C, Linear as L};

/// The kinds of the pool, all closed.
pub static KINDS: LazyLock<Vec<Term>> = LazyLock::new(|| {
    let l = |t: Term| Term::new_list_type(t);
    vec![
        C.into(),
        L.into(),
        l(L.into()),
        Term::max_nat_type(),
        l(C.into()),
        Term::bounded_nat_type(2.try_into().unwrap()),
        Term::StringType,
        l(Term::max_nat_type()),
        Term::new_tuple_type(vec![Term::from(C), Term::max_nat_type()]),
        Term::StaticType,
        l(l(L.into())),
        Term::new_const(b()),
        Term::new_tuple_type(vec![Term::from(L), l(L.into())]),
        Term::BytesType,
        Term::FloatType,
        l(Term::new_tuple_type(vec![Term::from(L), Term::StringType])),
    ]
});
pub static EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc("vp.kinds".try_into().unwrap(), hugr_core::extension::Version::new(0, 1, 0), |e, r| {
        for (i, k) in KINDS.iter().enumerate() {
            let bd = match k {
                Term::RuntimeType(_) => TypeDefBound::from_params(vec![0]),
                _ => TypeDefBound::copyable(),
            };
            e.add_type(format!("k{i}").into(), vec![k.clone()], String::new(), bd, r).unwrap();
        }
        e.add_type("pair".into(), vec![L.into(), L.into(), Term::max_nat_type()], String::new(), TypeDefBound::from_params(vec![0, 1]), r).unwrap();
        e.add_type("lin".into(), vec![C.into()], String::new(), TypeDefBound::any(), r).unwrap();
    })
});
pub static REG: LazyLock<ExtensionRegistry> = LazyLock::new(|| {
    let mut r = ExtensionRegistry::new([EXT.clone()]);
    r.extend(crate::prog::registry().iter().cloned().collect::<Vec<_>>());
    r
});
pub fn boxed(k: usize, t: Term) -> Type {
    named(&format!("k{k}"), vec![t])
}
/// An extension type with a bound computed here.
pub fn named(n: &str, args: Vec<Term>) -> Type {
    let d = EXT.get_type(n).unwrap();
    let bound = custom_bound(n, &args);
    Type::new_extension(CustomType::new(d.name().clone(), args, EXT.name().clone(), bound, &Arc::downgrade(&EXT)))
}
fn custom_bound(n: &str, args: &[Term]) -> TypeBound {
    let arg = |i: usize| match &args[i] {
        Term::Runtime(t) => bound(&t.clone().into()),
        _ => L,
    };
    match n {
        "k0" | "k1" => arg(0),
        "pair" => lub([arg(0), arg(1)]),
        "lin" | "qubit" => L,
        _ => C,
    }
}
fn lub(v: impl IntoIterator<Item = TypeBound>) -> TypeBound {
    if v.into_iter().any(|x| x == L) { L } else { C }
}
/// A type is copyable exactly when all its parts are.
fn bound(t: &TypeRV) -> TypeBound {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => custom_bound(c.name(), c.args()),
        TypeEnum::Alias(a) => a.bound,
        TypeEnum::Function(_) => C,
        TypeEnum::Variable(_, b) => *b,
        TypeEnum::RowVar(r) => r.1,
        TypeEnum::Sum(SumType::Unit { .. }) => C,
        TypeEnum::Sum(s) => lub(s.variants().flat_map(|r| r.iter().map(bound).collect::<Vec<_>>())),
    }
}
/// Every part of the type reports its bound.
fn bounds_ok(t: &TypeRV, d: &str) -> Res {
    ensure_eq!(t.least_upper_bound(), bound(t), "bound of {t} | {d}");
    ensure_eq!(t.copyable(), bound(t) == C, "copyable {t} | {d}");
    match t.as_type_enum() {
        TypeEnum::Extension(c) => c.args().iter().try_for_each(|a| bounds_term(a, d)),
        TypeEnum::Function(f) => f.input().iter().chain(f.output().iter()).try_for_each(|t| bounds_ok(t, d)),
        TypeEnum::Sum(s) => s.variants().try_for_each(|r| r.iter().try_for_each(|t| bounds_ok(t, d))),
        _ => Ok(()),
    }
}
fn bounds_term(t: &Term, d: &str) -> Res {
    match t {
        Term::Runtime(t) => bounds_ok(&t.clone().into(), d),
        Term::List(v) | Term::ListConcat(v) | Term::Tuple(v) | Term::TupleConcat(v) => v.iter().try_for_each(|t| bounds_term(t, d)),
        Term::ConstType(t) => bounds_ok(&(**t).clone().into(), d),
        Term::ListType(t) | Term::TupleType(t) => bounds_term(t, d),
        _ => Ok(()),
    }
}
/// Values of variables, the terms in it are not substituted again.
type Sub<'a> = Option<&'a [Term]>;
fn join(v: Vec<String>) -> String {
    v.join(", ")
}
/// Canonical text of a term of the kind after the substitution.
pub fn canon(t: &Term, k: &Term, s: Sub) -> String {
    if let Term::ListType(e) = k {
        return format!("[{}]", join(parts(t, e, s)));
    }
    if let (Term::TupleType(ks), Term::Tuple(_) | Term::TupleConcat(_)) = (k, t) {
        let Term::List(ks) = &**ks else { panic!("open tuple kind") };
        let mut v = vec![];
        flat_tuple(t, &mut v);
        assert_eq!(v.len(), ks.len(), "{t} of {k}");
        return format!("({})", join(v.iter().zip(ks).map(|(t, k)| canon(t, k, s)).collect()));
    }
    match t {
        Term::Runtime(t) => canon_ty(&t.clone().into(), s),
        Term::Variable(v) => match s {
            Some(a) => canon(&a[v.index()], k, None),
            None => format!("?{}", v.index()),
        },
        Term::ListType(e) => format!("list<{}>", canon(e, &Term::StaticType, s)),
        Term::TupleType(e) => format!("tuple<{}>", canon(e, &Term::new_list_type(Term::StaticType), s)),
        Term::ConstType(t) => format!("const<{}>", canon_ty(&(**t).clone().into(), s)),
        t => format!("{t:?}"),
    }
}
fn flat_tuple(t: &Term, v: &mut Vec<Term>) {
    match t {
        Term::Tuple(x) => v.extend(x.iter().cloned()),
        Term::TupleConcat(x) => x.iter().for_each(|t| flat_tuple(t, v)),
        t => panic!("open tuple {t}"),
    }
}
/// The parts of a list of elements of the kind.
fn parts(t: &Term, e: &Term, s: Sub) -> Vec<String> {
    match t {
        Term::List(v) => v.iter().flat_map(|x| match x {
            // a row variable in a list of types
            Term::Variable(_) if matches!(e, Term::RuntimeType(_)) => parts(x, e, s),
            x => vec![canon(x, e, s)],
        }).collect(),
        Term::ListConcat(v) => v.iter().flat_map(|x| parts(x, e, s)).collect(),
        Term::Variable(v) => match s {
            Some(a) => parts(&a[v.index()], e, None),
            None => vec![format!("...?{}", v.index())],
        },
        t => panic!("not a list: {t}"),
    }
}
fn canon_row(r: &TypeRowRV, s: Sub) -> String {
    join(r.iter().flat_map(|t| match t.as_type_enum() {
        TypeEnum::RowVar(v) => match s {
            Some(a) => parts(&a[v.0], &Term::from(v.1), None),
            None => vec![format!("...?{}", v.0)],
        },
        _ => vec![canon_ty(t, s)],
    }).collect())
}
pub fn canon_ty(t: &TypeRV, s: Sub) -> String {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => {
            let kinds: Vec<Term> = c.extension_ref().upgrade().and_then(|e| e.get_type(c.name()).map(|d| d.params().to_vec())).unwrap();
            format!("{}.{}({})", c.extension(), c.name(), join(c.args().iter().zip(&kinds).map(|(t, k)| canon(t, k, s)).collect()))
        }
        TypeEnum::Function(f) => format!("fn({})->({})", canon_row(f.input(), s), canon_row(f.output(), s)),
        TypeEnum::Variable(i, _) => match s {
            Some(a) => canon(&a[*i], &Term::from(L), None),
            None => format!("?{i}"),
        },
        TypeEnum::Sum(x) => format!("sum({})", x.variants().map(|r| canon_row(r, s)).collect::<Vec<_>>().join("|")),
        TypeEnum::Alias(a) => format!("alias {}", a.name),
        TypeEnum::RowVar(_) => panic!("row variable alone"),
    }
}
pub fn canon_fn(f: &FuncValueType, s: Sub) -> String {
    format!("({})->({})", canon_row(f.input(), s), canon_row(f.output(), s))
}
/// Narrower kinds can be used for wider ones.
fn narrower(a: &Term, k: &Term) -> bool {
    match (a, k) {
        (Term::RuntimeType(x), Term::RuntimeType(y)) => y == &L || x == &C,
        (Term::BoundedNatType(x), Term::BoundedNatType(y)) => match (x.value(), y.value()) {
            (_, None) => true,
            (None, Some(_)) => false,
            (Some(x), Some(y)) => x <= y,
        },
        (Term::ListType(x), Term::ListType(y)) | (Term::TupleType(x), Term::TupleType(y)) => narrower(x, y),
        (Term::List(x), Term::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| narrower(x, y)),
        _ => a == k,
    }
}
/// Whether the term inhabits the kind.
fn inhabits(t: &Term, k: &Term) -> bool {
    match (t, k) {
        (Term::Variable(_), _) => narrower(&decl(t), k),
        (Term::Runtime(t), Term::RuntimeType(b)) => *b == L || bound(&t.clone().into()) == C,
        (Term::List(v), Term::ListType(e)) => v.iter().all(|x| inhabits(x, e) || matches!(**e, Term::RuntimeType(_)) && matches!(x, Term::Variable(_)) && inhabits(x, k)),
        (Term::ListConcat(v), Term::ListType(_)) => v.iter().all(|x| inhabits(x, k)),
        (Term::Tuple(_) | Term::TupleConcat(_), Term::TupleType(ks)) => {
            let Term::List(ks) = &**ks else { panic!() };
            let mut v = vec![];
            flat_tuple(t, &mut v);
            v.len() == ks.len() && v.iter().zip(ks).all(|(t, k)| inhabits(t, k))
        }
        (Term::BoundedNat(n), Term::BoundedNatType(u)) => u.value().is_none_or(|u| *n < u.get()),
        (Term::String(_), Term::StringType) | (Term::Bytes(_), Term::BytesType) | (Term::Float(_), Term::FloatType) => true,
        (Term::StaticType | Term::StringType | Term::BytesType | Term::FloatType | Term::BoundedNatType(_) | Term::ListType(_) | Term::TupleType(_) | Term::RuntimeType(_) | Term::ConstType(_), Term::StaticType) => true,
        _ => false,
    }
}
/// The declared kind of a variable.
fn decl(t: &Term) -> Term {
    let Term::Variable(v) = t else { panic!() };
    // the declaration is only visible through serialization
    let j = serde_json::to_value(t).unwrap();
    let d: Term = serde_json::from_value(j["v"]["cached_decl"].clone()).or_else(|_| serde_json::from_value(j["cached_decl"].clone())).unwrap_or_else(|e| panic!("{e}: {j} of {v:?}"));
    d
}
thread_local! {
    static TERMS: std::cell::RefCell<HashMap<(Term, Vec<Term>, usize, usize), Arc<Vec<Term>>>> = Default::default();
    static TYPES: std::cell::RefCell<HashMap<(TypeBound, Vec<Term>, usize, usize), Arc<Vec<Type>>>> = Default::default();
}
/// Kept between executions.
pub fn terms(k: &Term, ctx: &[Term], d: usize, w: usize) -> Arc<Vec<Term>> {
    let key = (k.clone(), ctx.to_vec(), d, w);
    if let Some(x) = TERMS.with_borrow(|m| m.get(&key).cloned()) {
        return x;
    }
    let x = Arc::new(new_terms(k, ctx, d, w));
    TERMS.with_borrow_mut(|m| m.insert(key, x.clone()));
    x
}
fn types(bd: TypeBound, ctx: &[Term], d: usize, w: usize) -> Arc<Vec<Type>> {
    let key = (bd, ctx.to_vec(), d, w);
    if let Some(x) = TYPES.with_borrow(|m| m.get(&key).cloned()) {
        return x;
    }
    let x = Arc::new(new_types(bd, ctx, d, w));
    TYPES.with_borrow_mut(|m| {
        if d > 1 {
            m.clear();
        }
        m.insert(key, x.clone())
    });
    x
}
/// All terms of a kind over a context, to a depth.
fn new_terms(k: &Term, ctx: &[Term], d: usize, w: usize) -> Vec<Term> {
    let mut v: Vec<Term> = vec![];
    for (i, g) in ctx.iter().enumerate() {
        if narrower(g, k) {
            v.push(Term::new_var_use(i, g.clone()));
        }
    }
    match k {
        Term::RuntimeType(bd) => v.extend(types(*bd, ctx, d, w).iter().cloned().map(Term::from).filter(|t| !v.contains(t)).collect::<Vec<_>>()),
        Term::BoundedNatType(_) => v.extend([1u64.into(), 0u64.into()]),
        Term::StringType => v.extend(["a".into(), "".into()]),
        Term::BytesType => v.push(Term::Bytes(Arc::from(&[1u8][..]))),
        Term::FloatType => v.push(Term::Float(1.5.into())),
        Term::ListType(e) => {
            let es = if d == 0 { terms(e, ctx, 0, w.min(2)) } else { terms(e, ctx, d - 1, w) };
            let vars = v.clone();
            v.push(Term::List(vec![]));
            v.extend(es.iter().map(|x| Term::List(vec![x.clone()])));
            if let [x, y, ..] = &es[..] {
                v.push(Term::List(vec![x.clone(), y.clone()]));
            }
            for x in vars {
                v.push(Term::ListConcat(vec![Term::List(vec![es[0].clone()]), x.clone()]));
                v.push(Term::ListConcat(vec![x.clone(), Term::ListConcat(vec![x.clone(), Term::List(vec![])])]));
                if matches!(**e, Term::RuntimeType(_)) {
                    v.push(Term::List(vec![x.clone()]));
                    v.push(Term::List(vec![es[0].clone(), x.clone()]));
                }
            }
        }
        Term::TupleType(ks) => {
            let Term::List(ks) = &**ks else { panic!() };
            let a = terms(&ks[0], ctx, d.saturating_sub(1), w);
            let z = terms(&ks[1], ctx, d.saturating_sub(1), w);
            for (x, y) in a.iter().flat_map(|x| z.iter().map(move |y| (x, y))) {
                v.push(Term::Tuple(vec![x.clone(), y.clone()]));
            }
            v.push(Term::TupleConcat(vec![Term::Tuple(vec![a[0].clone()]), Term::Tuple(vec![]), Term::Tuple(vec![z[0].clone()])]));
        }
        Term::StaticType => {
            v.extend([Term::StringType, Term::from(L), Term::new_list_type(Term::StringType), Term::new_tuple_type(vec![Term::from(C), Term::StringType])]);
            for t in types(L, ctx, d.min(1), 3).iter() {
                v.push(Term::new_const(t.clone()));
                v.push(Term::new_tuple_type(vec![Term::new_const(t.clone())]));
                v.push(Term::new_list_type(Term::new_const(t.clone())));
            }
            // kinds made of variables standing for kinds
            for (i, _) in ctx.iter().enumerate().filter(|(_, g)| **g == Term::StaticType) {
                let x = Term::new_var_use(i, Term::StaticType);
                v.push(Term::new_list_type(x.clone()));
                v.push(Term::new_tuple_type(vec![x.clone(), Term::StringType]));
            }
        }
        _ => {}
    }
    let closed = v.iter().position(|t| !matches!(t, Term::Variable(_)));
    v.truncate(w.max(closed.map_or(0, |x| x + 1)));
    v
}
fn rows(ctx: &[Term], d: usize, w: usize) -> Vec<Vec<TypeRV>> {
    let ts = types(L, ctx, d, w);
    let mut v: Vec<Vec<TypeRV>> = vec![vec![]];
    for (i, g) in ctx.iter().enumerate() {
        if let Term::ListType(e) = g {
            if let Term::RuntimeType(bd) = **e {
                let x = TypeRV::new_row_var_use(i, bd);
                v.push(vec![x.clone()]);
                v.push(vec![ts[0].clone().into(), x.clone(), x.clone()]);
            }
        }
    }
    v.extend(ts.iter().map(|t| vec![t.clone().into()]));
    v.push(vec![ts[0].clone().into(), ts[ts.len() - 1].clone().into()]);
    v.truncate(w + 3);
    v
}
fn new_types(bd: TypeBound, ctx: &[Term], d: usize, w: usize) -> Vec<Type> {
    let mut v = vec![];
    for (i, g) in ctx.iter().enumerate() {
        if let Term::RuntimeType(x) = g {
            v.push(Type::new_var_use(i, *x));
        }
    }
    v.extend([q(), b()]);
    if d > 0 {
        for (i, k) in KINDS.iter().enumerate() {
            v.extend(terms(k, ctx, d - 1, w.min(6)).iter().cloned().map(|t| boxed(i, t)));
        }
        let rs = rows(ctx, d - 1, 3);
        for r in &rs {
            v.push(Type::new_sum([TypeRowRV::from(r.clone()), none().into()]));
            v.push(Type::new_function(FuncValueType::new(r.clone(), none())));
            v.push(Type::new_tuple(r.clone()));
        }
        for r in &rs {
            v.push(Type::new_sum([TypeRowRV::from(r.clone()), rs[0].clone().into(), rs[rs.len() - 1].clone().into()]));
            v.push(Type::new_function(FuncValueType::new(rs[rs.len() - 1].clone(), r.clone())));
        }
        let ts: Vec<Term> = types(L, ctx, d - 1, 3).iter().cloned().map(Term::from).collect();
        for x in &ts {
            for y in &ts {
                v.push(named("pair", vec![x.clone(), y.clone(), 3u64.into()]));
            }
        }
        v.push(named("lin", vec![b().into()]));
    } else {
        v.push(Type::UNIT);
    }
    v.retain(|t| bd == L || bound(&t.clone().into()) == C);
    // no two equal ones
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|t| seen.insert(format!("{t:?}")));
    if d == 0 {
        v.truncate(w.max(1));
    }
    v
}
fn none() -> Vec<TypeRV> {
    vec![]
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn poly(ctx: &[Term], f: FuncValueType) -> PolyFuncTypeRV {
    PolyFuncTypeRV::new(ctx.to_vec(), f)
}
fn inst(p: &PolyFuncTypeRV, a: &[Term], d: &str) -> Res<Result<FuncValueType, String>> {
    guard(|| p.instantiate(a).map_err(|e| e.to_string())).or_else(|e| {
        // a row variable may be given a whole list term
        let k = if e.contains("Not a type or list of types") { "row-variable-list-argument" } else { "" };
        bad_key(k, format!("panic {e} | {d}"))
    })
}
pub fn mixed_term(t: &Term, k: &Term) -> bool {
        match (t, k) {
        (Term::List(v), Term::ListType(e)) => (matches!(**e, Term::ListType(_)) && matches!(v.first(), Some(Term::Variable(_)))) || v.iter().any(|x| mixed_term(x, e)),
        (Term::ListConcat(v), k) => v.iter().any(|x| mixed_term(x, k)),
        (Term::Tuple(_) | Term::TupleConcat(_), Term::TupleType(ks)) => {
            let Term::List(ks) = &**ks else { return false };
            let mut v = vec![];
            flat_tuple(t, &mut v);
            v.iter().zip(ks).any(|(t, k)| mixed_term(t, k))
        }
        (Term::Runtime(t), _) => mixed_ty(&t.clone().into()),
        (Term::ConstType(t), _) => mixed_ty(&(**t).clone().into()),
        _ => false,
    }
}
/// Lists of lists of types that start with a variable are taken for lists of types.
fn mixed(f: &FuncValueType) -> bool {
    f.input().iter().chain(f.output().iter()).any(mixed_ty)
}
    fn mixed_ty(t: &TypeRV) -> bool {
        match t.as_type_enum() {
            TypeEnum::Extension(c) => {
                let Some(e) = c.extension_ref().upgrade() else { return false };
                let ks = e.get_type(c.name()).unwrap().params().to_vec();
                c.args().iter().zip(&ks).any(|(t, k)| mixed_term(t, k))
            }
            TypeEnum::Function(f) => mixed(f),
            TypeEnum::Sum(s) => s.variants().any(|r| r.iter().any(mixed_ty)),
            _ => false,
        }
    }

fn context(c: &mut Chooser, n: usize) -> Vec<Term> {
    (0..c.choose(n + 1)).map(|_| c.pick(&KINDS[..]).clone()).collect()
}
/// A body over a context: a row of types (and row variables), or one nested deeply.
fn body(c: &mut Chooser, ctx: &[Term], d: usize) -> FuncValueType {
    match c.choose(3) {
        0 => FuncValueType::new(vec![TypeRV::from(c.pick(&types(L, ctx, d, 6)).clone())], none()),
        1 => {
            let rs = rows(ctx, 0, 4);
            FuncValueType::new(c.pick(&rs).clone(), c.pick(&rs).clone())
        }
        _ => {
            let rs = rows(ctx, 0, 4);
            let f = Type::new_function(FuncValueType::new(c.pick(&rs).clone(), none()));
            FuncValueType::new(vec![TypeRV::from(boxed(1, Type::new_sum([TypeRowRV::from(vec![TypeRV::from(f.clone())]), rs[rs.len() - 1].clone().into()]).into()))], vec![TypeRV::from(boxed(2, Term::List(vec![f.into()])))])
        }
    }
}
const TARGETS: usize = 4;
fn target(i: usize) -> Vec<Term> {
    let l = |t: Term| Term::new_list_type(t);
    match i {
        0 => vec![],
        1 => vec![l(C.into()), L.into()],
        2 => vec![Term::max_nat_type(), Term::StaticType, Term::new_tuple_type(vec![Term::from(C), Term::max_nat_type()])],
        _ => vec![C.into(), l(L.into()), Term::new_const(b()), l(l(L.into()))],
    }
}
fn substitution(c: &mut Chooser, cov: &mut Cov, n: usize, depth: usize, w: usize) -> Res {
    let ctx = context(c, n);
    let f = body(c, &ctx, depth);
    let delta = target(c.choose(TARGETS));
    let mut args = vec![];
    for k in &ctx {
        let ts = terms(k, &delta, 1, w);
        if ts.is_empty() {
            return Err(Fail::Skip);
        }
        args.push(c.pick(&ts).clone());
    }
    let d = format!("forall {ctx:?}. {f} at {args:?} over {delta:?}");
    cov.describe(|| d.clone());
    cov.trace();
    let key = if mixed(&f) || args.iter().zip(&ctx).any(|(t, k)| mixed_term(t, k)) { "list-of-lists-starting-with-variable" } else { "" };
    let tell = |x: Res| x.map_err(|e| match e {
        Fail::Bad { key: k, msg } if k.is_empty() => Fail::Bad { key: key.into(), msg },
        e => e,
    });
    let p = poly(&ctx, f.clone());
    ensure!(p.validate().is_ok(), "HARNESS the body is not valid: {} | {d}", p.validate().unwrap_err());
    cov.step(1);
    let r = inst(&p, &args, &d)?.or_else(|e| bad(format!("refused: {e} | {d}")))?;
    tell((|| {
        let want = guard(|| canon_fn(&f, Some(&args[..]))).or_else(|e| bad(format!("HARNESS {e} | {d}")))?;
        cov.state(&want);
        ensure_eq!(guard(|| canon_fn(&r, None)).or_else(|e| bad(format!("ill-kinded result {r}: {e} | {d}")))?, want, "substitution gives {r} | {d}");
        // the result is well-kinded in the target context, and its parts report their bounds
        let p2 = poly(&delta, r.clone());
        ensure!(p2.validate().is_ok(), "the result {r} is invalid: {} | {d}", p2.validate().unwrap_err());
        r.input().iter().chain(r.output().iter()).try_for_each(|t| bounds_ok(t, &d))?;
        // substituting again
        if delta.is_empty() {
            return Ok(());
        }
        let tau: Vec<Term> = delta.iter().map(|k| terms(k, &[], 1, 3).last().cloned().unwrap_or_else(|| Term::new_var_use(0, k.clone()))).collect();
        let two = inst(&p2, &tau, &d)?.or_else(|e| bad(format!("then at {tau:?}: refused: {e} | {d}")))?;
        let mut comp = vec![];
        for (a, k) in args.iter().zip(&ctx) {
            let i = KINDS.iter().position(|x| x == k).unwrap();
            let x = inst(&poly(&delta, FuncValueType::new(vec![TypeRV::from(boxed(i, a.clone()))], none())), &tau, &d)?.or_else(|e| bad(format!("argument at {tau:?}: refused: {e} | {d}")))?;
            let x: Vec<TypeRV> = x.input().iter().cloned().collect();
            let [t] = &x[..] else { return bad(format!("argument at {tau:?} gives {x:?} | {d}")) };
            let TypeEnum::Extension(e) = t.as_type_enum() else { return bad(format!("argument at {tau:?} gives {t} | {d}")) };
            comp.push(e.args()[0].clone());
        }
        let one = inst(&p, &comp, &d)?.or_else(|e| bad(format!("at the composition {comp:?}: refused: {e} | {d}")))?;
        let c = |x: &FuncValueType| guard(|| canon_fn(x, None)).or_else(|e| bad(format!("ill-kinded {x}: {e} | {d}")));
        ensure_eq!(c(&two)?, c(&one)?, "then at {tau:?}, and at the composition {comp:?} | {d}");
        ensure!(two == one, "then at {tau:?}: {two} and at the composition {comp:?}: {one} are not equal | {d}");
        Ok(())
    })())
}
fn reload(p: &PolyFuncTypeRV, d: &str) -> Res<PolyFuncTypeRV> {
    let mut h = Hugr::new();
    let sig = Signature::new(vec![Type::new_function(p.body().clone())], vec![]);
    let f = ops::FuncDecl::new("f", hugr_core::types::PolyFuncType::new(p.params().to_vec(), sig));
    crate::prog::add(&mut h, hugr_core::HugrView::module_root(&Hugr::new()), f);
    let s = h.store_str(hugr_core::envelope::EnvelopeConfig::text()).or_else(|e| bad(format!("storing: {e} | {d}")))?;
    let g = Hugr::load_str(s, Some(&REG)).or_else(|e| bad(format!("loading: {e} | {d}")))?;
    let n = g.children(g.module_root()).next().unwrap();
    let ops::OpType::FuncDecl(f) = g.get_optype(n) else { return bad(format!("not a declaration | {d}")) };
    let TypeEnum::Function(ft) = f.signature().body().input()[0].as_type_enum() else { return bad(format!("not a function type | {d}")) };
    Ok(poly(f.signature().params(), (**ft).clone()))
}
pub fn run(r: &mut Runner) {
    r.assume("tuples spliced from variables are not checked against their kind (documented as not implemented) and not generated");
    r.family("inhabitation", "every term of every kind (depth 2, two-variable contexts) against every kind", 60.0, |c, cov| {
        let ctx = context(c, 2);
        let ki = c.choose(KINDS.len());
        let ts = terms(&KINDS[ki], &ctx, 2, 60);
        if ts.is_empty() {
            return Err(Fail::Skip);
        }
        let t = c.pick(&ts).clone();
        cov.trace();
        cov.state(format!("{t:?}"));
        for k in KINDS.iter().chain(&ctx) {
            cov.step(1);
            let want = guard(|| inhabits(&t, k)).unwrap();
            ensure_eq!(check_term_type(&t, k).is_ok(), want, "whether {t:?} fits {k:?}");
            ensure_eq!(check_term_types(&[t.clone(), t.clone()], &[KINDS[ki].clone(), k.clone()]).is_ok(), want, "whether {t:?} fits {:?} and {k:?}", KINDS[ki]);
            // as the argument of a type definition
            let i = KINDS.iter().position(|x| x == k).unwrap();
            let made = guard(|| EXT.get_type(&format!("k{i}")).unwrap().instantiate(vec![t.clone()])).or_else(|e| bad(format!("k{i}({t:?}): panic {e}")))?;
            ensure_eq!(made.is_ok(), want, "whether k{i} takes {t:?}");
            if let Ok(x) = made {
                bounds_ok(&Type::new_extension(x).into(), "instantiated")?;
            }
            // and when it was made without a check
            let raw = guard(|| boxed(i, t.clone()));
            if let Ok(raw) = raw {
                let p = poly(&ctx, FuncValueType::new(vec![TypeRV::from(raw)], none()));
                let v = guard(|| p.validate().is_ok()).or_else(|e| bad(format!("validating k{i}({t:?}): panic {e}")))?;
                ensure_eq!(v, want, "whether k{i}({t:?}) is valid over {ctx:?}");
            }
        }
        ensure!(check_term_types(&[t.clone()], &[]).is_err() && check_term_types(&[], &[KINDS[ki].clone()]).is_err(), "wrong number of arguments accepted");
        // parts
        if matches!(KINDS[ki], Term::ListType(_)) {
            let v: Vec<_> = t.clone().into_list_parts().collect();
            ensure!(v.iter().all(|p| !matches!(p, SeqPart::Splice(Term::List(_) | Term::ListConcat(_)))), "parts of {t:?}: {v:?}");
            let u = Term::new_list_from_parts(v.clone());
            ensure_eq!(canon(&u, &KINDS[ki], None), canon(&t, &KINDS[ki], None), "{t:?} from its parts");
            ensure_eq!(u.into_list_parts().collect::<Vec<_>>(), v, "parts of {t:?} from its parts");
        }
        if matches!(KINDS[ki], Term::TupleType(_)) {
            let v: Vec<_> = t.clone().into_tuple_parts().collect();
            ensure_eq!(Term::new_tuple_from_parts(v.clone()).into_tuple_parts().collect::<Vec<_>>(), v, "parts of {t:?} from its parts");
        }
        Ok(())
    });
    r.family("bounds", "every type to depth 2 over every two-variable context: the reported bound of every part, variable declarations, serialization", r.b(60.0, 120.0), |c, cov| {
        let ctx = context(c, 2);
        let t = c.pick(&types(L, &ctx, 2, 6)).clone();
        cov.trace();
        cov.step(1);
        cov.state(format!("{t:?}"));
        let d = format!("{t} over {ctx:?}");
        bounds_ok(&t.clone().into(), &d)?;
        let p = poly(&ctx, FuncValueType::new(vec![TypeRV::from(t.clone())], none()));
        ensure!(p.validate().is_ok(), "invalid: {} | {d}", p.validate().unwrap_err());
        // declared otherwise, the use of a variable is an error
        for i in 0..ctx.len() {
            let used = format!("{t:?}").contains(&format!("idx: {i}")) || uses(&t.clone().into(), i);
            for k in KINDS.iter().filter(|k| **k != ctx[i]) {
                let mut x = ctx.clone();
                x[i] = k.clone();
                ensure_eq!(poly(&x, p.body().clone()).validate().is_ok(), !used, "validity when variable {i} is declared {k:?} | {d}");
            }
            ensure_eq!(poly(&ctx[..i], p.body().clone()).validate().is_ok(), !(i..ctx.len()).any(|j| uses(&t.clone().into(), j)), "validity with {i} variables | {d}");
        }
        let p2 = reload(&p, &d)?;
        ensure!(p2 == p, "reloaded as {p2} | {d}");
        ensure_eq!(canon_fn(p2.body(), None), canon_fn(p.body(), None), "reloaded | {d}");
        p2.body().input().iter().try_for_each(|t| bounds_ok(t, &d))?;
        // substitution commutes with it
        let args: Vec<Term> = ctx.iter().map(|k| terms(k, &[], 1, 4).last().cloned().unwrap_or_else(|| Term::new_var_use(0, k.clone()))).collect();
        let key = if mixed(p.body()) { "list-of-lists-starting-with-variable" } else { "" };
        let (a, z) = (inst(&p, &args, &d)?, inst(&p2, &args, &d)?);
        if a != z {
            return bad_key(key, format!("at {args:?}: {a:?}, after reloading {z:?} | {d}"));
        }
        Ok(())
    });
    r.family("equality", "all pairs of types of a pool (depth 2), and all sums of up to three variants written in every way", 60.0, |c, cov| {
        let ctx: Vec<Term> = vec![L.into(), Term::new_list_type(C)];
        if c.flag() {
            let pool = types(L, &ctx, 1, 4);
            let pool: Vec<Type> = pool.iter().cloned().chain(pool.iter().take(40).map(|t| Type::new_sum([vec![t.clone()], vec![]]))).collect();
            let (x, y) = (c.pick(&pool).clone(), c.pick(&pool).clone());
            cov.trace();
            cov.step(1);
            let eq = canon_ty(&x.clone().into(), None) == canon_ty(&y.clone().into(), None);
            let same = x == y;
            // lists can be written in several ways
            ensure!(!same || eq, "{x:?} == {y:?}");
            let plain = !format!("{x:?}{y:?}").contains("Concat");
            ensure!(!eq || same || !plain, "{x:?} != {y:?}");
            ensure!(!same || hash(&x) == hash(&y), "hashes of {x:?} and {y:?}");
            let (xr, yr): (TypeRV, TypeRV) = (x.clone().into(), y.clone().into());
            ensure!((xr == yr) == same && (xr == y) == same && (x == yr) == same && (Term::from(x.clone()) == Term::from(y.clone())) == same, "equality of {x} and {y} depends on the wrapper");
            ensure!(Type::try_from(xr) == Ok(x.clone()), "{x} back from a row entry");
            return Ok(());
        }
        let rs: Vec<TypeRowRV> = rows(&ctx, 0, 5).into_iter().map(|r| r.into()).collect();
        let v: Vec<TypeRowRV> = (0..c.choose(4)).map(|_| c.pick(&rs).clone()).collect();
        let w: Vec<TypeRowRV> = if c.flag() { v.clone() } else { (0..c.choose(3)).map(|_| c.pick(&rs).clone()).collect() };
        let ways = |v: &Vec<TypeRowRV>| {
            let mut x = vec![SumType::new(v.clone()), SumType::General { rows: v.clone() }];
            if v.iter().all(|r| r.is_empty()) {
                x.push(SumType::Unit { size: v.len() as u8 });
                x.push(SumType::new_unary(v.len() as u8));
            }
            let j: SumType = serde_json::from_str(&serde_json::to_string(&x[0]).unwrap()).unwrap();
            x.push(j);
            let j: SumType = serde_json::from_str(&serde_json::to_string(&x[1]).unwrap()).unwrap();
            x.push(j);
            x
        };
        cov.trace();
        for x in ways(&v) {
            cov.step(1);
            let d = format!("{x:?}");
            ensure_eq!(x.num_variants(), v.len(), "variants | {d}");
            ensure_eq!(x.variants().cloned().collect::<Vec<_>>(), v, "variants | {d}");
            for i in 0..5 {
                ensure_eq!(x.get_variant(i), v.get(i), "variant {i} | {d}");
            }
            ensure_eq!(x.as_tuple(), if v.len() == 1 { v.first() } else { None }, "as tuple | {d}");
            let opt = if v.len() == 2 && v[0].is_empty() { Some(&v[1]) } else { None };
            ensure_eq!(x.as_option(), opt, "as option | {d}");
            ensure_eq!(x.as_unary_option(), opt.filter(|r| r.iter().count() == 1).map(|r| &r.as_slice()[0]), "as unary option | {d}");
            let t = Type::from(x.clone());
            bounds_ok(&t.clone().into(), &d)?;
            ensure!(t.as_sum() == Some(&x), "as a type {t} | {d}");
            for y in ways(&w) {
                let eq = v == w;
                ensure_eq!(x == y, eq, "{d} and {y:?}");
                ensure_eq!(t == Type::from(y.clone()), eq, "{d} and {y:?} as types");
                ensure!(!eq || hash(&x) == hash(&y) && hash(&t) == hash(&Type::from(y.clone())), "{d} and {y:?}: hashes");
                ensure!(!eq || x.to_string() == y.to_string(), "{d} and {y:?}: shown as {x} and {y}");
            }
        }
        Ok(())
    });
    let (n1, n2) = (1, 2);
    let w = r.b(4, 12);
    r.family("substitution", "every polymorphic row over one variable of every kind (depth 2), every argument over four contexts; composition with a second substitution", r.b(60.0, 200.0), move |c, cov| substitution(c, cov, n1, 2, 5 * w));
    r.family("substitution2", "every polymorphic row over two variables of all kinds (depth 1), every pair of arguments over four contexts", r.b(100.0, 400.0), move |c, cov| substitution(c, cov, n2, 1, w));
    r.family("refusal", "every polymorphic row over one or two variables with every argument list in which one argument has another kind, is missing or is surplus", r.b(60.0, 120.0), |c, cov| {
        let ctx = context(c, 2);
        let f = body(c, &ctx, 1);
        let mut args: Vec<Term> = ctx.iter().map(|k| terms(k, &[], 0, 1).last().cloned().unwrap_or_else(|| Term::new_var_use(0, k.clone()))).collect();
        match c.choose(3) {
            0 => args.push(b().into()),
            1 if !args.is_empty() => drop(args.pop()),
            2 if !args.is_empty() => {
                let i = c.choose(args.len());
                let k = c.pick(&KINDS[..]).clone();
                let Some(t) = terms(&k, &target(3), 1, 3).last().cloned() else { return Err(Fail::Skip) };
                args[i] = t;
            }
            _ => return Err(Fail::Skip),
        }
        cov.trace();
        cov.step(1);
        let d = format!("forall {ctx:?}. {f} at {args:?}");
        cov.state(&d);
        let want = args.len() == ctx.len() && args.iter().zip(&ctx).all(|(t, k)| guard(|| inhabits(t, k)).unwrap());
        ensure_eq!(inst(&poly(&ctx, f), &args, &d)?.is_ok(), want, "accepted | {d}");
        Ok(())
    });
}
/// Whether the variable occurs in the type.
fn uses(t: &TypeRV, i: usize) -> bool {
    fn term(t: &Term, i: usize) -> bool {
        match t {
            Term::Variable(v) => v.index() == i,
            Term::Runtime(t) => uses(&t.clone().into(), i),
            Term::List(v) | Term::ListConcat(v) | Term::Tuple(v) | Term::TupleConcat(v) => v.iter().any(|t| term(t, i)),
            Term::ListType(t) | Term::TupleType(t) => term(t, i),
            Term::ConstType(t) => uses(&(**t).clone().into(), i),
            _ => false,
        }
    }
    match t.as_type_enum() {
        TypeEnum::Variable(j, _) => *j == i,
        TypeEnum::RowVar(r) => r.0 == i,
        TypeEnum::Extension(c) => c.args().iter().any(|t| term(t, i)),
        TypeEnum::Function(f) => f.input().iter().chain(f.output().iter()).any(|t| uses(t, i)),
        TypeEnum::Sum(s) => s.variants().any(|r| r.iter().any(|t| uses(t, i))),
        _ => false,
    }
}
