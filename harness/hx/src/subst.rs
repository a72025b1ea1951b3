//! Reference substitution of type arguments for variables, on plain trees.
use hugr_core::types::type_param::TypeArg;
use hugr_core::types::{CustomType, FuncValueType, Signature, SumType, Term, Type, TypeEnum, TypeRV, TypeRowRV};

pub fn term(t: &Term, a: &[TypeArg]) -> Term {
    match t {
        Term::Variable(v) => a[v.index()].clone(),
        Term::Runtime(t) => {
            // a row variable never occurs as a bare runtime term
            Term::Runtime(ty(t, a))
        }
        Term::List(v) => Term::List(
            v.iter()
                .flat_map(|x| match (x, term(x, a)) {
                    // a row variable in a list of types
                    (Term::Variable(y), Term::List(z)) if y.bound_if_row_var().is_some() => z,
                    (_, x) => vec![x],
                })
                .collect(),
        ),
        Term::Tuple(v) => Term::Tuple(v.iter().map(|x| term(x, a)).collect()),
        Term::ListConcat(v) => {
            let mut parts = vec![];
            for x in v {
                flat_list(&term(x, a), &mut parts);
            }
            rebuild(parts, Term::List, Term::ListConcat)
        }
        Term::TupleConcat(v) => {
            let mut parts = vec![];
            for x in v {
                flat_tuple(&term(x, a), &mut parts);
            }
            rebuild(parts, Term::Tuple, Term::TupleConcat)
        }
        Term::ListType(e) => Term::ListType(Box::new(term(e, a))),
        Term::TupleType(e) => Term::TupleType(Box::new(term(e, a))),
        Term::ConstType(e) => Term::new_const(ty(e, a)),
        t => t.clone(),
    }
}
/// Items (Ok) and unexpanded sub-sequences (Err).
fn flat_list(t: &Term, out: &mut Vec<Result<Term, Term>>) {
    match t {
        Term::List(v) => out.extend(v.iter().cloned().map(Ok)),
        Term::ListConcat(v) => v.iter().for_each(|x| flat_list(x, out)),
        t => out.push(Err(t.clone())),
    }
}
fn flat_tuple(t: &Term, out: &mut Vec<Result<Term, Term>>) {
    match t {
        Term::Tuple(v) => out.extend(v.iter().cloned().map(Ok)),
        Term::TupleConcat(v) => v.iter().for_each(|x| flat_tuple(x, out)),
        t => out.push(Err(t.clone())),
    }
}
fn rebuild(parts: Vec<Result<Term, Term>>, list: fn(Vec<Term>) -> Term, cat: fn(Vec<Term>) -> Term) -> Term {
    if parts.iter().all(|p| p.is_ok()) {
        return list(parts.into_iter().map(|p| p.unwrap()).collect());
    }
    let mut segs: Vec<Term> = vec![];
    let mut run = vec![];
    for p in parts {
        match p {
            Ok(x) => run.push(x),
            Err(x) => {
                if !run.is_empty() {
                    segs.push(list(std::mem::take(&mut run)));
                }
                segs.push(x);
            }
        }
    }
    if !run.is_empty() {
        segs.push(list(run));
    }
    if segs.len() == 1 { segs.pop().unwrap() } else { cat(segs) }
}
pub fn ty(t: &Type, a: &[TypeArg]) -> Type {
    let mut v = ty_rv(&t.clone().into(), a);
    assert_eq!(v.len(), 1);
    v.pop().unwrap().try_into_type().expect("HARNESS: row variable in a type")
}
/// A row element becomes a sequence.
pub fn ty_rv(t: &TypeRV, a: &[TypeArg]) -> Vec<TypeRV> {
    vec![match t.as_type_enum() {
        TypeEnum::RowVar(r) => {
            let mut parts = vec![];
            flat_list(&a[r.0], &mut parts);
            return parts
                .into_iter()
                .map(|p| match p {
                    Ok(Term::Runtime(t)) => t.into(),
                    Err(Term::Variable(v)) => TypeRV::new_row_var_use(v.index(), r.1),
                    x => panic!("HARNESS: row variable replaced by {x:?}"),
                })
                .collect();
        }
        TypeEnum::Variable(i, _) => match &a[*i] {
            Term::Runtime(t) => t.clone().into(),
            x => panic!("HARNESS: type variable replaced by {x:?}"),
        },
        TypeEnum::Alias(_) => t.clone(),
        TypeEnum::Extension(c) => TypeRV::new_extension(custom(c, a)),
        TypeEnum::Function(f) => TypeRV::new_function(FuncValueType::new(row(f.input(), a), row(f.output(), a))),
        TypeEnum::Sum(s) => TypeRV::from(sum(s, a)),
    }]
}
pub fn row(r: &TypeRowRV, a: &[TypeArg]) -> Vec<TypeRV> {
    r.iter().flat_map(|t| ty_rv(t, a)).collect()
}
pub fn sum(s: &SumType, a: &[TypeArg]) -> SumType {
    SumType::new((0..s.num_variants()).map(|k| row(s.get_variant(k).unwrap(), a)).collect::<Vec<_>>())
}
/// Argument-wise; the bound is that which the type's definition computes.
pub fn custom(c: &CustomType, a: &[TypeArg]) -> CustomType {
    let args: Vec<Term> = c.args().iter().map(|x| term(x, a)).collect();
    let bound = match c.extension_ref().upgrade().and_then(|e| e.get_type(c.name()).map(|d| d.bound(&args))) {
        Some(b) => b,
        None => c.bound(),
    };
    CustomType::new(c.name().clone(), args, c.extension().clone(), bound, &c.extension_ref())
}
pub fn sig(s: &Signature, a: &[TypeArg]) -> Signature {
    Signature::new(s.input().iter().map(|t| ty(t, a)).collect::<Vec<_>>(), s.output().iter().map(|t| ty(t, a)).collect::<Vec<_>>())
}
pub fn sig_rv(s: &FuncValueType, a: &[TypeArg]) -> FuncValueType {
    FuncValueType::new(row(s.input(), a), row(s.output(), a))
}
