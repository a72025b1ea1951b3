//! C20: registries keep the newest extensions whatever the order, and resolution makes
//! every reference point at the registry's definitions or fails.
use crate::c04::{self, FORMATS, load_pkg, packaged, params, poly_prog, rich, store, typed, types, values};
use crate::explore::*;
use crate::families::{gen_valid, standard};
use crate::prog::*;
use crate::{ensure, ensure_eq};
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat, read_described_envelope};
use hugr_core::extension::resolution::WeakExtensionRegistry;
use hugr_core::extension::{Extension, ExtensionRegistry, ExtensionRegistryError, SignatureFunc, TypeDefBound};
use hugr_core::ops::{self, OpType, Value};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::{DataflowOpTrait, OpTrait};
use hugr_core::package::Package;
use hugr_core::types::{CustomType, PolyFuncType, Signature, SumType, Term, Type, TypeBound, TypeEnum, TypeRV};
use hugr_core::{Hugr, HugrView, Node, Visibility};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

// ---------------------------------------------------------------- visiting references
type Visit<'a> = &'a mut dyn FnMut(&CustomType);
fn v_ty(t: &TypeRV, f: Visit) {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => {
            f(c);
            c.args().iter().for_each(|a| v_term(a, f));
        }
        TypeEnum::Function(s) => s.input().iter().chain(s.output().iter()).for_each(|t| v_ty(t, f)),
        TypeEnum::Sum(SumType::General { rows }) => rows.iter().for_each(|r| r.iter().for_each(|t| v_ty(t, f))),
        _ => {}
    }
}
fn v_t(t: &Type, f: Visit) {
    v_ty(&t.clone().into(), f)
}
fn v_term(t: &Term, f: Visit) {
    match t {
        Term::Runtime(t) => v_t(t, f),
        Term::ConstType(t) => v_t(t, f),
        Term::List(v) | Term::Tuple(v) | Term::ListConcat(v) | Term::TupleConcat(v) => v.iter().for_each(|x| v_term(x, f)),
        Term::ListType(x) | Term::TupleType(x) => v_term(x, f),
        _ => {}
    }
}
fn v_sig(s: &Signature, f: Visit) {
    s.input().iter().chain(s.output().iter()).for_each(|t| v_t(t, f))
}
fn v_poly(p: &PolyFuncType, f: Visit) {
    p.params().iter().for_each(|x| v_term(x, f));
    v_sig(p.body(), f)
}
fn v_val(v: &Value, f: Visit) {
    match v {
        Value::Sum(s) => {
            v_t(&v.get_type(), f);
            s.values.iter().for_each(|v| v_val(v, f));
        }
        Value::Function { .. } => {}
        v => v_t(&v.get_type(), f),
    }
}
fn v_op(o: &OpType, f: Visit) {
    match o {
        OpType::FuncDefn(d) => v_poly(d.signature(), f),
        OpType::FuncDecl(d) => v_poly(d.signature(), f),
        OpType::Const(k) => v_val(k.value(), f),
        OpType::AliasDefn(d) => v_t(&d.definition, f),
        OpType::ExtensionOp(e) => e.args().iter().for_each(|a| v_term(a, f)),
        OpType::Call(k) => {
            v_poly(&k.func_sig, f);
            k.type_args.iter().for_each(|a| v_term(a, f));
        }
        OpType::LoadFunction(k) => {
            v_poly(&k.func_sig, f);
            k.type_args.iter().for_each(|a| v_term(a, f));
        }
        OpType::ExitBlock(e) => e.cfg_outputs.iter().for_each(|t| v_t(t, f)),
        OpType::DataflowBlock(e) => e.inputs.iter().chain(e.other_outputs.iter()).chain(e.sum_rows.iter().flat_map(|r| r.iter())).for_each(|t| v_t(t, f)),
        OpType::Case(e) => v_sig(&e.signature, f),
        _ => {}
    }
    if let Some(s) = o.dataflow_signature() {
        v_sig(&s, f)
    }
}

/// The extension names that occur in the JSON form of a HUGR, not counting function values.
fn json_names(v: &serde_json::Value, out: &mut BTreeSet<String>) {
    match v {
        serde_json::Value::Object(m) => {
            if m.get("v").and_then(|x| x.as_str()) == Some("Function") {
                return;
            }
            if matches!(m.get("t").and_then(|x| x.as_str()), Some("Q" | "I")) {
                out.insert("prelude".into());
            }
            if let Some(e) = m.get("extension").and_then(|x| x.as_str()) {
                out.insert(e.into());
            }
            m.values().for_each(|x| json_names(x, out));
        }
        serde_json::Value::Array(a) => a.iter().for_each(|x| json_names(x, out)),
        _ => {}
    }
}
fn needed(h: &Hugr) -> Result<BTreeSet<String>, Fail> {
    let b = store(&Package::from_hugr(h.clone()), c04::cfg(EnvelopeFormat::PackageJson, 0)).or_else(|e| bad(format!("HARNESS: {e}")))?;
    let v: serde_json::Value = serde_json::from_slice(&b[10..]).unwrap();
    let mut s = BTreeSet::new();
    json_names(&v["modules"][0]["nodes"], &mut s);
    Ok(s)
}
/// Every reference in `h` points at the definitions of `reg`, and the HUGR's own registry
/// lists exactly `need`.
fn resolved(h: &Hugr, reg: &ExtensionRegistry, need: &BTreeSet<String>, consts: bool) -> Res {
    let mut wrong: Vec<String> = vec![];
    for n in h.nodes() {
        let o = h.get_optype(n);
        // constants of compiled-in extensions compute their types from these extensions
        if !consts && matches!(o, OpType::Const(_)) {
            continue;
        }
        v_op(o, &mut |c| match (c.extension_ref().upgrade(), reg.get(c.extension())) {
            (Some(a), Some(z)) if Arc::ptr_eq(&a, z) => {}
            (a, z) => wrong.push(format!("type {c} of {n} {o} refers to {:?}, the registry has {:?}", a.map(|a| a.version().to_string()), z.map(|z| z.version().to_string()))),
        });
        match o {
            OpType::ExtensionOp(e) => {
                let z = reg.get(e.def().extension_id());
                if !matches!((e.def().extension().upgrade(), z), (Some(a), Some(z)) if Arc::ptr_eq(&a, z)) || !z.and_then(|z| z.get_op(e.def().name())).is_some_and(|d| Arc::ptr_eq(d, e.def_arc())) {
                    wrong.push(format!("operation of {n} {o} is not that of the registry"));
                }
            }
            OpType::OpaqueOp(_) => wrong.push(format!("{n} {o} is still opaque")),
            _ => {}
        }
    }
    if let Some(w) = wrong.first() {
        return bad(w.clone());
    }
    let have: BTreeSet<String> = h.extensions().ids().map(|i| i.to_string()).collect();
    ensure_eq!(&have, need, "extensions reported as used and those that occur");
    for e in h.extensions().iter() {
        ensure!(!consts || reg.get(e.name()).is_some_and(|z| Arc::ptr_eq(z, e)), "the HUGR's extension {} is not the registry's", e.name());
    }
    Ok(())
}

// ---------------------------------------------------------------- registry operations
fn registry_ops(c: &mut Chooser, cov: &mut Cov, depth: usize) -> Res {
    let v = |s: &str| semver::Version::parse(s).unwrap();
    let plain = |n: &str, s: &str| Arc::new(Extension::new(n.try_into().unwrap(), v(s)));
    // an extension with an operation whose signature uses an undeclared variable
    let broken = Extension::new_arc("a".try_into().unwrap(), v("3.0.0"), |e, w| {
        let t = Type::new_var_use(0, TypeBound::Copyable);
        e.add_op("o".into(), "".into(), SignatureFunc::from(PolyFuncType::from(Signature::new(vec![t], vec![]))), w).unwrap();
    });
    let exts = [plain("a", "2.0.0"), plain("a", "2.0.0"), plain("a", "2.0.0-rc.1"), plain("a", "10.0.0"), broken, plain("b", "1.0.0"), plain("b", "0.9.0")];
    let bad_ext = |e: &Arc<Extension>| Arc::ptr_eq(e, &exts[4]);
    let mut r = ExtensionRegistry::default();
    let mut m: BTreeMap<String, Arc<Extension>> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let upd = |m: &mut BTreeMap<String, Arc<Extension>>, e: &Arc<Extension>| {
        let k = e.name().to_string();
        if m.get(&k).is_none_or(|o| o.version() < e.version()) {
            m.insert(k, e.clone());
        }
    };
    for _ in 0..depth {
        let n = exts.len();
        match c.choose(3 * n + 7) {
            k if k < n => {
                let e = &exts[k];
                log.push(format!("register {k}"));
                let got = r.register(e.clone());
                match (m.get(&e.name().to_string()), got) {
                    (None, Ok(())) => {
                        m.insert(e.name().to_string(), e.clone());
                    }
                    (Some(o), Err(ExtensionRegistryError::AlreadyRegistered(n, old, new))) => {
                        ensure!(n == *e.name() && *old == *o.version() && *new == *e.version(), "error names {n} {old} {new} after {log:?}");
                    }
                    (o, g) => return bad(format!("register with {:?} present gave {g:?} after {log:?}", o.map(|o| o.version().to_string()))),
                }
            }
            k if k < 2 * n => {
                log.push(format!("register_updated {}", k - n));
                r.register_updated(exts[k - n].clone());
                upd(&mut m, &exts[k - n]);
            }
            k if k < 3 * n => {
                log.push(format!("register_updated_ref {}", k - 2 * n));
                r.register_updated_ref(&exts[k - 2 * n]);
                upd(&mut m, &exts[k - 2 * n]);
            }
            k => {
                let k = k - 3 * n;
                match k {
                    0 => return Ok(()),
                    1 | 2 => {
                        let name = ["a", "b"][k - 1];
                        log.push(format!("remove {name}"));
                        let got = r.remove_extension(&name.try_into().unwrap());
                        let want = m.remove(name);
                        ensure!(got.as_ref().map(Arc::as_ptr) == want.as_ref().map(Arc::as_ptr), "remove {name} after {log:?}");
                    }
                    3 => {
                        log.push("validate".into());
                        let want = m.values().find(|e| bad_ext(e)).map(|e| e.name().clone());
                        let got = r.validate().err().map(|e| match e {
                            ExtensionRegistryError::InvalidSignature(n, _) => n,
                            _ => "other".try_into().unwrap(),
                        });
                        ensure_eq!(got, want, "validate after {log:?}");
                    }
                    4 => {
                        log.push("clone".into());
                        r = r.clone();
                    }
                    5 => {
                        log.push("extend by reference with a registry of 2 and 5".into());
                        let o = ExtensionRegistry::new([exts[2].clone(), exts[5].clone()]);
                        r.extend(&o);
                        upd(&mut m, &exts[2]);
                        upd(&mut m, &exts[5]);
                    }
                    _ => {
                        log.push("merge into a new registry of 4 and 1".into());
                        let mut o = ExtensionRegistry::new([exts[1].clone(), exts[4].clone()]);
                        o.extend(r);
                        r = o;
                        let old = std::mem::take(&mut m);
                        upd(&mut m, &exts[1]);
                        upd(&mut m, &exts[4]);
                        old.values().for_each(|e| upd(&mut m, e));
                    }
                }
            }
        }
        cov.step(1);
        if !c.fresh() {
            continue;
        }
        ensure!(r.len() == m.len() && r.is_empty() == m.is_empty(), "size after {log:?}");
        let have: Vec<_> = r.iter().map(Arc::as_ptr).collect();
        let want: Vec<_> = m.values().map(Arc::as_ptr).collect();
        ensure!(have == want, "content after {log:?}: {:?} instead of {:?}", r.iter().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>(), m.values().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>());
        for n in ["a", "b", "c"] {
            ensure!(r.contains(n) == m.contains_key(n) && r.get(n).map(Arc::as_ptr) == m.get(n).map(Arc::as_ptr), "lookup of {n} after {log:?}");
        }
        ensure!(r.ids().map(|i| i.to_string()).eq(m.keys().cloned()), "ids after {log:?}");
        cov.state(m.values().map(|e| (e.name().to_string(), exts.iter().position(|x| Arc::ptr_eq(x, e)))).collect::<Vec<_>>());
    }
    cov.describe(|| log.join("; "));
    cov.trace();
    Ok(())
}

// ---------------------------------------------------------------- loading extensions
/// The extensions loaded: (name, version, types, names of the types its operations use).
struct Spec {
    name: &'static str,
    ver: &'static str,
    types: &'static [&'static str],
    ops: &'static [(&'static str, &'static [(&'static str, &'static str)])],
}
const SPECS: [Spec; 5] = [
    Spec { name: "x", ver: "1.0.0", types: &["T"], ops: &[("o", &[("x", "T")])] },
    Spec { name: "x", ver: "1.1.0", types: &["T", "U"], ops: &[("o", &[("x", "T")]), ("p", &[("x", "U")])] },
    Spec { name: "y", ver: "1.0.0", types: &["R"], ops: &[("o", &[("x", "T"), ("y", "R")])] },
    Spec { name: "z", ver: "1.0.0", types: &[], ops: &[("o", &[("y", "R"), ("prelude", "usize")]), ("n", &[])] },
    Spec { name: "w", ver: "1.0.0", types: &["W"], ops: &[("o", &[("x", "U")])] },
];
fn ext_json(k: usize) -> serde_json::Value {
    let s = &SPECS[k];
    let ty = |(e, t): &(&str, &str)| serde_json::json!({"t": "Opaque", "extension": e, "id": t, "args": [], "bound": "C"});
    let types: serde_json::Map<_, _> = s.types.iter().map(|t| (t.to_string(), serde_json::json!({"extension": s.name, "name": t, "params": [], "description": "", "bound": {"b": "Explicit", "bound": "C"}}))).collect();
    let ops: serde_json::Map<_, _> = s
        .ops
        .iter()
        .map(|(o, ts)| {
            let row: Vec<_> = ts.iter().map(ty).collect();
            // the types also occur nested in a sum and in a function type
            let nest = serde_json::json!({"t": "Sum", "s": "General", "rows": [row, [{"t": "G", "input": row, "output": []}]]});
            (o.to_string(), serde_json::json!({"extension": s.name, "name": o, "description": "", "signature": {"params": [], "body": {"input": row, "output": [nest]}}, "binary": false, "lower_funcs": []}))
        })
        .collect();
    serde_json::json!({"version": s.ver, "name": s.name, "types": types, "operations": ops})
}
/// Every reference inside the definitions of an extension.
fn ext_refs(e: &Extension) -> Vec<(String, String, Option<Arc<Extension>>)> {
    let mut v = vec![];
    for (n, t) in e.types() {
        v.push((format!("definition of type {n}"), t.extension_id().to_string(), t.extension().upgrade()));
        for p in t.params() {
            v_term(p, &mut |c| v.push((format!("parameter of {n}: {c}"), c.extension().to_string(), c.extension_ref().upgrade())));
        }
    }
    for (n, o) in e.operations() {
        v.push((format!("definition of operation {n}"), o.extension_id().to_string(), o.extension().upgrade()));
        let p = match o.signature_func() {
            SignatureFunc::PolyFuncType(p) => p,
            _ => continue,
        };
        for t in p.body().input().iter().chain(p.body().output().iter()) {
            v_ty(t, &mut |c| v.push((format!("signature of {n}: {c}"), c.extension().to_string(), c.extension_ref().upgrade())));
        }
        for x in p.params() {
            v_term(x, &mut |c| v.push((format!("parameter of {n}: {c}"), c.extension().to_string(), c.extension_ref().upgrade())));
        }
    }
    v
}
/// Loads lists of extensions against a registry, and checks the references.
fn loading(c: &mut Chooser, cov: &mut Cov, len: usize) -> Res {
    // the registry offered: prelude or not, and x or y known already
    let mut other = ExtensionRegistry::default();
    if c.flag() {
        other.register_updated(hugr_core::extension::PRELUDE.clone());
    }
    let known = c.choose(4);
    let ks: &[usize] = [&[][..], &[0], &[1], &[0, 2]][known];
    if !ks.is_empty() {
        let j = serde_json::Value::Array(ks.iter().map(|k| ext_json(*k)).collect());
        let Ok(x) = ExtensionRegistry::load_json(j.to_string().as_bytes(), &ExtensionRegistry::default()) else { return bad("HARNESS: known extensions") };
        other.extend(x);
    }
    let n = c.choose(len + 1);
    let list: Vec<usize> = (0..n).map(|_| c.choose(SPECS.len())).collect();
    let names = |v: &[usize]| v.iter().map(|k| format!("{}@{}", SPECS[*k].name, SPECS[*k].ver)).collect::<Vec<_>>();
    let d = format!("loading {:?} with {:?}", names(&list), other.iter().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>());
    cov.describe(|| d.clone());
    cov.state(&d);
    let j = serde_json::Value::Array(list.iter().map(|k| ext_json(*k)).collect());
    let missing = list.iter().any(|k| SPECS[*k].ops.iter().flat_map(|o| o.1).any(|(e, _)| !other.contains(e) && !list.iter().any(|l| SPECS[*l].name == *e)));
    cov.step(1);
    cov.trace();
    let got = match guard(|| ExtensionRegistry::load_json(j.to_string().as_bytes(), &other)) {
        Err(m) => return bad(format!("{d}: panic {m}")),
        Ok(g) => g,
    };
    ensure!(got.is_err() == missing, "{d}: missing definitions {missing}, result {:?}", got.map(|_| ()));
    let Ok(got) = got else { return Ok(()) };
    let mut want: BTreeMap<&str, &str> = BTreeMap::new();
    for k in &list {
        let s = &SPECS[*k];
        let e = want.entry(s.name).or_insert(s.ver);
        if *e < s.ver {
            *e = s.ver;
        }
    }
    let have: BTreeMap<String, String> = got.iter().map(|e| (e.name().to_string(), e.version().to_string())).collect();
    ensure!(have.iter().map(|(a, b)| (a.as_str(), b.as_str())).eq(want.iter().map(|(a, b)| (*a, *b))), "{d}: registry has {have:?}");
    // what is known afterwards
    let mut all = other.clone();
    all.extend(&got);
    for e in got.iter() {
        for (what, name, at) in ext_refs(e) {
            match (&at, all.get(&name)) {
                (Some(a), Some(z)) if Arc::ptr_eq(a, z) => {}
                (a, z) => return bad(format!("{d}: in {}@{}: {what} refers to {:?} but the newest is {:?}", e.name(), e.version(), a.as_ref().map(|a| a.version().to_string()), z.map(|z| z.version().to_string()))),
            }
        }
    }
    Ok(())
}
/// A package with extensions, loaded against registries that know other versions.
fn versions(c: &mut Chooser, cov: &mut Cov) -> Res {
    let f = *c.pick(&FORMATS);
    // the extensions the program was made with
    let made_with = [vec![0, 2, 3], vec![1, 2, 3, 4]][c.choose(2)].clone();
    let mut base = ExtensionRegistry::new([hugr_core::extension::PRELUDE.clone()]);
    let j = serde_json::Value::Array(made_with.iter().map(|k| ext_json(*k)).collect());
    let Ok(exts) = ExtensionRegistry::load_json(j.to_string().as_bytes(), &base) else { return bad("HARNESS: extensions") };
    // a program with one operation
    let uses: Vec<(usize, &str)> = made_with.iter().flat_map(|k| SPECS[*k].ops.iter().map(move |o| (*k, o.0))).collect();
    let (k, o) = *c.pick(&uses);
    let op = exts.get(SPECS[k].name).unwrap().instantiate_extension_op(o, []).unwrap();
    let sig = op.signature().into_owned();
    let mut h = Hugr::new();
    let (fu, i, out) = func(&mut h, "main", sig.clone(), Visibility::Public);
    let n = add(&mut h, fu, op);
    for p in 0..sig.input_count() {
        h.connect(i, p, n, p);
    }
    for p in 0..sig.output_count() {
        h.connect(n, p, out, p);
    }
    let need = needed(&h)?;
    // which of the extensions are packaged, which known, and the version of x known
    let pack: Vec<&Arc<Extension>> = exts.iter().filter(|_| c.flag()).collect();
    let kn = [vec![], vec![0], vec![1], vec![0, 2, 3], vec![1, 2, 3, 4]][c.choose(5)].clone();
    let j = serde_json::Value::Array(kn.iter().map(|k| ext_json(*k)).collect());
    let Ok(known) = ExtensionRegistry::load_json(j.to_string().as_bytes(), &base) else { return bad("HARNESS: known") };
    base.extend(known);
    let mut p = Package::from_hugr(h);
    p.extensions = ExtensionRegistry::new(pack.iter().map(|e| (*e).clone()));
    let d = format!("operation {}.{o} in {f}, packaged {:?}, known {:?}", SPECS[k].name, pack.iter().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>(), base.iter().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>());
    cov.describe(|| d.clone());
    cov.state(&d);
    let bytes = store(&p, c04::cfg(f, 0)).or_else(|e| bad(format!("{d}: storing: {e}")))?;
    cov.step(1);
    cov.trace();
    // what the reader knows in the end
    let with = if c04::has_exts(f) { p.extensions.iter().map(|e| e.name().to_string()).collect() } else { BTreeSet::new() };
    let spec_of = |name: &str| -> Option<&Spec> {
        let a = made_with.iter().filter(|k| SPECS[**k].name == name && with.contains(name)).map(|k| &SPECS[*k]);
        let z = kn.iter().filter(|k| SPECS[**k].name == name).map(|k| &SPECS[*k]);
        a.chain(z).max_by_key(|s| s.ver)
    };
    let has_type = |e: &str, t: &str| if e == "prelude" { true } else { spec_of(e).is_some_and(|s| s.types.contains(&t)) };
    // the packaged extensions must find the extensions they refer to
    let refs_ok = with.iter().all(|n| made_with.iter().filter(|k| SPECS[**k].name == *n).all(|k| SPECS[*k].ops.iter().flat_map(|o| o.1).all(|(e, _)| *e == "prelude" || spec_of(e).is_some())));
    let used_types = SPECS[k].ops.iter().find(|x| x.0 == o).unwrap().1;
    let ok = refs_ok && need.iter().all(|n| n == "prelude" || spec_of(n).is_some()) && spec_of(SPECS[k].name).is_some_and(|s| s.ops.iter().any(|x| x.0 == o)) && used_types.iter().all(|(e, t)| has_type(e, t));
    let got = load_pkg(&bytes, &base);
    match got {
        Err(e) if e.starts_with("panic") => bad(format!("{d}: {e}")),
        Err(e) => {
            cov.outcome("rejected");
            ensure!(!ok, "{d}: rejected although everything is known: {e}");
            Ok(())
        }
        Ok(p2) => {
            let h = &p2.modules[0];
            let v = guard(|| h.validate()).or_else(|e| bad(format!("{d}: validating: {e}")))?;
            // a type missing from the known version may be found on loading or on validation
            ensure!(ok || v.is_err(), "{d}: accepted although a definition is missing");
            if !ok {
                cov.outcome("invalid");
                return Ok(());
            }
            cov.outcome("accepted");
            ensure!(v.is_ok(), "{d}: the loaded HUGR is invalid: {}", v.err().unwrap());
            let mut all = base.clone();
            all.extend(&p2.extensions);
            resolved(h, &all, &need, true).map_err(|e| at(&d, e))
        }
    }
}
fn at(d: &str, e: Fail) -> Fail {
    match e {
        Fail::Bad { key, msg } => Fail::Bad { key, msg: format!("{d}: {msg}") },
        s => s,
    }
}

// ---------------------------------------------------------------- programs
/// Loads `h` with the full registry, with each extension missing, and with only those needed.
fn programs(h: &Hugr, reg: &ExtensionRegistry, f: EnvelopeFormat, d: &str, c: &mut Chooser, cov: &mut Cov) -> Res {
    let need = needed(h)?;
    cov.state((d, f.to_string()));
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.validate().is_err())).unwrap_or(true) {
        return Err(Fail::Skip);
    }
    let bytes = store(&Package::from_hugr(h.clone()), c04::cfg(f, 0)).or_else(|e| bad(format!("{d}: storing: {e}")))?;
    // full, only the needed, one needed missing, one not needed missing
    let ns: Vec<&String> = need.iter().collect();
    let k = c.choose(3 + ns.len());
    let (mut r, miss) = (reg.clone(), k >= 3);
    match k {
        0 => {}
        1 => {
            r = ExtensionRegistry::new(reg.iter().filter(|e| need.contains(&e.name().to_string())).cloned());
        }
        2 => {
            // the same definitions in other allocations: what is found must be these
            let j = serde_json::to_string(reg).unwrap();
            match guard(|| ExtensionRegistry::load_json(j.as_bytes(), &ExtensionRegistry::default())) {
                Ok(Ok(x)) if !x.iter().any(|e| need.contains(&e.name().to_string()) && e.operations().any(|(_, o)| matches!(o.signature_func(), SignatureFunc::MissingComputeFunc | SignatureFunc::MissingValidateFunc(_)))) => r = x,
                Ok(Ok(_)) => return Err(Fail::Skip),
                Ok(Err(e)) => return bad(format!("loading the standard registry from JSON: {e}")),
                Err(e) => return bad(format!("loading the standard registry from JSON: panic {e}")),
            }
        }
        _ => {
            r.remove_extension(&ns[k - 3].as_str().try_into().unwrap());
        }
    }
    let d = format!("{d} {f} needing {need:?}{}", if miss { format!(" without {}", ns[k - 3]) } else { ["", " with only those", " with copies of the definitions"][k].into() });
    cov.describe(|| d.clone());
    cov.step(1);
    cov.trace();
    let res = guard(|| read_described_envelope(&bytes[..], &r)).or_else(|e| bad(format!("{d}: panic {e}")))?;
    match res {
        Err(e) => {
            cov.outcome("rejected");
            ensure!(miss, "{d}: rejected although every extension is known: {e}");
            Ok(())
        }
        Ok((desc, p)) => {
            cov.outcome("accepted");
            let h2 = &p.modules[0];
            resolved(h2, &r, &need, k != 2).map_err(|e| at(&d, e))?;
            ensure!(!miss, "{d}: accepted");
            let v = guard(|| h2.validate()).or_else(|e| bad(format!("{d}: validating: {e}")))?;
            ensure!(v.is_ok(), "{d}: the loaded HUGR is invalid: {}", v.err().unwrap());
            let m = desc.modules[0].as_ref().unwrap();
            let listed: BTreeSet<String> = m.used_extensions_resolved.iter().flatten().map(|e| e.name.to_string()).collect();
            ensure_eq!(listed, need, "{d}: extensions in the description");
            Ok(())
        }
    }
}
fn one_value(v: &Value) -> Hugr {
    let mut h = Hugr::new();
    let t = v.get_type();
    let (fu, _, o) = func(&mut h, "main", Signature::new(vec![], vec![t.clone()]), Visibility::Public);
    let k = add(&mut h, fu, ops::Const::new(v.clone()));
    let l = add(&mut h, fu, ops::LoadConstant { datatype: t });
    h.connect(k, 0, l, 0);
    h.connect(l, 0, o, 0);
    h
}

pub fn run(r: &mut Runner) {
    let _ = (WeakExtensionRegistry::default(), EnvelopeConfig::default(), TypeDefBound::any(), Node::from(portgraph::NodeIndex::new(0)));
    r.assume("the extensions a program uses are those named in its nodes' operations, types, type arguments and constants, not those used only inside function values");
    let d = r.b(4, 5);
    r.family("registry", &format!("every sequence of at most {d} register/update/remove/merge/clone/validate operations with seven extensions of two names"), r.b(60.0, 400.0), move |c, cov| registry_ops(c, cov, d));
    let n = r.b(3, 4);
    r.family("loading", &format!("every list of at most {n} of five interdependent extensions (two versions of one) loaded against eight registries"), r.b(30.0, 200.0), move |c, cov| loading(c, cov, n));
    r.family("versions", "one operation of every extension, every subset of extensions packaged, five sets of known extensions, five formats", 60.0, versions);
    let reg = Arc::new({
        let mut x = registry();
        packaged().into_iter().for_each(|e| x.register_updated(e));
        x
    });
    let rg = reg.clone();
    r.family("types", "every type passed through every kind of region: full registry, only what is needed, each needed extension missing, copies of the definitions; five formats", 60.0, move |c, cov| {
        let f = *c.pick(&FORMATS);
        let ts = types();
        let t = c.pick(&ts).clone();
        programs(&typed(&t), &rg, f, &format!("type {t}"), c, cov)
    });
    let rg = reg.clone();
    r.family("params", "every kind of type parameter and argument (also constants of a type), likewise", 60.0, move |c, cov| {
        let f = *c.pick(&FORMATS);
        let ps = params();
        let (p, a) = c.pick(&ps).clone();
        let a = c.pick(&a).clone();
        if matches!(&a, Term::Float(x) if !x.is_finite()) {
            return Err(Fail::Skip);
        }
        let decl = c.flag();
        programs(&poly_prog(&p, &a, decl)?, &rg, f, &format!("parameter {p:?} argument {a:?} {decl}"), c, cov)
    });
    let rg = reg.clone();
    r.family("values", "every kind of constant, likewise", 60.0, move |c, cov| {
        let f = *c.pick(&FORMATS);
        let vs = values();
        let v = c.pick(&vs).clone();
        let t = v.get_type();
        if !t.copyable() || format!("{v:?}").contains("Function") {
            return Err(Fail::Skip);
        }
        programs(&one_value(&v), &rg, f, &format!("value {v:?}"), c, cov)
    });
    let rg = reg.clone();
    r.family("alias", "alias definitions of every type, likewise", 30.0, move |c, cov| {
        let f = *c.pick(&FORMATS);
        let ts = types();
        let t = c.pick(&ts).clone();
        let mut h = Hugr::new();
        let m = h.module_root();
        add(&mut h, m, ops::AliasDefn { name: "df".into(), definition: t.clone() });
        programs(&h, &rg, f, &format!("alias of {t}"), c, cov)
    });
    let rg = reg.clone();
    r.family("rich", "the program with every kind of node, likewise", 30.0, move |c, cov| {
        let f = *c.pick(&FORMATS);
        let h = rich(c.flag(), c.flag());
        programs(&h, &rg, f, "rich", c, cov)
    });
    for fam in standard(false) {
        let mut g = fam.g;
        if r.quick() {
            g.stmts = g.stmts.min(2);
        }
        let rg = reg.clone();
        r.family(fam.name, &format!("every program of at most {} statements of the family, likewise (JSON)", g.stmts), r.b(6.0, 60.0), move |c, cov| {
            let (h, _, d) = gen_valid(c, &g, cov)?;
            programs(&h, &rg, EnvelopeFormat::PackageJson, &d, c, cov)
        });
    }
}
