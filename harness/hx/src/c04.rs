//! C04: every storage format returns the package that was stored.
use crate::explore::*;
use crate::families::*;
use crate::prog::*;
use crate::ensure;
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig};
use hugr_core::extension::{Extension, ExtensionRegistry, SignatureFunc};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals};
use hugr_core::ops::constant::{CustomSerialized, Sum};
use hugr_core::ops::{self, OpType, Value};
use hugr_core::package::Package;
use hugr_core::std_extensions::arithmetic::float_types::ConstF64;
use hugr_core::std_extensions::arithmetic::int_types::ConstInt;
use hugr_core::std_extensions::collections::array::ArrayValue;
use hugr_core::types::type_param::TypeParam;
use hugr_core::types::{PolyFuncType, Signature, SumType, Term, Type, TypeArg, TypeBound, TypeRow};
use hugr_core::{Hugr, HugrView, Node, PortIndex, Visibility};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;
use std::sync::Arc;

pub const FORMATS: [EnvelopeFormat; 5] = [EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelText, EnvelopeFormat::ModelTextWithExtensions];
pub fn is_model(f: EnvelopeFormat) -> bool {
    f != EnvelopeFormat::PackageJson
}
pub fn has_exts(f: EnvelopeFormat) -> bool {
    !matches!(f, EnvelopeFormat::Model | EnvelopeFormat::ModelText)
}

fn val_text(v: &Value, model: bool) -> String {
    match v {
        Value::Extension { e } => {
            let j = match e.value().downcast_ref::<CustomSerialized>() {
                Some(c) => c.value().to_string(),
                None => serde_json::to_value(e.value()).unwrap().to_string(),
            };
            format!("ext {} : {:?}", j, e.get_type())
        }
        Value::Function { hugr } => format!("fn {{{}}}", normal(hugr, model)),
        Value::Sum(s) => format!("sum {} {:?} [{}]", s.tag, s.sum_type.variants().map(|r| format!("{r:?}")).collect::<Vec<_>>(), s.values.iter().map(|v| val_text(v, model)).collect::<Vec<_>>().join(",")),
    }
}
/// A rendering of a HUGR independent of node indices. In the model formats
/// constants are not nodes but arguments of their loads, so they are rendered at the
/// load (and the metadata of nodes that only exist in `hugr-core` is left out).
pub fn normal(h: &Hugr, model: bool) -> String {
    let skip = |n: Node| model && matches!(h.get_optype(n), OpType::Const(_));
    let mut v = vec![];
    fn dfs(h: &Hugr, n: Node, v: &mut Vec<Node>) {
        v.push(n);
        for c in h.children(n) {
            dfs(h, c, v);
        }
    }
    dfs(h, h.module_root(), &mut v);
    v.retain(|n| !skip(*n));
    let ix: HashMap<Node, usize> = v.iter().enumerate().map(|(k, n)| (*n, k)).collect();
    let mut s = String::new();
    for n in &v {
        let op = h.get_optype(*n);
        let t = match op {
            OpType::Const(c) => format!("Const({})", val_text(c.value(), model)),
            OpType::ExtensionOp(e) => format!("{}.{}@{:?}<{:?}>{:?}", e.def().extension_id(), e.def().name(), e.def().extension().upgrade().map(|x| x.version().to_string()), e.args(), hugr_core::ops::dataflow::DataflowOpTrait::signature(e)),
            OpType::LoadConstant(l) if model => {
                let c = h.static_source(*n).map(|c| h.get_optype(c));
                format!("Load {:?} {:?}", l, c.map(|c| match c { OpType::Const(c) => val_text(c.value(), model), o => format!("{o:?}") }))
            }
            o => format!("{o:?}"),
        };
        let _ = write!(s, "{}<{:?} {t} [{},{}]", ix[n], h.get_parent(*n).map(|p| ix[&p]), h.num_inputs(*n), h.num_outputs(*n));
        for p in h.node_outputs(*n) {
            let mut t: Vec<(usize, usize)> = h.linked_inputs(*n, p).filter_map(|(m, q)| Some((*ix.get(&m)?, q.index()))).collect();
            t.sort();
            if !t.is_empty() {
                let _ = write!(s, " {}>{t:?}", p.index());
            }
        }
        if !(model && no_model_meta(op)) {
            let md: BTreeMap<_, _> = h.node_metadata_map(*n).iter().collect();
            if !md.is_empty() {
                let _ = write!(s, " #{md:?}");
            }
        }
        s.push('\n');
    }
    let e = h.entrypoint();
    let _ = write!(s, "entry {:?}", ix.get(&e));
    s
}
/// Nodes that have no counterpart in the model, so nowhere to keep metadata.
fn no_model_meta(o: &OpType) -> bool {
    matches!(o, OpType::Input(_) | OpType::Output(_) | OpType::ExitBlock(_) | OpType::Const(_))
}
pub fn diff(a: &str, z: &str) -> String {
    let (x, y): (Vec<_>, Vec<_>) = (a.lines().collect(), z.lines().collect());
    for k in 0..x.len().max(y.len()) {
        if x.get(k) != y.get(k) {
            return format!("stored   {:?}\n reloaded {:?}", x.get(k), y.get(k));
        }
    }
    "(equal)".into()
}
fn ext_text(r: &ExtensionRegistry) -> String {
    r.iter().map(|e| serde_json::to_string(e.as_ref()).unwrap()).collect::<Vec<_>>().join("\n")
}
pub fn store(p: &Package, c: EnvelopeConfig) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    match guard(|| p.store(&mut v, c)) {
        Ok(Ok(())) => Ok(v),
        Ok(Err(e)) => Err(format!("error {e}")),
        Err(e) => Err(format!("panic {e}")),
    }
}
fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut x = e.source();
    while let Some(y) = x {
        let _ = write!(s, ": {y}");
        x = y.source();
    }
    s
}
pub fn load_pkg(b: &[u8], r: &ExtensionRegistry) -> Result<Package, String> {
    match guard(|| Package::load(std::io::BufReader::new(b), Some(r))) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("error {}", chain(&e))),
        Err(e) => Err(format!("panic {e}")),
    }
}
/// Failures are told apart by format and by the shape of the failure.
fn key(f: EnvelopeFormat, what: &str) -> String {
    let t: String = what.lines().filter(|l| !l.trim().is_empty()).take(4).collect::<Vec<_>>().join(" ").chars().filter(|c| !c.is_ascii_digit()).take(160).collect();
    let f = match f {
        EnvelopeFormat::PackageJson => "json",
        EnvelopeFormat::Model | EnvelopeFormat::ModelWithExtensions => "model",
        _ => "text",
    };
    format!("{f}: {t}")
}
/// The recorded losses of the model formats: are the two equal apart from one?
fn relax(x: &str, y: &str) -> Option<&'static str> {
    let nat = |s: &str| {
        let mut o = String::new();
        let mut r = s;
        while let Some(k) = r.find("UpperBound(Some(") {
            o += &r[..k];
            o += "UpperBound(None";
            r = r[k + 16..].split_once(')').map_or("", |z| z.1);
        }
        o + r
    };
    let nested = |s: &str| s.replace("ListType(RuntimeType(Copyable))", "ListType(RuntimeType(Linear))").replace("[RuntimeType(Copyable), StringType]", "[RuntimeType(Linear), StringType]");
    let alias = |s: &str| s.replace("AliasDecl { name: \"lin\", bound: Linear }", "AliasDecl { name: \"lin\", bound: Copyable }");
    if nat(x) == nat(y) {
        return Some("model-nat-bound");
    }
    if nested(x) == nested(y) {
        return Some("model-nested-copyable");
    }
    if alias(x) == alias(y) {
        return Some("model-alias-bound");
    }
    None
}
/// Give a failure the name of the recorded defect that the input has.
fn known(r: Res, name: Option<&str>, msg_has: &str) -> Res {
    match (r, name) {
        (Err(Fail::Bad { key: _, msg }), Some(n)) if msg.contains(msg_has) => bad_key(n, msg),
        (r, _) => r,
    }
}
/// Store and load in one configuration, and compare.
pub fn round(p: &Package, reg: &ExtensionRegistry, c: EnvelopeConfig, d: &str, cov: &mut Cov) -> Res {
    let f = c.format;
    let m = is_model(f);
    let w = format!("{f} zstd {:?}", c.zstd.map(|z| z.level()));
    let b1 = match store(p, c) {
        Ok(x) => x,
        Err(e) => return bad_key(key(f, &e), format!("{w}: storing fails: {e}\n {d}")),
    };
    let q = match load_pkg(&b1, reg) {
        Ok(x) => x,
        Err(e) => return bad_key(key(f, &e), format!("{w}: loading what was stored fails: {e}\n {d}")),
    };
    cov.step(2);
    if q.modules.len() != p.modules.len() {
        return bad_key(key(f, "other"), format!("{w}: {} modules became {}\n {d}", p.modules.len(), q.modules.len()));
    }
    for (i, (a, z)) in p.modules.iter().zip(&q.modules).enumerate() {
        let (x, y) = (normal(a, m), normal(z, m));
        if x != y {
            let known = relax(&x, &y).filter(|_| m);
            return bad_key(known.map(String::from).unwrap_or_else(|| key(f, &diff(&x, &y))), format!("{w}: module {i} changed:\n {}\n {d}", diff(&x, &y)));
        }
        // used extensions
        let (x, y): (BTreeSet<String>, BTreeSet<String>) = (a.extensions().ids().map(|i| i.to_string()).collect(), z.extensions().ids().map(|i| i.to_string()).collect());
        let miss: Vec<_> = x.difference(&y).collect();
        let _ = miss;
    }
    if has_exts(f) {
        let (x, y) = (ext_text(&p.extensions), ext_text(&q.extensions));
        if x != y {
            return bad_key(key(f, "other"), format!("{w}: packaged extensions changed\n {}\n {d}", diff(&x, &y)));
        }
    }
    // again
    let b2 = match store(&q, c) {
        Ok(x) => x,
        Err(e) => return bad_key(key(f, "other"), format!("{w}: storing the reloaded package fails: {e}\n {d}")),
    };
    let q2 = match load_pkg(&b2, reg) {
        Ok(x) => x,
        Err(e) => return bad_key(key(f, "other"), format!("{w}: loading the package stored again fails: {e}\n {d}")),
    };
    let b3 = store(&q2, c).unwrap_or_default();
    cov.step(3);
    cov.outcome(if b1 == b2 { "same bytes" } else { "same bytes from the second store on" });
    if b2 != b3 {
        return bad_key("bytes", format!("{w}: storing a reloaded package does not settle:\n {}\n {}\n {d}", String::from_utf8_lossy(&b2), String::from_utf8_lossy(&b3)));
    }
    // text forms
    if c.zstd.is_none() && f.ascii_printable() {
        let s = p.store_str(c).map_err(|e| Fail::Bad { key: "store_str".into(), msg: format!("{w}: store_str fails {e}\n {d}") })?;
        ensure!(s.as_bytes() == b1, "{w}: store_str differs from store\n {d}");
    }
    if let [h] = &p.modules[..] {
        if p.extensions.is_empty() {
            let mut v = vec![];
            if let Err(e) = h.store(&mut v, c) {
                return bad(format!("{w}: Hugr::store fails {e}\n {d}"));
            }
            ensure!(v == b1, "{w}: Hugr::store differs from Package::store\n {d}");
            match guard(|| Hugr::load(std::io::BufReader::new(&v[..]), Some(reg))) {
                Ok(Ok(g)) => ensure!(normal(&g, m) == normal(&q.modules[0], m), "{w}: Hugr::load differs from Package::load\n {d}"),
                Ok(Err(e)) => return bad(format!("{w}: Hugr::load fails {e}\n {d}")),
                Err(e) => return bad(format!("{w}: Hugr::load panics {e}\n {d}")),
            }
        }
    }
    cov.trace();
    Ok(())
}
pub fn cfg(f: EnvelopeFormat, z: usize) -> EnvelopeConfig {
    let c = EnvelopeConfig::new(f);
    match z {
        0 => c,
        1 => c.with_zstd(ZstdConfig::default_level()),
        l => c.with_zstd(ZstdConfig::new((l - 1) as u8)),
    }
}
/// One valid program with every kind of operation. Between nodes there are gaps in
/// the numbering where `gaps` is set.
pub fn rich(gaps: bool, rev: bool) -> Hugr {
    let mut h = Hugr::new();
    let m = h.module_root();
    let mut junk = vec![];
    let mut gap = |h: &mut Hugr, p: Node| {
        if gaps {
            let n = add(h, p, ops::FuncDecl::new("junk", Signature::new(vec![], vec![])));
            junk.push(n);
        }
    };
    gap(&mut h, m);
    let (f, fi, fo) = func(&mut h, "id", PolyFuncType::new([TypeBound::Copyable.into()], { let t = Type::new_var_use(0, TypeBound::Copyable); Signature::new(vec![t.clone()], vec![t]) }), Visibility::Private);
    wire(&mut h, (fi, 0), fo, 0);
    gap(&mut h, m);
    let decl = add(&mut h, m, ops::FuncDecl::new("ext", pbool()));
    let (main, i, o) = func(&mut h, "main", Signature::new(vec![b(), q()], vec![b(), q()]), Visibility::Public);
    gap(&mut h, m);
    // constants in the module and locally
    let k0 = add(&mut h, m, ops::Const::new(Value::true_val()));
    let k1 = add(&mut h, main, ops::Const::new(ConstInt::new_u(3, 5).unwrap().into()));
    let l0 = add(&mut h, main, ops::LoadConstant { datatype: b() });
    h.connect(k0, 0, l0, 0);
    let l0b = add(&mut h, main, ops::LoadConstant { datatype: b() });
    h.connect(k0, 0, l0b, 0);
    let l1 = add(&mut h, main, ops::LoadConstant { datatype: int8() });
    h.connect(k1, 0, l1, 0);
    let a = add(&mut h, main, logic("And"));
    wire(&mut h, (i, 0), a, 0);
    wire(&mut h, (l0, 0), a, 1);
    // call, load function, indirect call
    let fs = h.get_optype(f).as_func_defn().unwrap().signature().clone();
    let call = add(&mut h, main, ops::Call::try_new(fs, vec![b().into()]).unwrap());
    wire(&mut h, (a, 0), call, 0);
    h.connect(f, 0, call, 1);
    let call2 = add(&mut h, main, ops::Call::try_new(pbool().into(), vec![]).unwrap());
    wire(&mut h, (call, 0), call2, 0);
    h.connect(decl, 0, call2, 1);
    let lf = add(&mut h, main, ops::LoadFunction::try_new(pbool().into(), vec![]).unwrap());
    h.connect(decl, 0, lf, 0);
    let ci = add(&mut h, main, ops::CallIndirect { signature: pbool() });
    wire(&mut h, (lf, 0), ci, 0);
    wire(&mut h, (call2, 0), ci, 1);
    // conditional with two cases
    let cond = add(&mut h, main, ops::Conditional { sum_rows: vec![vec![].into(), vec![].into()], other_inputs: vec![q()].into(), outputs: vec![q()].into() });
    wire(&mut h, (ci, 0), cond, 0);
    wire(&mut h, (i, 1), cond, 1);
    for _ in 0..2 {
        let c = add(&mut h, cond, ops::Case { signature: Signature::new(vec![q()], vec![q()]) });
        let (x, y) = region_io(&mut h, c, vec![q()], vec![q()]);
        wire(&mut h, (x, 0), y, 0);
    }
    // loop
    let lp = add(&mut h, main, ops::TailLoop { just_inputs: vec![].into(), just_outputs: vec![b()].into(), rest: vec![b(), q()].into() });
    wire(&mut h, (l0b, 0), lp, 0);
    wire(&mut h, (cond, 0), lp, 1);
    {
        let (x, y) = region_io(&mut h, lp, vec![b(), q()], vec![Type::new_sum([vec![], vec![b()]]), b(), q()]);
        let t = add(&mut h, lp, tag_op(1));
        wire(&mut h, (x, 0), t, 0);
        wire(&mut h, (t, 0), y, 0);
        wire(&mut h, (x, 0), y, 1);
        wire(&mut h, (x, 1), y, 2);
        order(&mut h, x, t);
    }
    // control flow
    let cf = add(&mut h, main, ops::CFG { signature: Signature::new(vec![b()], vec![b()]) });
    wire(&mut h, (lp, 0), cf, 0);
    {
        let blk = |h: &mut Hugr, n: usize| {
            let op = ops::DataflowBlock { inputs: vec![b()].into(), other_outputs: vec![b()].into(), sum_rows: vec![vec![].into(); n] };
            let k = add(h, cf, op);
            let (x, y) = region_io(h, k, vec![b()], vec![Type::new_unit_sum(n as u8), b()]);
            if n == 2 {
                wire(h, (x, 0), y, 0);
            } else {
                let c = add(h, k, ops::Const::new(Value::unary_unit_sum()));
                let l = add(h, k, ops::LoadConstant { datatype: Type::new_unit_sum(1) });
                h.connect(c, 0, l, 0);
                wire(h, (l, 0), y, 0);
            }
            wire(h, (x, 0), y, 1);
            k
        };
        let b0 = blk(&mut h, 2);
        let ex = add(&mut h, cf, ops::ExitBlock { cfg_outputs: vec![b()].into() });
        let b1 = blk(&mut h, 1);
        h.connect(b0, 0, b1, 0);
        h.connect(b0, 1, ex, 0);
        h.connect(b1, 0, b1, 0);
    }
    // nested region with a non-local read, extension operations, order edges
    let d = add(&mut h, main, ops::DFG { signature: Signature::new(vec![b()], vec![b()]) });
    wire(&mut h, (cf, 0), d, 0);
    {
        let (x, y) = region_io(&mut h, d, vec![b()], vec![b()]);
        let n = add(&mut h, d, logic("And"));
        wire(&mut h, (x, 0), n, 0);
        wire(&mut h, (a, 0), n, 1);
        wire(&mut h, (n, 0), y, 0);
        order(&mut h, a, d);
    }
    let e0 = add(&mut h, main, test_op("eff_a"));
    let e1 = add(&mut h, main, test_op("eff_a"));
    order(&mut h, i, e0);
    order(&mut h, e0, e1);
    order(&mut h, e0, d);
    order(&mut h, e1, o);
    wire(&mut h, (d, 0), o, 0);
    wire(&mut h, (lp, 2), o, 1);
    let al = add(&mut h, m, ops::AliasDefn { name: "al".into(), definition: b() });
    let ad = add(&mut h, m, ops::AliasDecl { name: "ad".into(), bound: TypeBound::Copyable });
    add(&mut h, m, ops::AliasDefn { name: "other".into(), definition: Type::new_function(pbool()) });
    if rev {
        h.move_before_sibling(e1, e0);
        h.move_before_sibling(d, a);
        h.move_before_sibling(main, f);
        h.move_before_sibling(ad, al);
    }
    for j in junk {
        h.remove_node(j);
    }
    h
}
/// Metadata values.
fn metas() -> Vec<serde_json::Value> {
    use serde_json::json;
    vec![json!({"a": [1, "x", null, {"b": 1.5}]}), json!(null), json!("quote \" back \\ tab \t nl \n \u{1}\u{7f}\u{e9}\u{1f600}"), json!(18446744073709551615u64), json!(-9223372036854775808i64), json!(1e300), json!([]), json!(true)]
}
pub fn types() -> Vec<Type> {
    let mut v = vec![b(), q(), int8(), hugr_core::extension::prelude::usize_t(), hugr_core::extension::prelude::string_type(), hugr_core::std_extensions::arithmetic::float_types::float64_type(), Type::new_unit_sum(0), Type::UNIT, Type::new_unit_sum(3), Type::new_unit_sum(255)];
    let base = v.clone();
    use hugr_core::std_extensions::collections::array::array_type;
    use hugr_core::std_extensions::collections::list::list_type;
    for t in &base {
        v.push(Type::new_sum([vec![t.clone()], vec![]]));
        v.push(Type::new_tuple(vec![t.clone(), b()]));
        v.push(Type::new_function(Signature::new(vec![t.clone()], vec![])));
        v.push(array_type(2, t.clone()));
        v.push(list_type(t.clone()));
    }
    v.push(Type::new_function(Signature::new(vec![Type::new_function(pbool())], vec![Type::new_tuple(vec![Type::new_function(pbool())])])));
    v
}
/// Parameters with the arguments to give them.
pub fn params() -> Vec<(TypeParam, Vec<TypeArg>)> {
    let strs = ["", "a", "quote\"\\ \n\t\u{1}\u{e9}\u{1f600}"];
    let fl = [0.0, -0.0, 1.5, -1e300, 5e-324, f64::INFINITY, f64::NEG_INFINITY];
    vec![
        (TypeParam::new_list_type(TypeParam::new_tuple_type([TypeParam::from(TypeBound::Linear), TypeParam::max_nat_type()])), vec![Term::List(vec![Term::Tuple(vec![q().into(), 2u64.into()])])]),
        (TypeBound::Copyable.into(), vec![b().into(), Type::new_function(pbool()).into(), Type::new_unit_sum(0).into()]),
        (TypeBound::Linear.into(), vec![q().into(), b().into(), Type::new_tuple(vec![q(), b()]).into()]),
        (TypeParam::max_nat_type(), vec![0u64.into(), 7u64.into(), u64::MAX.into()]),
        (TypeParam::StringType, strs.iter().map(|s| Term::String((*s).into())).collect()),
        (TypeParam::BytesType, vec![Term::Bytes(Arc::from(&[][..])), Term::Bytes(Arc::from(&[0u8, 255, 34, 92][..]))]),
        (TypeParam::FloatType, fl.iter().map(|f| Term::Float((*f).into())).collect()),
        (TypeParam::new_list_type(TypeBound::Linear), vec![Term::List(vec![]), Term::List(vec![q().into(), b().into()])]),
        (TypeParam::new_list_type(TypeParam::max_nat_type()), vec![Term::List(vec![1u64.into()])]),
        (TypeParam::new_tuple_type([TypeParam::from(TypeBound::Copyable), TypeParam::StringType]), vec![Term::Tuple(vec![b().into(), Term::String("x".into())])]),
        (TypeParam::new_list_type(TypeParam::new_list_type(TypeBound::Copyable)), vec![Term::List(vec![Term::List(vec![b().into()]), Term::List(vec![])])]),
        (TypeParam::bounded_nat_type(8.try_into().unwrap()), vec![3u64.into()]),
        (TypeParam::new_list_type(TypeParam::bounded_nat_type(8.try_into().unwrap())), vec![Term::List(vec![3u64.into()])]),
        (TypeParam::new_list_type(TypeBound::Copyable), vec![Term::List(vec![b().into()])]),
    ]
}
pub fn values() -> Vec<Value> {
    let mut v: Vec<Value> = vec![Value::true_val(), Value::false_val(), Value::unit(), Value::unary_unit_sum()];
    for (w, n) in [(0, 1u64), (3, 255), (6, u64::MAX), (5, 0)] {
        v.push(ConstInt::new_u(w, n).unwrap().into());
    }
    for x in [0.0, -0.0, 1.5, 0.1, 1e300, -5e-324] {
        v.push(ConstF64::new(x).into());
    }
    v.push(hugr_core::extension::prelude::ConstUsize::new(7).into());
    v.push(hugr_core::extension::prelude::ConstUsize::new(u64::MAX).into());
    for s in ["", "plain", "q\"b\\n\nt\tu\u{1}\u{e9}\u{1f600}"] {
        v.push(hugr_core::extension::prelude::ConstString::new(s.into()).into());
    }
    v.push(hugr_core::extension::prelude::ConstError::new(3, "msg").into());
    v.push(hugr_core::extension::prelude::ConstExternalSymbol::new("sym", b(), true).into());
    let base = v.clone();
    for x in &base {
        v.push(Value::tuple([x.clone(), Value::true_val()]));
        v.push(Value::sum(1, [x.clone()], SumType::new([vec![], vec![x.get_type()]])).unwrap());
        v.push(ArrayValue::new(x.get_type(), vec![x.clone(), x.clone()]).into());
        v.push(hugr_core::std_extensions::collections::list::ListValue::new(x.get_type(), vec![x.clone()]).into());
    }
    v.push(ArrayValue::new(b(), vec![]).into());
    v.push(hugr_core::std_extensions::collections::list::ListValue::new(b(), vec![]).into());
    v.push(hugr_core::std_extensions::collections::static_array::StaticArrayValue::try_new("sa", b(), vec![Value::true_val()]).unwrap().into());
    v.push(Value::Sum(Sum { tag: 2, values: vec![], sum_type: SumType::new_unary(3) }));
    // a custom value of an extension that is not loaded as a Rust type
    v.push(CustomSerialized::new(int8(), serde_json::json!({"k": [1, "x"]})).into());
    // function values
    for k in 0..3 {
        v.push(Value::function(fn_value(k)).unwrap());
    }
    v
}
/// A function value; its HUGR has constants, calls and metadata.
fn fn_value(k: usize) -> Hugr {
    let mut h = Hugr::new_with_entrypoint(ops::DFG { signature: pbool() }).unwrap();
    let e = h.entrypoint();
    let (i, o) = match h.children(e).collect::<Vec<_>>()[..] {
        [i, o] => (i, o),
        _ => region_io(&mut h, e, vec![b()], vec![b()]),
    };
    match k {
        0 => wire(&mut h, (i, 0), o, 0),
        1 => {
            let l = load(&mut h, e, e, Value::true_val());
            let a = add(&mut h, e, logic("And"));
            wire(&mut h, (i, 0), a, 0);
            wire(&mut h, l, a, 1);
            wire(&mut h, (a, 0), o, 0);
            let n = add(&mut h, e, test_op("eff_a"));
            order(&mut h, a, n);
        }
        _ => {
            let d = add(&mut h, e, ops::DFG { signature: pbool() });
            let (x, y) = region_io(&mut h, d, vec![b()], vec![b()]);
            let n = add(&mut h, d, logic("And"));
            wire(&mut h, (x, 0), n, 0);
            wire(&mut h, (i, 0), n, 1);
            order(&mut h, i, d);
            wire(&mut h, (n, 0), y, 0);
            wire(&mut h, (i, 0), d, 0);
            wire(&mut h, (d, 0), o, 0);
        }
    }
    h
}
/// Packaged extensions: two that depend on each other's types.
pub fn packaged() -> Vec<Arc<Extension>> {
    let ty = Extension::new_arc("pk.types".try_into().unwrap(), semver::Version::new(1, 2, 3), |e, w| {
        e.add_type("T".into(), vec![TypeBound::Copyable.into()], "a type".into(), hugr_core::extension::TypeDefBound::from_params(vec![0]), w).unwrap();
        e.add_type("Q".into(), vec![], "a linear type".into(), hugr_core::extension::TypeDefBound::any(), w).unwrap();
    });
    let t = Type::new_extension(ty.get_type("T").unwrap().instantiate([b().into()]).unwrap());
    let op = Extension::new_arc("pk.aops".try_into().unwrap(), semver::Version::new(0, 3, 0), |e, w| {
        e.add_op("mk".into(), "makes \"T\"".into(), SignatureFunc::from(PolyFuncType::from(Signature::new(vec![b()], vec![t.clone()]))), w).unwrap();
        let v = Type::new_var_use(0, TypeBound::Linear);
        let d = e.add_op("poly".into(), "polymorphic".into(), SignatureFunc::from(PolyFuncType::new([TypeBound::Linear.into()], Signature::new(vec![v.clone()], vec![v]))), w).unwrap();
        d.add_misc("k", serde_json::json!({"x": 1}));
    });
    vec![ty, op]
}
pub fn uses(exts: &[Arc<Extension>]) -> Hugr {
    let t = Type::new_extension(exts[0].get_type("T").unwrap().instantiate([b().into()]).unwrap());
    let ql = Type::new_extension(exts[0].get_type("Q").unwrap().instantiate([]).unwrap());
    let mut h = Hugr::new();
    let (f, i, o) = func(&mut h, "main", Signature::new(vec![b(), ql.clone()], vec![t.clone(), ql.clone()]), Visibility::Public);
    let m = add(&mut h, f, OpType::from(exts[1].instantiate_extension_op("mk", []).unwrap()));
    wire(&mut h, (i, 0), m, 0);
    let p = add(&mut h, f, OpType::from(exts[1].instantiate_extension_op("poly", [ql.into()]).unwrap()));
    wire(&mut h, (i, 1), p, 0);
    wire(&mut h, (m, 0), o, 0);
    wire(&mut h, (p, 0), o, 1);
    h
}
fn valid(p: &Package, d: &str) -> Res {
    match guard(|| p.validate()) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => bad(format!("the package is not valid: {e}\n {d}")),
        Err(e) => bad(format!("validation panics: {e}\n {d}")),
    }
}
fn one_module(h: Hugr, d: &str) -> Result<Package, Fail> {
    let p = Package::from_hugr(h);
    valid(&p, d)?;
    Ok(p)
}
/// A program with one value of type `t` passed through a region of each kind.
pub fn typed(t: &Type) -> Hugr {
    let mut h = Hugr::new();
    let s = Signature::new(vec![t.clone()], vec![t.clone()]);
    let (f, i, o) = func(&mut h, "main", s.clone(), Visibility::Public);
    let d = add(&mut h, f, ops::DFG { signature: s.clone() });
    let (x, y) = region_io(&mut h, d, vec![t.clone()], vec![t.clone()]);
    let n = add(&mut h, d, ops::Tag::new(1, vec![vec![].into(), vec![t.clone()].into()]));
    wire(&mut h, (x, 0), n, 0);
    let c = add(&mut h, d, ops::Conditional { sum_rows: vec![vec![].into(), vec![t.clone()].into()], other_inputs: vec![].into(), outputs: vec![Type::new_sum([vec![], vec![t.clone()]])].into() });
    wire(&mut h, (n, 0), c, 0);
    for k in 0..2 {
        let row: TypeRow = if k == 0 { vec![].into() } else { vec![t.clone()].into() };
        let cs = add(&mut h, c, ops::Case { signature: Signature::new(row.clone(), vec![Type::new_sum([vec![], vec![t.clone()]])]) });
        let (ci, co) = region_io(&mut h, cs, row.clone(), vec![Type::new_sum([vec![], vec![t.clone()]])]);
        let tg = add(&mut h, cs, ops::Tag::new(k, vec![vec![].into(), vec![t.clone()].into()]));
        if k == 1 {
            wire(&mut h, (ci, 0), tg, 0);
        }
        wire(&mut h, (tg, 0), co, 0);
    }
    let l = add(&mut h, d, ops::TailLoop { just_inputs: vec![].into(), just_outputs: vec![t.clone()].into(), rest: vec![Type::new_sum([vec![], vec![t.clone()]])].into() });
    wire(&mut h, (c, 0), l, 0);
    let so = Type::new_sum([vec![], vec![t.clone()]]);
    let (li, lo) = region_io(&mut h, l, vec![so.clone()], vec![so.clone(), so.clone()]);
    wire(&mut h, (li, 0), lo, 0);
    let mk = add(&mut h, l, ops::Tag::new(0, vec![vec![].into(), vec![t.clone()].into()]));
    wire(&mut h, (mk, 0), lo, 1);
    wire(&mut h, (l, 0), y, 0);
    wire(&mut h, (i, 0), d, 0);
    wire(&mut h, (d, 0), o, 0);
    // the second result of the loop must go somewhere if it is linear
    if !t.copyable() {
        let m = m_of(&h);
        let dl = add(&mut h, m, ops::FuncDecl::new("drop", Signature::new(vec![so.clone()], vec![])));
        let c = add(&mut h, d, ops::Call::try_new(Signature::new(vec![so], vec![]).into(), vec![]).unwrap());
        wire(&mut h, (l, 1), c, 0);
        h.connect(dl, 0, c, 1);
    }
    h
}
fn m_of(h: &Hugr) -> Node {
    h.module_root()
}
pub fn poly_prog(p: &TypeParam, a: &TypeArg, decl: bool) -> Result<Hugr, Fail> {
    // a polymorphic function whose parameter is only passed on, called at an argument
    let mut h = Hugr::new();
    let sig = PolyFuncType::new([p.clone()], Signature::new(vec![], vec![]));
    let g = if decl {
        let m = m_of(&h);
        add(&mut h, m, ops::FuncDecl::new("g", sig.clone()))
    } else {
        let (g, _, _) = func(&mut h, "g", sig.clone(), Visibility::Public);
        // recursive call at its own variable
        let v = Term::new_var_use(0, p.clone());
        let Ok(c) = ops::Call::try_new(sig.clone(), vec![v]) else { return Err(Fail::Skip) };
        let c = add(&mut h, g, c);
        h.connect(g, 0, c, 0);
        g
    };
    let (f, _, o) = func(&mut h, "main", Signature::new(vec![], vec![Type::new_function(Signature::new(vec![], vec![]))]), Visibility::Public);
    let Ok(c) = ops::Call::try_new(sig.clone(), vec![a.clone()]) else { return bad(format!("{a:?} is no {p:?}")) };
    let c = add(&mut h, f, c);
    h.connect(g, 0, c, 0);
    let l = add(&mut h, f, ops::LoadFunction::try_new(sig, vec![a.clone()]).unwrap());
    h.connect(g, 0, l, 0);
    wire(&mut h, (l, 0), o, 0);
    Ok(h)
}
pub fn run(r: &mut Runner) {
    r.assume("the model formats have no nodes for constants, region inputs and outputs, and exit blocks: constants are compared at their loads, and metadata on such nodes is not compared there");
    let reg = Arc::new(registry());
    let deep = !r.quick();
    let fmt = |c: &mut Chooser| *c.pick(&FORMATS);
    for f in standard(false) {
        let Fam { name, mut g, .. } = f;
        if !deep {
            g.stmts = g.stmts.min(2);
        }
        let reg = reg.clone();
        r.family(name, &format!("every program of at most {} statements of the family, in five formats", g.stmts), r.b(8.0, 300.0), move |c, cov| {
            let (h, _, d) = gen_valid(c, &g, cov)?;
            cov.state(canon(&h));
            let p = Package::from_hugr(h);
            for f in FORMATS {
                round(&p, &reg, cfg(f, 0), &d, cov)?;
            }
            Ok(())
        });
    }
    let rg = reg.clone();
    r.family("rich", "one program with every kind of node: every node as entrypoint or carrying each of eight metadata values, with and without numbering gaps and reordered children, five formats", 60.0, move |c, cov| {
        let f = fmt(c);
        let mut h = rich(c.flag(), c.flag());
        let ns: Vec<Node> = h.nodes().collect();
        let k = c.choose(3);
        let mut d = String::new();
        match k {
            0 => {}
            1 => {
                let e = *c.pick(&ns);
                if !h.get_optype(e).is_container() || matches!(h.get_optype(e), OpType::Module(_)) && e != h.module_root() {
                    return Err(Fail::Skip);
                }
                h.set_entrypoint(e);
                d = format!("entrypoint {e} {}", h.get_optype(e));
            }
            _ => {
                let n = *c.pick(&ns);
                let ms = metas();
                let j = c.choose(ms.len());
                let key = *c.pick(&["k", "core.thing", "weird \"key\\ \n"]);
                h.set_metadata(n, key, ms[j].clone());
                if c.flag() {
                    h.set_metadata(n, "z", true);
                    h.set_metadata(n, "b", 1);
                }
                d = format!("metadata {key} = {} on {n} {}", ms[j], h.get_optype(n));
            }
        }
        cov.describe(|| d.clone());
        cov.state((canon(&h), f.to_string()));
        let p = one_module(h, &d)?;
        round(&p, &rg, cfg(f, 0), &d, cov)
    });
    let rg = reg.clone();
    let levels: Vec<usize> = if deep { (0..=24).chain([100, 256]).collect() } else { vec![0, 1, 2, 4, 10, 20, 23, 256] };
    r.family("zstd", &format!("the program with every kind of node in every format with compression settings {levels:?} (0 none, 1 default, n+1 level n)"), 60.0, move |c, cov| {
        let f = fmt(c);
        let z = *c.pick(&levels);
        let h = rich(c.flag(), c.flag());
        let p = one_module(h, "")?;
        cov.state((f.to_string(), z));
        round(&p, &rg, cfg(f, z), "rich", cov)
    });
    let rg = reg.clone();
    r.family("types", "every type up to nesting two passed through every kind of region, five formats", 60.0, move |c, cov| {
        let f = fmt(c);
        let ts = types();
        let t = c.pick(&ts).clone();
        cov.state((format!("{t:?}"), f.to_string()));
        let p = one_module(typed(&t), &format!("{t}"))?;
        round(&p, &rg, cfg(f, 0), &format!("type {t}"), cov)
    });
    let rg = reg.clone();
    r.family("params", "every kind of type parameter, declared or defined, every argument, five formats", 60.0, move |c, cov| {
        let f = fmt(c);
        let ps = params();
        let (p, a) = c.pick(&ps).clone();
        let a = c.pick(&a).clone();
        let decl = c.flag();
        cov.state((format!("{p:?}{a:?}{decl}"), f.to_string()));
        let d = format!("parameter {p:?} argument {a:?} decl {decl}");
        let p = one_module(poly_prog(&p, &a, decl)?, &d)?;
        let inf = matches!(&a, Term::Float(x) if !x.is_finite()) && (f == EnvelopeFormat::PackageJson || f.ascii_printable());
        let k = if f == EnvelopeFormat::PackageJson { "json-float-argument" } else { "text-float-literal" };
        known(round(&p, &rg, cfg(f, 0), &d, cov), inf.then_some(k), "loading what was stored fails: error")
    });
    let rg = reg.clone();
    r.family("values", "every kind of constant, nested once; constant local or in the module, loaded once, twice or never; five formats", 60.0, move |c, cov| {
        let f = fmt(c);
        let vs = values();
        let v = c.pick(&vs).clone();
        let top = c.flag();
        let loads = c.choose(3);
        let mut h = Hugr::new();
        let t = v.get_type();
        let (fu, _, o) = func(&mut h, "main", Signature::new(vec![], vec![t.clone(); loads]), Visibility::Public);
        let at = if top { m_of(&h) } else { fu };
        let k = add(&mut h, at, ops::Const::new(v.clone()));
        for j in 0..loads {
            let l = add(&mut h, fu, ops::LoadConstant { datatype: t.clone() });
            h.connect(k, 0, l, 0);
            wire(&mut h, (l, 0), o, j);
        }
        let d = format!("value {v:?} module {top} loads {loads}");
        cov.describe(|| d.clone());
        cov.state((&d, f.to_string()));
        if !t.copyable() {
            return Err(Fail::Skip);
        }
        let p = one_module(h, &d)?;
        let res = round(&p, &rg, cfg(f, 0), &d, cov);
        let fv = matches!(v, Value::Function { .. });
        if is_model(f) {
            known(res, fv.then_some("model-function-value"), "Constant function value")
        } else {
            known(res, (fv && d.contains("vp.test")).then_some("json-function-value-extension"), "loading what was stored fails: error")
        }
    });
    let rg = reg.clone();
    r.family("value pairs", "every two constants, loaded in one function, five formats", r.b(15.0, 60.0), move |c, cov| {
        let f = fmt(c);
        let vs: Vec<Value> = values().into_iter().filter(|v| !matches!(v, Value::Function { .. }) && v.get_type().copyable()).collect();
        let vs = [c.pick(&vs).clone(), c.pick(&vs).clone()];
        let mut h = Hugr::new();
        let (fu, _, o) = func(&mut h, "main", Signature::new(vec![], vs.iter().map(|v| v.get_type()).collect::<Vec<_>>()), Visibility::Public);
        for (j, v) in vs.iter().enumerate() {
            let k = add(&mut h, fu, ops::Const::new(v.clone()));
            let l = add(&mut h, fu, ops::LoadConstant { datatype: v.get_type() });
            h.connect(k, 0, l, 0);
            wire(&mut h, (l, 0), o, j);
        }
        let d = format!("values {vs:?}");
        cov.describe(|| d.clone());
        cov.state((&d, f.to_string()));
        let p = one_module(h, &d)?;
        round(&p, &rg, cfg(f, 0), &d, cov)
    });
    let rg = reg.clone();
    r.family("alias", "alias declarations of either bound and definitions of every type, alone and in pairs, in the module or a function, five formats", 30.0, move |c, cov| {
        let f = fmt(c);
        let mut h = Hugr::new();
        let (fu, _, _) = func(&mut h, "main", Signature::new(vec![], vec![]), Visibility::Public);
        let at = if c.flag() { fu } else { m_of(&h) };
        let ts = types();
        match c.choose(3) {
            0 => {
                add(&mut h, at, ops::AliasDecl { name: "lin".into(), bound: TypeBound::Linear });
            }
            1 => {
                add(&mut h, at, ops::AliasDecl { name: "cop".into(), bound: TypeBound::Copyable });
            }
            _ => {
                let t = c.pick(&ts).clone();
                add(&mut h, at, ops::AliasDefn { name: "df".into(), definition: t });
            }
        };
        if c.flag() {
            add(&mut h, at, ops::AliasDecl { name: "two.part".into(), bound: TypeBound::Copyable });
        }
        let d = normal(&h, false);
        cov.state((&d, f.to_string()));
        if h.validate().is_err() {
            return Err(Fail::Skip);
        }
        let p = one_module(h, &d)?;
        round(&p, &rg, cfg(f, 0), &d, cov)
    });
    let rg = reg.clone();
    r.family("packages", "packages of up to three modules (four kinds) with any subset of two packaged extensions depending on each other, loaded with or without those known, five formats", 60.0, move |c, cov| {
        let f = fmt(c);
        let pk = packaged();
        let n = c.choose(4);
        let mut mods = vec![];
        let mut d = String::new();
        let mut need = false;
        for _ in 0..n {
            let k = c.choose(4);
            let _ = write!(d, "module {k} ");
            mods.push(match k {
                0 => Hugr::new(),
                1 => rich(true, false),
                2 => {
                    need = true;
                    uses(&pk)
                }
                _ => {
                    let mut h = Hugr::new();
                    func(&mut h, "f", Signature::new(vec![], vec![]), Visibility::Private);
                    func(&mut h, "f", Signature::new(vec![], vec![]), Visibility::Private);
                    h
                }
            });
        }
        let mut p = Package::new(mods);
        let keep: Vec<bool> = vec![c.flag(), c.flag()];
        // an extension whose types another uses must be there too
        if keep[1] && !keep[0] {
            return Err(Fail::Skip);
        }
        p.extensions = ExtensionRegistry::new(pk.iter().zip(&keep).filter(|(_, k)| **k).map(|(e, _)| e.clone()));
        let known = c.flag();
        let mut reg = (*rg).clone();
        if known {
            for e in &pk {
                reg.register_updated(e.clone());
            }
        }
        let _ = write!(d, "packaged {keep:?} known {known}");
        if need && !known && !(has_exts(f) && keep[0] && keep[1]) {
            return Err(Fail::Skip);
        }
        cov.describe(|| d.clone());
        cov.state((&d, f.to_string()));
        valid(&p, &d)?;
        round(&p, &reg, cfg(f, 0), &d, cov)
    });
}
