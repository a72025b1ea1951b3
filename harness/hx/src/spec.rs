//! Independent statement of the rules a HUGR must meet (specification/hugr.md),
//! written over the op payloads and the raw links, without using the validator's own
//! tables (tags, validity flags, port kinds).
use crate::subst;
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::ops::{OpTrait, OpType, Value};
use hugr_core::types::type_param::TypeParam;
use hugr_core::types::{PolyFuncType, Signature, SumType, Term, Type, TypeBound, TypeEnum, TypeRV};
use hugr_core::{Direction, Hugr, HugrView, Node, NodeIndex, Port, PortIndex, Visibility};
use std::collections::{BTreeMap, HashMap, HashSet};

pub enum Verdict {
    Valid,
    Invalid(&'static str),
    /// the specification and the code's documentation do not settle this case
    Open(&'static str),
}

#[derive(PartialEq, Clone, Debug)]
enum K {
    Val(Type),
    Const(Type),
    Func(PolyFuncType),
    Order,
    Cf,
}
struct Ports {
    ins: Vec<K>,
    outs: Vec<K>,
}
fn cat(a: &[Type], z: &[Type]) -> Vec<Type> {
    [a, z].concat()
}
fn sum(rows: &[hugr_core::types::TypeRow]) -> Type {
    SumType::new(rows.iter().map(|r| r.to_vec())).into()
}
fn ports(o: &OpType) -> Option<Ports> {
    let vals = |i: &[Type], z: &[Type]| {
        let mut p = Ports { ins: i.iter().cloned().map(K::Val).collect(), outs: z.iter().cloned().map(K::Val).collect() };
        p.ins.push(K::Order);
        p.outs.push(K::Order);
        Some(p)
    };
    let sig = |s: &Signature| vals(s.input(), s.output());
    match o {
        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) | OpType::Case(_) => Some(Ports { ins: vec![], outs: vec![] }),
        OpType::FuncDefn(f) => Some(Ports { ins: vec![], outs: vec![K::Func(f.signature().clone())] }),
        OpType::FuncDecl(f) => Some(Ports { ins: vec![], outs: vec![K::Func(f.signature().clone())] }),
        OpType::Const(c) => Some(Ports { ins: vec![], outs: vec![K::Const(c.get_type())] }),
        OpType::Input(i) => Some(Ports { ins: vec![], outs: i.types.iter().cloned().map(K::Val).chain([K::Order]).collect() }),
        OpType::Output(i) => Some(Ports { outs: vec![], ins: i.types.iter().cloned().map(K::Val).chain([K::Order]).collect() }),
        OpType::Call(c) => {
            let mut p = sig(&c.instantiation)?;
            let n = p.ins.len() - 1;
            p.ins.insert(n, K::Func(c.func_sig.clone()));
            Some(p)
        }
        OpType::LoadFunction(c) => Some(Ports {
            ins: vec![K::Func(c.func_sig.clone()), K::Order],
            outs: vec![K::Val(Type::new_function(c.instantiation.clone())), K::Order],
        }),
        OpType::LoadConstant(l) => Some(Ports { ins: vec![K::Const(l.datatype.clone()), K::Order], outs: vec![K::Val(l.datatype.clone()), K::Order] }),
        OpType::CallIndirect(c) => {
            let i = cat(&[Type::new_function(c.signature.clone())], c.signature.input());
            vals(&i, c.signature.output())
        }
        OpType::DFG(d) => sig(&d.signature),
        OpType::CFG(d) => sig(&d.signature),
        OpType::ExtensionOp(e) => sig(&e.def().compute_signature(e.args()).ok()?),
        OpType::OpaqueOp(_) => sig(o.dataflow_signature()?.as_ref()),
        OpType::Tag(t) => vals(&t.variants[t.tag], &[sum(&t.variants)]),
        OpType::TailLoop(t) => vals(&cat(&t.just_inputs, &t.rest), &cat(&t.just_outputs, &t.rest)),
        OpType::Conditional(c) => vals(&cat(&[sum(&c.sum_rows)], &c.other_inputs), &c.outputs),
        OpType::DataflowBlock(d) => Some(Ports { ins: vec![K::Cf], outs: vec![K::Cf; d.sum_rows.len()] }),
        OpType::ExitBlock(_) => Some(Ports { ins: vec![K::Cf], outs: vec![] }),
        _ => None,
    }
}
/// Inner (input, output) rows of a dataflow region.
fn inner(o: &OpType) -> Option<(Vec<Type>, Vec<Type>)> {
    match o {
        OpType::FuncDefn(f) => Some((f.signature().body().input().to_vec(), f.signature().body().output().to_vec())),
        OpType::DFG(d) => Some((d.signature.input().to_vec(), d.signature.output().to_vec())),
        OpType::Case(d) => Some((d.signature.input().to_vec(), d.signature.output().to_vec())),
        OpType::DataflowBlock(d) => Some((d.inputs.to_vec(), cat(&[sum(&d.sum_rows)], &d.other_outputs))),
        OpType::TailLoop(t) => Some((cat(&t.just_inputs, &t.rest), cat(&[sum(&[t.just_inputs.clone(), t.just_outputs.clone()])], &t.rest))),
        _ => None,
    }
}
#[derive(PartialEq, Clone, Copy)]
enum Region {
    Module,
    Dataflow,
    Cfg,
    Cond,
    None,
}
fn region(o: &OpType) -> Region {
    match o {
        OpType::Module(_) => Region::Module,
        OpType::CFG(_) => Region::Cfg,
        OpType::Conditional(_) => Region::Cond,
        o if inner(o).is_some() => Region::Dataflow,
        _ => Region::None,
    }
}
fn may_contain(r: Region, o: &OpType) -> bool {
    match o {
        OpType::Module(_) => false,
        OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => r == Region::Module,
        OpType::Const(_) => matches!(r, Region::Module | Region::Dataflow | Region::Cfg),
        OpType::DataflowBlock(_) | OpType::ExitBlock(_) => r == Region::Cfg,
        OpType::Case(_) => r == Region::Cond,
        _ => r == Region::Dataflow,
    }
}
// ---- types -----------------------------------------------------------------------
pub fn linear(t: &Type) -> bool {
    t.least_upper_bound() == TypeBound::Linear
}
/// Every variable in the type is declared with the bound it claims.
pub fn type_ok(t: &TypeRV, d: &[TypeParam], fun: bool) -> bool {
    match t.as_type_enum() {
        TypeEnum::Variable(i, b) => d.get(*i).is_some_and(|p| *p == TypeParam::RuntimeType(*b)),
        TypeEnum::RowVar(r) => fun && d.get(r.0).is_some_and(|p| *p == TypeParam::new_list_type(TypeParam::RuntimeType(r.1))),
        TypeEnum::Sum(s) => (0..s.num_variants()).all(|k| s.get_variant(k).unwrap().iter().all(|t| type_ok(t, d, true))),
        TypeEnum::Function(f) => f.input().iter().chain(f.output().iter()).all(|t| type_ok(t, d, true)),
        TypeEnum::Extension(c) => c.args().iter().all(|a| term_ok(a, d)),
        TypeEnum::Alias(_) => true,
    }
}
pub fn term_ok(t: &Term, d: &[TypeParam]) -> bool {
    match t {
        Term::Variable(v) => d.get(v.index()).is_some_and(|p| Term::new_var_use(v.index(), p.clone()) == *t),
        Term::Runtime(t) => type_ok(&t.clone().into(), d, false),
        Term::List(v) | Term::Tuple(v) | Term::ListConcat(v) | Term::TupleConcat(v) => v.iter().all(|x| term_ok(x, d)),
        Term::ListType(x) | Term::TupleType(x) => term_ok(x, d),
        Term::ConstType(t) => type_ok(&t.as_ref().clone().into(), d, false),
        _ => true,
    }
}
fn kind_ok(k: &K, d: &[TypeParam]) -> bool {
    match k {
        K::Val(t) => type_ok(&t.clone().into(), d, false),
        K::Const(t) => type_ok(&t.clone().into(), &[], false),
        K::Func(p) => p.body().input().iter().chain(p.body().output().iter()).all(|t| type_ok(&t.clone().into(), p.params(), false)),
        _ => true,
    }
}
fn arg_fits(a: &Term, p: &TypeParam) -> Option<bool> {
    Some(match (a, p) {
        (Term::Runtime(t), TypeParam::RuntimeType(b)) => *b == TypeBound::Linear || !linear(t),
        (Term::BoundedNat(n), TypeParam::BoundedNatType(_)) => return if *n < 10 { Some(true) } else { None },
        (Term::Variable(_), _) => return None,
        (Term::List(v), TypeParam::ListType(p)) => v.iter().all(|x| arg_fits(x, p) == Some(true)),
        _ => false,
    })
}
fn value_ok(v: &Value) -> Option<bool> {
    match v {
        Value::Sum(s) => {
            let Some(row) = s.sum_type.get_variant(s.tag) else { return Some(false) };
            if row.len() != s.values.len() {
                return Some(false);
            }
            for (t, v) in row.iter().zip(&s.values) {
                if *t != TypeRV::from(v.get_type()) || value_ok(v) == Some(false) {
                    return Some(false);
                }
            }
            Some(true)
        }
        Value::Function { hugr } => match check(hugr) {
            Verdict::Valid => Some(true),
            Verdict::Invalid(_) => Some(false),
            Verdict::Open(_) => None,
        },
        _ => Some(true),
    }
}
fn applied(sig: &PolyFuncType, args: &[Term], inst: &Signature) -> Option<bool> {
    if sig.params().len() != args.len() {
        return Some(false);
    }
    for (a, p) in args.iter().zip(sig.params()) {
        if let Term::Variable(v) = a {
            // a variable fits if it was declared with (at most) the same kind
            let exact = Term::new_var_use(v.index(), p.clone()) == *a;
            if !exact {
                return None;
            }
        } else if !arg_fits(a, p)? {
            return Some(false);
        }
    }
    Some(subst::sig(sig.body(), args) == *inst)
}

/// Decides whether `h` meets the specification.
pub fn check(h: &Hugr) -> Verdict {
    let mut open = None;
    let root = h.module_root();
    let nodes: Vec<Node> = h.nodes().collect();
    macro_rules! no {
        ($c:expr, $why:expr) => {
            if !($c) {
                return Verdict::Invalid($why);
            }
        };
    }
    // -- hierarchy
    no!(h.get_parent(root).is_none(), "the root has a parent");
    no!(matches!(h.get_optype(root), OpType::Module(_)), "the root is not a module");
    for &n in &nodes {
        if n == root {
            continue;
        }
        // every node hangs below the root
        let mut a = n;
        let mut fuel = nodes.len() + 1;
        while let Some(p) = h.get_parent(a) {
            a = p;
            fuel -= 1;
            no!(fuel > 0, "hierarchy cycle");
        }
        no!(a == root, "a node is not below the root");
    }
    let mut ps: HashMap<Node, Ports> = HashMap::new();
    for &n in &nodes {
        let o = h.get_optype(n);
        no!(!matches!(o, OpType::OpaqueOp(_)), "unresolved operation");
        let Some(p) = ports(o) else { return Verdict::Open("unknown operation") };
        if n != root {
            no!(may_contain(region(h.get_optype(h.get_parent(n).unwrap())), o), "operation not allowed under this parent");
        }
        no!(h.num_ports(n, Direction::Incoming) == p.ins.len(), "number of input ports");
        no!(h.num_ports(n, Direction::Outgoing) == p.outs.len(), "number of output ports");
        ps.insert(n, p);
    }
    no!(region(h.get_optype(h.entrypoint())) != Region::None, "entrypoint is not a region");
    // -- children
    for &n in &nodes {
        let o = h.get_optype(n);
        let ch: Vec<Node> = h.children(n).collect();
        match region(o) {
            Region::None => no!(ch.is_empty(), "children of a leaf"),
            Region::Module => {}
            Region::Dataflow => {
                let (i, z) = inner(o).unwrap();
                no!(ch.len() >= 2, "dataflow region without input and output");
                for (k, c) in ch.iter().enumerate() {
                    match h.get_optype(*c) {
                        OpType::Input(x) => {
                            no!(k == 0, "input is not the first child");
                            no!(x.types.to_vec() == i, "input types");
                        }
                        OpType::Output(x) => {
                            no!(k == 1, "output is not the second child");
                            no!(x.types.to_vec() == z, "output types");
                        }
                        _ => no!(k > 1, "first children are not input and output"),
                    }
                }
            }
            Region::Cond => {
                let OpType::Conditional(c) = o else { unreachable!() };
                no!(ch.len() == c.sum_rows.len(), "number of cases");
                no!(!ch.is_empty(), "conditional without cases");
                for (k, x) in ch.iter().enumerate() {
                    let (i, z) = inner(h.get_optype(*x)).unwrap();
                    no!(i == cat(&c.sum_rows[k], &c.other_inputs), "case inputs");
                    no!(z == c.outputs.to_vec(), "case outputs");
                }
            }
            Region::Cfg => {
                let OpType::CFG(c) = o else { unreachable!() };
                no!(ch.len() >= 2, "control-flow graph without entry and exit");
                for (k, x) in ch.iter().enumerate() {
                    match h.get_optype(*x) {
                        OpType::DataflowBlock(d) => {
                            no!(k != 1, "exit is not the second child");
                            no!(k != 0 || d.inputs.to_vec() == c.signature.input().to_vec(), "entry inputs");
                        }
                        OpType::ExitBlock(e) => {
                            no!(k == 1, "exit is not the second child");
                            no!(e.cfg_outputs.to_vec() == c.signature.output().to_vec(), "exit types");
                        }
                        _ => no!(k > 1, "first children are not entry and exit"),
                    }
                }
            }
        }
    }
    // -- payloads and type variables
    for &n in &nodes {
        let o = h.get_optype(n);
        let mut decls: Vec<TypeParam> = vec![];
        let mut a = n;
        while let Some(p) = h.get_parent(a) {
            if let OpType::FuncDefn(f) = h.get_optype(p) {
                decls = f.signature().params().to_vec();
            }
            a = p;
        }
        let p = &ps[&n];
        no!(p.ins.iter().chain(&p.outs).all(|k| kind_ok(k, &decls)), "undeclared type variable");
        match o {
            OpType::Const(c) => match value_ok(c.value()) {
                Some(v) => no!(v, "constant of the wrong type"),
                None => open = Some("constant"),
            },
            OpType::Call(c) => {
                no!(c.type_args.iter().all(|a| term_ok(a, &decls)), "undeclared type variable in a call");
                match applied(&c.func_sig, &c.type_args, &c.instantiation) {
                    Some(v) => no!(v, "wrong instantiation"),
                    None => open = Some("type arguments"),
                }
            }
            OpType::LoadFunction(c) => {
                no!(c.type_args.iter().all(|a| term_ok(a, &decls)), "undeclared type variable in a function load");
                match applied(&c.func_sig, &c.type_args, &c.instantiation) {
                    Some(v) => no!(v, "wrong instantiation"),
                    None => open = Some("type arguments"),
                }
            }
            OpType::ExtensionOp(e) => no!(e.args().iter().all(|a| term_ok(a, &decls)), "undeclared type variable in an operation"),
            _ => {}
        }
    }
    // -- edges
    let mut seen_order: HashSet<(Node, Node)> = HashSet::new();
    let mut local: BTreeMap<Node, Vec<Node>> = BTreeMap::new();
    for &n in &nodes {
        let p = &ps[&n];
        for (k, kind) in p.ins.iter().enumerate() {
            let c = h.linked_ports(n, Port::new(Direction::Incoming, k)).count();
            match kind {
                K::Val(_) | K::Const(_) | K::Func(_) => no!(c == 1, "an input does not have exactly one source"),
                K::Order => {}
                K::Cf => {
                    if c == 0 && matches!(h.get_optype(n), OpType::ExitBlock(_)) {
                        open = open.or(Some("exit without predecessors"));
                    }
                }
            }
        }
        for (k, kind) in p.outs.iter().enumerate() {
            let links: Vec<(Node, Port)> = h.linked_ports(n, Port::new(Direction::Outgoing, k)).collect();
            match kind {
                K::Val(t) if linear(t) => no!(links.len() == 1, "a linear value is not used exactly once"),
                K::Cf => no!(links.len() == 1, "a successor is not unique"),
                _ => {}
            }
            for (m, q) in links {
                let Some(other) = ps[&m].ins.get(q.index()) else { return Verdict::Invalid("edge to a missing port") };
                no!(other == kind, "edge between ports of different kinds");
                if matches!(kind, K::Order) && !seen_order.insert((n, m)) {
                    open = open.or(Some("repeated order edge"));
                }
                let (pn, pm) = (h.get_parent(n), h.get_parent(m));
                if pn == pm {
                    if *kind != K::Cf {
                        local.entry(n).or_default().push(m);
                    }
                    if let (K::Cf, OpType::DataflowBlock(d)) = (kind, h.get_optype(n)) {
                        let given = cat(&d.sum_rows[k], &d.other_outputs);
                        let want = match h.get_optype(m) {
                            OpType::DataflowBlock(t) => t.inputs.to_vec(),
                            OpType::ExitBlock(e) => e.cfg_outputs.to_vec(),
                            _ => return Verdict::Invalid("control edge to a non-block"),
                        };
                        no!(given == want, "types passed to a successor");
                    }
                    continue;
                }
                match nonlocal(h, n, m, kind) {
                    Verdict::Valid => {}
                    Verdict::Open(w) => open = open.or(Some(w)),
                    v => return v,
                }
            }
        }
    }
    // -- acyclicity of dataflow regions
    {
        let mut indeg: HashMap<Node, usize> = nodes.iter().map(|n| (*n, 0)).collect();
        let inflow = |n: &Node| h.get_parent(*n).is_some_and(|p| region(h.get_optype(p)) == Region::Dataflow);
        for v in local.values() {
            for m in v {
                *indeg.get_mut(m).unwrap() += 1;
            }
        }
        let mut q: Vec<Node> = nodes.iter().copied().filter(|n| indeg[n] == 0).collect();
        let mut done = 0;
        while let Some(n) = q.pop() {
            done += 1;
            for m in local.get(&n).into_iter().flatten() {
                let d = indeg.get_mut(m).unwrap();
                *d -= 1;
                if *d == 0 {
                    q.push(*m);
                }
            }
        }
        if done != nodes.len() {
            no!(!nodes.iter().any(|n| indeg[n] > 0 && inflow(n)), "cyclic dataflow");
            open = open.or(Some("cycle outside dataflow regions"));
        }
    }
    // -- linkage
    let mut names: HashMap<&str, (PolyFuncType, bool)> = HashMap::new();
    for c in h.children(root) {
        let (name, sig, defn) = match h.get_optype(c) {
            OpType::FuncDefn(f) if *f.visibility() == Visibility::Public => (f.func_name().as_str(), f.signature().clone(), true),
            OpType::FuncDecl(f) if *f.visibility() == Visibility::Public => (f.func_name().as_str(), f.signature().clone(), false),
            _ => continue,
        };
        if let Some((s, d)) = names.get(name) {
            no!(!d && !defn && *s == sig, "two public functions of the same name");
        }
        names.insert(name, (sig, defn));
    }
    match open {
        Some(w) => Verdict::Open(w),
        None => Verdict::Valid,
    }
}
/// An edge between nodes with different parents.
fn nonlocal(h: &Hugr, n: Node, m: Node, kind: &K) -> Verdict {
    let stat = matches!(kind, K::Const(_) | K::Func(_));
    match kind {
        K::Order | K::Cf => return Verdict::Invalid("non-local order or control edge"),
        K::Val(t) if linear(t) => return Verdict::Invalid("non-local linear edge"),
        _ => {}
    }
    let chain = |x: Node| {
        let mut v = vec![x];
        let mut a = x;
        while let Some(p) = h.get_parent(a) {
            v.push(p);
            a = p;
        }
        v
    };
    let pn = h.get_parent(n).unwrap();
    let cm = chain(m);
    if let Some(k) = cm.iter().skip(1).position(|x| *x == pn) {
        // Ext: the ancestor of the target that is a sibling of the source
        let a = cm[k];
        if stat {
            return Verdict::Valid;
        }
        let order = h
            .node_outputs(n)
            .filter(|p| ports(h.get_optype(n)).unwrap().outs[p.index()] == K::Order)
            .any(|p| h.linked_inputs(n, p).any(|(x, q)| x == a && ports(h.get_optype(a)).is_some_and(|s| s.ins.get(q.index()) == Some(&K::Order))));
        return if order { Verdict::Valid } else { Verdict::Invalid("external edge without order edge") };
    }
    if stat {
        return Verdict::Invalid("static edge from a place the target is not inside");
    }
    // Dom
    let Some(g) = h.get_parent(pn) else { return Verdict::Invalid("unrelated regions") };
    let Some(k) = cm.iter().skip(1).position(|x| *x == g) else { return Verdict::Invalid("unrelated regions") };
    let a = cm[k];
    if !matches!(h.get_optype(g), OpType::CFG(_)) || k == 0 {
        return Verdict::Invalid("edge between sibling regions that are not blocks");
    }
    // a path from the entry to `a` avoiding `pn`?
    let Some(entry) = h.children(g).next() else { return Verdict::Invalid("empty CFG") };
    let reach = |avoid: Option<Node>| {
        let mut seen: HashSet<Node> = HashSet::new();
        let mut q = vec![entry];
        while let Some(x) = q.pop() {
            if Some(x) == avoid || !seen.insert(x) {
                continue;
            }
            q.extend(h.output_neighbours(x));
        }
        seen.contains(&a)
    };
    if !reach(None) {
        return Verdict::Open("edge into an unreachable block");
    }
    if reach(Some(pn)) { Verdict::Invalid("source block does not dominate") } else { Verdict::Valid }
}
pub fn text(h: &Hugr) -> String {
    let mut s = String::new();
    for n in h.nodes() {
        s += &format!("{}<-{:?} {} ", n.index(), h.get_parent(n).map(|p| p.index()), h.get_optype(n));
        for p in h.node_outputs(n) {
            let l: Vec<String> = h.linked_inputs(n, p).map(|(m, q)| format!("{}.{}", m.index(), q.index())).collect();
            if !l.is_empty() {
                s += &format!("{}->{} ", p.index(), l.join("/"));
            }
        }
        s += "; ";
    }
    let _ = h.node_metadata_map(h.module_root());
    s
}
