//! C02: validation accepts exactly the HUGRs the specification allows.
use crate::explore::*;
use crate::families::*;
use crate::prog::*;
use crate::spec::{self, Verdict};
use crate::ensure;
use hugr_core::extension::prelude::Noop;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::ops::constant::Sum;
use hugr_core::ops::{self, OpType, Value};
use hugr_core::types::{PolyFuncType, Signature, SumType, Type, TypeArg, TypeBound, TypeRow};
use hugr_core::{Direction, Hugr, HugrView, Node, NodeIndex, PortIndex, Visibility};

#[derive(Clone)]
pub enum Mut {
    Connect(Node, usize, Node, usize),
    Disconnect(Node, usize, Node, usize),
    /// change the source of an edge / its target
    Reparent(Node, Node),
    Before(Node, Node),
    After(Node, Node),
    Remove(Node),
    RemoveTree(Node),
    /// (node, op, resize the ports to fit)
    Op(Node, OpType, bool),
    Ports(Node, Direction, isize),
    Add(Node, OpType),
    Entry(Node),
    Root(Node),
}
impl Mut {
    pub fn text(&self) -> String {
        use Mut::*;
        match self {
            Connect(a, p, z, q) => format!("connect {}.{p}->{}.{q}", a.index(), z.index()),
            Disconnect(a, p, z, q) => format!("disconnect {}.{p}->{}.{q}", a.index(), z.index()),
            Reparent(a, z) => format!("move {} under {}", a.index(), z.index()),
            Before(a, z) => format!("move {} before {}", a.index(), z.index()),
            After(a, z) => format!("move {} after {}", a.index(), z.index()),
            Remove(a) => format!("remove {}", a.index()),
            RemoveTree(a) => format!("remove subtree {}", a.index()),
            Op(a, o, r) => format!("op of {} := {}{}", a.index(), op_text(o), if *r { " (ports resized)" } else { "" }),
            Ports(a, d, k) => format!("add {k} {d:?} ports to {}", a.index()),
            Add(a, o) => format!("add {} under {}", op_text(o), a.index()),
            Entry(a) => format!("entrypoint {}", a.index()),
            Root(a) => format!("module root {}", a.index()),
        }
    }
    pub fn apply(&self, h: &mut Hugr) {
        use Mut::*;
        match self {
            Connect(a, p, z, q) => h.connect(*a, *p, *z, *q),
            Disconnect(a, p, z, q) => {
                // the link is re-made for all other partners
                let keep: Vec<_> = h.linked_inputs(*a, *p).filter(|(n, i)| !(n == z && i.index() == *q)).collect();
                h.disconnect(*a, hugr_core::OutgoingPort::from(*p));
                for (n, i) in keep {
                    h.connect(*a, *p, n, i);
                }
            }
            Reparent(a, z) => h.set_parent(*a, *z),
            Before(a, z) => h.move_before_sibling(*a, *z),
            After(a, z) => h.move_after_sibling(*a, *z),
            Remove(a) => {
                h.remove_node(*a);
            }
            RemoveTree(a) => h.remove_subtree(*a),
            Op(a, o, r) => {
                if *r {
                    h.set_num_ports(*a, o.port_count(Direction::Incoming), o.port_count(Direction::Outgoing));
                }
                h.replace_op(*a, o.clone());
            }
            Ports(a, d, k) => {
                h.add_ports(*a, *d, *k);
            }
            Add(a, o) => {
                h.add_node_with_parent(*a, o.clone());
            }
            Entry(a) => h.set_entrypoint(*a),
            Root(a) => h.set_module_root(*a),
        }
    }
}
fn under(h: &Hugr, mut n: Node, a: Node) -> bool {
    loop {
        if n == a {
            return true;
        }
        match h.get_parent(n) {
            Some(p) => n = p,
            None => return false,
        }
    }
}
fn poly_sig(var: usize) -> PolyFuncType {
    let t = Type::new_var_use(var, TypeBound::Copyable);
    PolyFuncType::new([TypeBound::Copyable.into()], Signature::new(vec![t.clone()], vec![t]))
}
fn phantom() -> PolyFuncType {
    PolyFuncType::new([TypeBound::Copyable.into()], Signature::new(vec![], vec![]))
}
fn call(f: PolyFuncType, a: Vec<TypeArg>) -> OpType {
    ops::Call::try_new(f, a).unwrap().into()
}
/// Operations to put in place of others.
pub fn palette() -> Vec<OpType> {
    let s = pbool();
    let r: TypeRow = vec![b()].into();
    let e: TypeRow = vec![].into();
    let v = |i, bd| Type::new_var_use(i, bd);
    let badsum = Value::Sum(Sum { tag: 2, values: vec![], sum_type: SumType::new_unary(2) });
    let badsum2 = Value::Sum(Sum { tag: 0, values: vec![Value::true_val()], sum_type: SumType::new([vec![int8()], vec![]]) });
    let badcall = ops::Call { func_sig: s.clone().into(), type_args: vec![], instantiation: Signature::new(vec![], vec![b()]) };
    let badload = ops::LoadFunction { func_sig: s.clone().into(), type_args: vec![], instantiation: Signature::new(vec![], vec![b()]) };
    let badargs = ops::Call { func_sig: poly_sig(0), type_args: vec![], instantiation: s.clone() };
    let linargs = ops::Call { func_sig: poly_sig(0), type_args: vec![q().into()], instantiation: Signature::new(vec![q()], vec![q()]) };
    vec![
        ops::Module::new().into(),
        ops::FuncDefn::new_vis("main", s.clone(), Visibility::Public).into(),
        ops::FuncDefn::new_vis("main", s.clone(), Visibility::Private).into(),
        ops::FuncDefn::new_vis("other", Signature::new(vec![v(0, TypeBound::Copyable)], vec![]), Visibility::Private).into(),
        ops::FuncDecl::new_vis("main", s.clone(), Visibility::Public).into(),
        ops::FuncDecl::new_vis("ext", s.clone(), Visibility::Public).into(),
        ops::FuncDecl::new_vis("ext", Signature::new(vec![], vec![]), Visibility::Public).into(),
        ops::FuncDecl::new_vis("ext", poly_sig(0), Visibility::Private).into(),
        ops::FuncDecl::new_vis("ext", poly_sig(1), Visibility::Private).into(),
        ops::AliasDecl::new("al", TypeBound::Copyable).into(),
        ops::AliasDefn { name: "ad".into(), definition: b() }.into(),
        ops::Const::new(Value::true_val()).into(),
        ops::Const::new(badsum).into(),
        ops::Const::new(badsum2).into(),
        ops::Input { types: e.clone() }.into(),
        ops::Input { types: r.clone() }.into(),
        ops::Output { types: e.clone() }.into(),
        ops::Output { types: r.clone() }.into(),
        ops::DFG { signature: Signature::new(vec![], vec![]) }.into(),
        ops::DFG { signature: s.clone() }.into(),
        ops::CFG { signature: Signature::new(vec![], vec![]) }.into(),
        ops::CFG { signature: s.clone() }.into(),
        ops::Conditional { sum_rows: vec![], other_inputs: e.clone(), outputs: e.clone() }.into(),
        ops::Conditional { sum_rows: vec![e.clone(), e.clone()], other_inputs: e.clone(), outputs: r.clone() }.into(),
        ops::Case { signature: Signature::new(vec![], vec![]) }.into(),
        ops::Case { signature: s.clone() }.into(),
        ops::TailLoop { just_inputs: e.clone(), just_outputs: e.clone(), rest: r.clone() }.into(),
        ops::DataflowBlock { inputs: r.clone(), other_outputs: r.clone(), sum_rows: vec![e.clone()] }.into(),
        ops::DataflowBlock { inputs: e.clone(), other_outputs: e.clone(), sum_rows: vec![] }.into(),
        ops::ExitBlock { cfg_outputs: r.clone() }.into(),
        ops::ExitBlock { cfg_outputs: e.clone() }.into(),
        ops::Tag::new(0, vec![r.clone(), e.clone()]).into(),
        ops::LoadConstant { datatype: b() }.into(),
        ops::LoadFunction::try_new(s.clone().into(), vec![]).unwrap().into(),
        ops::CallIndirect { signature: Signature::new(vec![], vec![b()]) }.into(),
        call(s.clone().into(), vec![]),
        call(poly_sig(0), vec![b().into()]),
        call(poly_sig(0), vec![v(0, TypeBound::Copyable).into()]),
        call(phantom(), vec![b().into()]),
        call(phantom(), vec![v(0, TypeBound::Copyable).into()]),
        call(phantom(), vec![v(5, TypeBound::Copyable).into()]),
        ops::LoadFunction::try_new(phantom(), vec![v(5, TypeBound::Copyable).into()]).unwrap().into(),
        badcall.into(),
        badload.into(),
        badargs.into(),
        linargs.into(),
        logic("Not"),
        logic("And"),
        test_op("q0"),
        test_op("qdel"),
        test_op("eff_a"),
        Noop::new(v(0, TypeBound::Copyable)).into(),
        Noop::new(v(0, TypeBound::Linear)).into(),
        Noop::new(v(1, TypeBound::Copyable)).into(),
        Noop::new(Type::new_function(Signature::new(vec![v(1, TypeBound::Copyable)], vec![]))).into(),
        Noop::new(Type::new_tuple(vec![b(), v(1, TypeBound::Linear)])).into(),
        ops::OpaqueOp::new("vp.test".try_into().unwrap(), "opq", vec![], s.clone()).into(),
    ]
}
/// Slightly different versions of an operation.
pub fn tweaks(o: &OpType) -> Vec<OpType> {
    let more = |r: &TypeRow| -> TypeRow { r.iter().cloned().chain([b()]).collect::<Vec<_>>().into() };
    let int = |r: &TypeRow| -> TypeRow { r.iter().map(|_| int8()).collect::<Vec<_>>().into() };
    let sigs = |s: &Signature| {
        vec![
            Signature::new(more(&s.input), s.output.clone()),
            Signature::new(s.input.clone(), more(&s.output)),
            Signature::new(int(&s.input), s.output.clone()),
            Signature::new(s.input.clone(), int(&s.output)),
        ]
    };
    let rows = |r: &Vec<TypeRow>| {
        let mut v = vec![[r.clone(), vec![vec![].into()]].concat()];
        if !r.is_empty() {
            v.push(r[1..].to_vec());
            v.push(r.iter().rev().cloned().collect());
            for k in 0..r.len() {
                let mut x = r.clone();
                x[k] = more(&x[k]);
                v.push(x);
            }
        }
        v
    };
    match o {
        OpType::DFG(d) => sigs(&d.signature).into_iter().map(|s| ops::DFG { signature: s }.into()).collect(),
        OpType::CFG(d) => sigs(&d.signature).into_iter().map(|s| ops::CFG { signature: s }.into()).collect(),
        OpType::Case(d) => sigs(&d.signature).into_iter().map(|s| ops::Case { signature: s }.into()).collect(),
        OpType::FuncDefn(f) => sigs(f.signature().body())
            .into_iter()
            .map(|s| ops::FuncDefn::new_vis(f.func_name().clone(), PolyFuncType::new(f.signature().params().to_vec(), s), f.visibility().clone()).into())
            .chain([ops::FuncDefn::new_vis(f.func_name().clone(), PolyFuncType::new(vec![TypeBound::Linear.into()], f.signature().body().clone()), f.visibility().clone()).into()])
            .collect(),
        OpType::Input(i) => vec![ops::Input { types: more(&i.types) }.into(), ops::Input { types: int(&i.types) }.into()],
        OpType::Output(i) => vec![ops::Output { types: more(&i.types) }.into(), ops::Output { types: int(&i.types) }.into()],
        OpType::ExitBlock(e) => vec![ops::ExitBlock { cfg_outputs: more(&e.cfg_outputs) }.into(), ops::ExitBlock { cfg_outputs: int(&e.cfg_outputs) }.into()],
        OpType::Conditional(c) => rows(&c.sum_rows)
            .into_iter()
            .map(|r| ops::Conditional { sum_rows: r, ..c.clone() }.into())
            .chain([
                ops::Conditional { other_inputs: more(&c.other_inputs), ..c.clone() }.into(),
                ops::Conditional { outputs: int(&c.outputs), ..c.clone() }.into(),
                ops::Conditional { outputs: more(&c.outputs), ..c.clone() }.into(),
            ])
            .collect(),
        OpType::DataflowBlock(d) => rows(&d.sum_rows)
            .into_iter()
            .map(|r| ops::DataflowBlock { sum_rows: r, ..d.clone() }.into())
            .chain([
                ops::DataflowBlock { inputs: more(&d.inputs), ..d.clone() }.into(),
                ops::DataflowBlock { inputs: int(&d.inputs), ..d.clone() }.into(),
                ops::DataflowBlock { other_outputs: int(&d.other_outputs), ..d.clone() }.into(),
            ])
            .collect(),
        OpType::TailLoop(t) => vec![
            ops::TailLoop { just_inputs: t.just_outputs.clone(), just_outputs: t.just_inputs.clone(), rest: t.rest.clone() }.into(),
            ops::TailLoop { just_inputs: more(&t.just_inputs), ..t.clone() }.into(),
            ops::TailLoop { just_outputs: more(&t.just_outputs), ..t.clone() }.into(),
            ops::TailLoop { rest: int(&t.rest), ..t.clone() }.into(),
        ],
        OpType::LoadConstant(_) => vec![ops::LoadConstant { datatype: int8() }.into()],
        OpType::Const(_) => vec![ops::Const::new(i8v(1)).into()],
        _ => vec![],
    }
}
/// Every mutation of `h`. `full`: with the whole palette and all pairs of ports.
pub fn mutations(h: &Hugr, full: bool, pal: &[OpType]) -> Vec<Mut> {
    let mut v = vec![];
    let nodes: Vec<Node> = h.nodes().collect();
    let root = h.module_root();
    let cont: Vec<Node> = nodes.clone();
    for &n in &nodes {
        for p in h.node_outputs(n) {
            for &m in &nodes {
                for q in h.node_inputs(m) {
                    if h.linked_inputs(n, p).any(|x| x == (m, q)) {
                        v.push(Mut::Disconnect(n, p.index(), m, q.index()));
                    }
                    v.push(Mut::Connect(n, p.index(), m, q.index()));
                }
            }
        }
        for d in Direction::BOTH {
            v.push(Mut::Ports(n, d, 1));
            if h.num_ports(n, d) > 0 {
                v.push(Mut::Ports(n, d, -1));
            }
        }
        v.push(Mut::Entry(n));
        if full {
            v.push(Mut::Root(n));
        }
        if n != root {
            for &c in &cont {
                if !under(h, c, n) && (full || h.children(c).next().is_some()) {
                    v.push(Mut::Reparent(n, c));
                }
                if full && c != root && c != n && !under(h, c, n) {
                    v.push(Mut::Before(n, c));
                    v.push(Mut::After(n, c));
                }
            }
            if !full {
                if let Some(f) = h.get_parent(n).and_then(|p| h.first_child(p)) {
                    if f != n {
                        v.push(Mut::Before(n, f));
                        v.push(Mut::After(n, f));
                    }
                }
            }
            if n != h.entrypoint() {
                v.push(Mut::Remove(n));
            }
            if !under(h, h.entrypoint(), n) {
                v.push(Mut::RemoveTree(n));
            }
        }
        for o in tweaks(h.get_optype(n)) {
            v.push(Mut::Op(n, o.clone(), true));
            if full {
                v.push(Mut::Op(n, o, false));
            }
        }
        for o in pal {
            v.push(Mut::Op(n, o.clone(), true));
            if full {
                v.push(Mut::Op(n, o.clone(), false));
            }
            if full || h.children(n).next().is_some() {
                v.push(Mut::Add(n, o.clone()));
            }
        }
    }
    v
}

/// Validator and specification agree about `h`.
pub fn agree(h: &Hugr, how: &dyn Fn() -> String, cov: &mut Cov) -> Res {
    cov.step(1);
    let got = guard(|| h.validate());
    let want = spec::check(h);
    match (&got, &want) {
        (Err(e), _) => bad(format!("validation panics: {e}\n {}", how())),
        (Ok(Ok(())), Verdict::Valid) => {
            cov.outcome("valid");
            Ok(())
        }
        (Ok(Err(e)), Verdict::Invalid(w)) => {
            cov.outcome(&format!("invalid: {w}"));
            let _ = e;
            Ok(())
        }
        (Ok(_), Verdict::Open(w)) => {
            cov.outcome(&format!("open: {w}"));
            Ok(())
        }
        (Ok(Ok(())), Verdict::Invalid(w)) => bad_key(format!("accepts: {w}"), format!("validation accepts a HUGR that breaks a rule: {w}\n {}\n {}", how(), spec::text(h))),
        (Ok(Err(e)), Verdict::Valid) => bad(format!("validation rejects a HUGR that meets the specification: {e}\n {}\n {}", how(), spec::text(h))),
    }
}
/// Hand-made starting points, one per container kind and edge kind.
pub fn bases() -> Vec<(&'static str, Hugr)> {
    let mut v = vec![];
    let mut mk = |n, f: &dyn Fn(&mut Hugr)| {
        let mut h = Hugr::new();
        h.use_extensions(registry().iter().cloned());
        f(&mut h);
        v.push((n, h));
    };
    mk("empty", &|_| {});
    mk("leaf", &|h| {
        let (f, i, o) = func(h, "main", pbool(), Visibility::Public);
        let n = add(h, f, logic("Not"));
        wire(h, (i, 0), n, 0);
        wire(h, (n, 0), o, 0);
        order(h, i, n);
    });
    mk("const", &|h| {
        let (f, _, o) = func(h, "main", Signature::new(vec![], vec![b()]), Visibility::Private);
        let w = load(h, f, f, Value::true_val());
        let m = h.module_root();
        let l = load(h, m, f, Value::false_val());
        wire(h, w, o, 0);
        order(h, w.0, l.0);
    });
    mk("nested", &|h| {
        let (f, i, o) = func(h, "main", pbool(), Visibility::Public);
        let d = add(h, f, ops::DFG { signature: pbool() });
        let (di, dz) = region_io(h, d, vec![b()], vec![b()]);
        let a = add(h, d, logic("And"));
        wire(h, (i, 0), d, 0);
        wire(h, (di, 0), a, 0);
        wire(h, (i, 0), a, 1);
        wire(h, (a, 0), dz, 0);
        wire(h, (d, 0), o, 0);
    });
    mk("cond", &|h| {
        let (f, i, o) = func(h, "main", Signature::new(vec![opt_t().into()], vec![b()]), Visibility::Public);
        let e: TypeRow = vec![].into();
        let c = add(h, f, ops::Conditional { sum_rows: vec![e, vec![b()].into()], other_inputs: vec![].into(), outputs: vec![b()].into() });
        let c0 = add(h, c, ops::Case { signature: Signature::new(vec![], vec![b()]) });
        let (_, z0) = region_io(h, c0, vec![], vec![b()]);
        let w = load(h, c0, c0, Value::true_val());
        wire(h, w, z0, 0);
        let c1 = add(h, c, ops::Case { signature: pbool() });
        let (i1, z1) = region_io(h, c1, vec![b()], vec![b()]);
        wire(h, (i1, 0), z1, 0);
        wire(h, (i, 0), c, 0);
        wire(h, (c, 0), o, 0);
    });
    mk("loop", &|h| {
        let (f, i, o) = func(h, "main", pbool(), Visibility::Public);
        let t = add(h, f, ops::TailLoop { just_inputs: vec![].into(), just_outputs: vec![].into(), rest: vec![b()].into() });
        let (ti, tz) = region_io(h, t, vec![b()], vec![b(), b()]);
        wire(h, (ti, 0), tz, 0);
        wire(h, (i, 0), tz, 1);
        wire(h, (i, 0), t, 0);
        wire(h, (t, 0), o, 0);
    });
    mk("cfg", &|h| {
        // entry -> {middle, exit}, middle -> exit; middle reads a value of the entry
        let (f, i, o) = func(h, "main", pbool(), Visibility::Public);
        let e: TypeRow = vec![].into();
        let c = add(h, f, ops::CFG { signature: pbool() });
        let b0 = add(h, c, ops::DataflowBlock { inputs: vec![b()].into(), other_outputs: vec![b()].into(), sum_rows: vec![e.clone(), e.clone()] });
        let x = add(h, c, ops::ExitBlock { cfg_outputs: vec![b()].into() });
        let b1 = add(h, c, ops::DataflowBlock { inputs: vec![b()].into(), other_outputs: vec![b()].into(), sum_rows: vec![e] });
        let (i0, z0) = region_io(h, b0, vec![b()], vec![b(), b()]);
        let n = add(h, b0, logic("Not"));
        wire(h, (i0, 0), n, 0);
        wire(h, (n, 0), z0, 0);
        wire(h, (i0, 0), z0, 1);
        let (_, z1) = region_io(h, b1, vec![b()], vec![Type::new_unit_sum(1), b()]);
        let u = load(h, c, b1, Value::unary_unit_sum());
        wire(h, u, z1, 0);
        wire(h, (n, 0), z1, 1);
        h.connect(b0, 0, b1, 0);
        h.connect(b0, 1, x, 0);
        h.connect(b1, 0, x, 0);
        wire(h, (i, 0), c, 0);
        wire(h, (c, 0), o, 0);
        h.set_entrypoint(c);
    });
    mk("linear", &|h| {
        let (f, i, o) = func(h, "main", Signature::new(vec![q()], vec![q()]), Visibility::Public);
        let d = add(h, f, ops::DFG { signature: Signature::new(vec![q()], vec![q()]) });
        let (di, dz) = region_io(h, d, vec![q()], vec![q()]);
        let n = add(h, f, test_op("q0"));
        wire(h, (i, 0), n, 0);
        wire(h, (n, 0), d, 0);
        wire(h, (di, 0), dz, 0);
        wire(h, (d, 0), o, 0);
    });
    mk("calls", &|h| {
        let (f, i, o) = func(h, "main", pbool(), Visibility::Public);
        let m = h.module_root();
        let t = Type::new_var_use(0, TypeBound::Copyable);
        let (p, pi, pz) = func(h, "id", poly_sig(0), Visibility::Private);
        let nn = add(h, p, Noop::new(t.clone()));
        wire(h, (pi, 0), nn, 0);
        wire(h, (nn, 0), pz, 0);
        let pf = FnInfo { name: "id", node: p, poly: poly_sig(0), args: vec![b().into()] };
        let df = FnInfo { name: "ext", node: add(h, m, ops::FuncDecl::new_vis("ext", pbool(), Visibility::Public)), poly: pbool().into(), args: vec![] };
        let c = call_node(h, f, &pf);
        let l = load_fn(h, f, &df);
        let ci = add(h, f, ops::CallIndirect { signature: pbool() });
        wire(h, (i, 0), c, 0);
        wire(h, l, ci, 0);
        wire(h, (c, 0), ci, 1);
        wire(h, (ci, 0), o, 0);
        let ph = add(h, m, ops::FuncDecl::new_vis("ph", phantom(), Visibility::Public));
        let cp = add(h, f, call(phantom(), vec![b().into()]));
        h.connect(ph, 0, cp, 0);
    });
    v
}
/// All CFG dominance shapes: a block's value read in another block.
fn dominance(c: &mut Chooser, n: usize, cov: &mut Cov) -> Res {
    let e: TypeRow = vec![].into();
    let mut h = Hugr::new();
    let (f, i, o) = func(&mut h, "main", pbool(), Visibility::Public);
    let g = add(&mut h, f, ops::CFG { signature: pbool() });
    // number of successors of each block, and their targets
    let mut succ: Vec<Vec<usize>> = vec![];
    for _ in 0..n {
        let k = 1 + c.choose(2);
        succ.push((0..k).map(|_| c.choose(n + 1)).collect());
    }
    let (src, dst) = (c.choose(n), c.choose(n));
    let deep = c.flag();
    let mut blocks = vec![];
    let mut exit = None;
    for (k, s) in succ.iter().enumerate() {
        blocks.push(add(&mut h, g, ops::DataflowBlock { inputs: vec![b()].into(), other_outputs: vec![b()].into(), sum_rows: vec![e.clone(); s.len()] }));
        if k == 0 {
            exit = Some(add(&mut h, g, ops::ExitBlock { cfg_outputs: vec![b()].into() }));
        }
    }
    let mut made = vec![];
    for (k, &bl) in blocks.iter().enumerate() {
        let s = &succ[k];
        let (bi, bz) = region_io(&mut h, bl, vec![b()], vec![Type::new_unit_sum(s.len() as u8), b()]);
        let w = load(&mut h, g, bl, Value::unit_sum(0, s.len() as u8).unwrap());
        wire(&mut h, w, bz, 0);
        let nn = add(&mut h, bl, test_op("src"));
        made.push((bi, bz, nn));
        for (p, t) in s.iter().enumerate() {
            let t = if *t == n { exit.unwrap() } else { blocks[*t] };
            h.connect(bl, p, t, 0);
        }
        if k != dst {
            h.connect(bi, 0, bz, 1);
        }
    }
    let w = made[src].2;
    let (_, bz, _) = made[dst];
    if deep {
        let d = add(&mut h, blocks[dst], ops::DFG { signature: Signature::new(vec![], vec![b()]) });
        let (_, dz) = region_io(&mut h, d, vec![], vec![b()]);
        h.connect(w, 0, dz, 0);
        h.connect(d, 0, bz, 1);
        if src == dst {
            order(&mut h, w, d);
        }
    } else {
        h.connect(w, 0, bz, 1);
    }
    h.connect(i, 0, g, 0);
    h.connect(g, 0, o, 0);
    let d = format!("successors {succ:?} ({n} = exit), block {dst} reads a value of block {src}{}", if deep { " (nested)" } else { "" });
    cov.describe(|| d.clone());
    cov.state(&d);
    agree(&h, &|| d.clone(), cov)?;
    cov.trace();
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.assume("rules the specification leaves open, or that the code deliberately relaxes, are not judged: repeated order edges, exits without predecessors, values read in unreachable blocks, type arguments given by a variable of a narrower kind");
    let quick = r.quick();
    let pal = palette();
    let bs = bases();
    r.family("bases", "every hand-made HUGR (one per container and edge kind) and every single mutation: any edge added or cut, any node moved, removed, added, its operation or port count changed, entrypoint and root moved", 100.0, |c, cov| {
        let (name, h0) = c.pick(&bs);
        let ms = mutations(h0, true, &pal);
        let k = c.choose(ms.len() + 1);
        let mut h = h0.clone();
        let d = if k == 0 { name.to_string() } else { format!("{name}: {}", ms[k - 1].text()) };
        cov.describe(|| d.clone());
        if k > 0 {
            ms[k - 1].apply(&mut h);
        } else {
            ensure!(matches!(spec::check(&h), Verdict::Valid), "HARNESS: base {name} is not valid");
        }
        cov.state(&d);
        agree(&h, &|| d.clone(), cov)?;
        cov.trace();
        Ok(())
    });
    let conts: Vec<OpType> = pal.iter().filter(|o| !matches!(o, OpType::Const(_) | OpType::Input(_) | OpType::Output(_) | OpType::ExtensionOp(_) | OpType::Call(_) | OpType::LoadFunction(_))).cloned().collect();
    let kids = r.b(2, 3);
    r.family("containers", &format!("every container operation, as the root and at its place under a parent, with every list of at most {kids} children from the palette"), r.b(20.0, 300.0), |c, cov| {
        let mut h = Hugr::new();
        let o = c.pick(&conts).clone();
        let m = h.module_root();
        let (n, place) = if c.flag() {
            h.replace_op(m, o.clone());
            h.set_num_ports(m, o.port_count(Direction::Incoming), o.port_count(Direction::Outgoing));
            (m, "root")
        } else if matches!(o, OpType::DataflowBlock(_) | OpType::ExitBlock(_)) {
            let (f, _, _) = func(&mut h, "f", Signature::new(vec![], vec![]), Visibility::Public);
            let g = add(&mut h, f, ops::CFG { signature: Signature::new(vec![], vec![]) });
            (add(&mut h, g, o.clone()), "block")
        } else if matches!(o, OpType::Case(_)) {
            let (f, _, _) = func(&mut h, "f", Signature::new(vec![], vec![]), Visibility::Public);
            let g = add(&mut h, f, ops::Conditional { sum_rows: vec![vec![].into()], other_inputs: vec![].into(), outputs: vec![].into() });
            (add(&mut h, g, o.clone()), "case")
        } else if matches!(o, OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_)) {
            (add(&mut h, m, o.clone()), "module")
        } else {
            let (f, _, _) = func(&mut h, "f", Signature::new(vec![], vec![]), Visibility::Public);
            (add(&mut h, f, o.clone()), "function")
        };
        let k = c.choose(kids + 1);
        let mut d = format!("{} at {place} with", op_text(&o));
        for _ in 0..k {
            let x = c.pick(&pal).clone();
            d += &format!(" [{}]", op_text(&x));
            add(&mut h, n, x);
        }
        if c.flag() {
            h.set_entrypoint(n);
        }
        cov.describe(|| d.clone());
        cov.state(&d);
        agree(&h, &|| d.clone(), cov)?;
        cov.trace();
        Ok(())
    });
    let small: Vec<_> = bs.iter().filter(|b| !quick || ["leaf", "const", "nested", "loop"].contains(&b.0)).collect();
    r.family("pairs", "every pair of mutations of the hand-made HUGRs (second mutation: edges, moves, removals, port counts)", r.b(60.0, 800.0), |c, cov| {
        let (name, h0) = *c.pick(&small);
        let ms = mutations(h0, !quick, if quick { &[] } else { &pal });
        let m = c.pick(&ms).clone();
        let mut h = h0.clone();
        m.apply(&mut h);
        let ms2 = mutations(&h, false, &[]);
        let m2 = c.pick(&ms2);
        m2.apply(&mut h);
        let d = || format!("{name}: {}; {}", m.text(), m2.text());
        cov.describe(d);
        cov.state(d());
        agree(&h, &d, cov)?;
        cov.trace();
        Ok(())
    });
    r.family("dominance", "every control-flow graph of three blocks with up to two successors each, and every pair of blocks where one reads a value of the other, directly or nested", 60.0, |c, cov| dominance(c, 3, cov));
    if !quick {
        r.family("dominance4", "as dominance, four blocks", 300.0, |c, cov| dominance(c, 4, cov));
    }
    for f in standard(false) {
        let mut g = f.g.clone();
        if quick {
            g.stmts = g.stmts.min(if ["cfg", "cfg3"].contains(&f.name) { 1 } else { 2 });
            g.consts.truncate(1);
        }
        let full = !quick;
        let p2: Vec<OpType> = if quick { vec![] } else { pal.clone() };
        r.family(f.name, &format!("{}; every single mutation of each", f.bound), r.b(12.0, 200.0), |c, cov| {
            let p = Gen::program(c, g.clone())?;
            let d0 = p.describe();
            let h0 = p.h;
            let ms = mutations(&h0, full, &p2);
            let k = c.choose(ms.len() + 1);
            let mut h = h0;
            let d = || if k == 0 { d0.clone() } else { format!("{d0}: {}", ms[k - 1].text()) };
            cov.describe(d);
            if k > 0 {
                ms[k - 1].apply(&mut h);
            }
            cov.state(d());
            agree(&h, &d, cov)?;
            cov.trace();
            Ok(())
        });
    }
}
