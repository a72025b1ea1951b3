//! C21: monomorphisation gives one correct instance per function and type arguments.
use crate::explore::*;
use crate::families::*;
use crate::prog::*;
use crate::{ensure, ensure_eq, interp, subst};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::{self, OpTrait, OpType, Value};
use hugr_core::types::type_param::TypeArg;
use hugr_core::types::{EdgeKind, PolyFuncType, Signature, Term, Type, TypeBound, TypeRow, TypeRV};
use hugr_core::{Direction, Hugr, HugrView, Node, PortIndex, Visibility};
use hugr_passes::{ComposablePass, MonomorphizePass, mangle_name};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Res<T = ()> = Result<T, Fail>;

// ---- reference ----
fn row(r: &TypeRow, a: &[TypeArg]) -> TypeRow {
    r.iter().map(|t| subst::ty(t, a)).collect::<Vec<_>>().into()
}
/// The operation at the type arguments; calls keep their (substituted) arguments.
fn op_at(o: &OpType, a: &[TypeArg]) -> OpType {
    if a.is_empty() {
        return o.clone();
    }
    let terms = |v: &[Term]| v.iter().map(|t| subst::term(t, a)).collect::<Vec<_>>();
    match o {
        OpType::Input(x) => ops::Input { types: row(&x.types, a) }.into(),
        OpType::Output(x) => ops::Output { types: row(&x.types, a) }.into(),
        OpType::Call(x) => ops::Call::try_new(x.func_sig.clone(), terms(&x.type_args)).unwrap().into(),
        OpType::LoadFunction(x) => ops::LoadFunction::try_new(x.func_sig.clone(), terms(&x.type_args)).unwrap().into(),
        OpType::CallIndirect(x) => ops::CallIndirect { signature: subst::sig(&x.signature, a) }.into(),
        OpType::LoadConstant(x) => ops::LoadConstant { datatype: subst::ty(&x.datatype, a) }.into(),
        OpType::DFG(x) => ops::DFG { signature: subst::sig(&x.signature, a) }.into(),
        OpType::CFG(x) => ops::CFG { signature: subst::sig(&x.signature, a) }.into(),
        OpType::Case(x) => ops::Case { signature: subst::sig(&x.signature, a) }.into(),
        OpType::Tag(x) => ops::Tag::new(x.tag, x.variants.iter().map(|r| row(r, a)).collect()).into(),
        OpType::ExtensionOp(x) => ops::ExtensionOp::new(x.def_arc().clone(), terms(x.args())).unwrap().into(),
        OpType::TailLoop(x) => ops::TailLoop { just_inputs: row(&x.just_inputs, a), just_outputs: row(&x.just_outputs, a), rest: row(&x.rest, a) }.into(),
        OpType::Conditional(x) => ops::Conditional { sum_rows: x.sum_rows.iter().map(|r| row(r, a)).collect(), other_inputs: row(&x.other_inputs, a), outputs: row(&x.outputs, a) }.into(),
        OpType::DataflowBlock(x) => ops::DataflowBlock { inputs: row(&x.inputs, a), other_outputs: row(&x.other_outputs, a), sum_rows: x.sum_rows.iter().map(|r| row(r, a)).collect() }.into(),
        OpType::ExitBlock(x) => ops::ExitBlock { cfg_outputs: row(&x.cfg_outputs, a) }.into(),
        OpType::Const(_) => o.clone(),
        o => panic!("HARNESS: {o} in a function"),
    }
}
/// Canonical text of type arguments of a function.
fn key(f: &OpType, a: &[TypeArg]) -> String {
    let OpType::FuncDefn(f) = f else { panic!("HARNESS") };
    let k = f.signature().params().iter().zip(a).map(|(k, t)| crate::c15::canon(t, k, None)).collect::<Vec<_>>().join(" ; ");
    // lists written as concatenations are not promised to be recognised as equal
    let t = format!("{a:?}");
    if t.contains("Concat") { format!("{k} written {t}") } else { k }
}
struct Cmp<'a> {
    b: &'a Hugr,
    z: &'a Hugr,
    /// function and arguments -> instance
    inst: HashMap<(Node, String), Node>,
    todo: Vec<(Node, Vec<TypeArg>, Node)>,
    d: &'a str,
}
impl Cmp<'_> {
    /// The subtrees correspond, `a` substituted; `scan` = calls have been made monomorphic.
    fn tree(&mut self, n: Node, m: Node, a: &[TypeArg], scan: bool) -> Res {
        let d = self.d;
        let mut map = HashMap::new();
        self.nodes(n, m, a, scan, true, &mut map)?;
        // links
        for (x, y) in &map {
            for p in self.b.node_inputs(*x) {
                let stat = matches!(self.b.get_optype(*x).port_kind(p), Some(EdgeKind::Function(_)));
                if stat || x == &n {
                    continue;
                }
                let want: BTreeSet<_> = self.b.linked_outputs(*x, p).map(|(s, q)| (map.get(&s).copied().unwrap_or(s), q.index())).collect();
                let got: BTreeSet<_> = self.z.linked_outputs(*y, p).map(|(s, q)| (s, q.index())).collect();
                ensure_eq!(got, want, "sources of input {} of {y} ({}), copied from {x} | {d}", p.index(), self.z.get_optype(*y));
            }
            for p in self.b.node_outputs(*x).filter(|_| x != &n) {
                ensure_eq!(self.z.linked_inputs(*y, p).count(), self.b.linked_inputs(*x, p).count(), "links of output {} of {y}, copied from {x} | {d}", p.index());
            }
        }
        Ok(())
    }
    fn nodes(&mut self, n: Node, m: Node, a: &[TypeArg], scan: bool, top: bool, map: &mut HashMap<Node, Node>) -> Res {
        let d = self.d;
        map.insert(n, m);
        let (o, z) = (self.b.get_optype(n), self.z.get_optype(m));
        if !top {
            let want = op_at(o, a);
            let target = |h: &Hugr, n: Node| h.get_optype(n).static_input_port().and_then(|p| h.single_linked_output(n, p)).map(|x| x.0);
            let (targs, sig): (&[TypeArg], Option<&Signature>) = match &want {
                OpType::Call(c) => (&c.type_args, Some(&c.instantiation)),
                OpType::LoadFunction(c) => (&c.type_args, Some(&c.instantiation)),
                _ => (&[], None),
            };
            let f = sig.and_then(|_| target(self.b, n));
            if scan && !targs.is_empty() && self.b.get_optype(f.unwrap()).is_func_defn() {
                let f = f.unwrap();
                let mono = match &want {
                    OpType::Call(_) => OpType::from(ops::Call::try_new(sig.unwrap().clone().into(), []).unwrap()),
                    _ => ops::LoadFunction::try_new(sig.unwrap().clone().into(), []).unwrap().into(),
                };
                ensure!(*z == mono, "{m}: {z:?} instead of {mono:?}, for a use of {f} at {targs:?} | {d}");
                let Some(t) = target(self.z, m) else { return bad(format!("{m} calls nothing | {d}")) };
                let k = (f, key(self.b.get_optype(f), targs));
                match self.inst.get(&k) {
                    Some(i) => ensure_eq!(*i, t, "two instances of {f} at {targs:?} | {d}"),
                    None => {
                        ensure!(!self.inst.values().any(|i| *i == t), "{t} is shared by two different instances, one of {f} at {targs:?} | {d}");
                        ensure!(!self.b.contains_node(t), "{m} calls {t}, which existed before | {d}");
                        self.inst.insert(k, t);
                        self.todo.push((f, targs.to_vec(), t));
                    }
                }
            } else {
                ensure!(*z == want, "{m}: {z:?} instead of {want:?}, copied from {n} | {d}");
                if sig.is_some() {
                    ensure_eq!(target(self.z, m), f, "target of {m}, copied from {n} | {d}");
                }
            }
        }
        let (cb, cz): (Vec<_>, Vec<_>) = (self.b.children(n).collect(), self.z.children(m).collect());
        ensure_eq!(cz.len(), cb.len(), "children of {m}, copied from {n} | {d}");
        for (x, y) in cb.into_iter().zip(cz) {
            self.nodes(x, y, a, scan, false, map)?;
        }
        Ok(())
    }
}
/// Compares the program after the pass with the reference; the instances by function.
fn check(before: &Hugr, after: &Hugr, d: &str) -> Res<usize> {
    let (mb, mz) = (before.module_root(), after.module_root());
    let mut c = Cmp { b: before, z: after, inst: HashMap::new(), todo: vec![], d };
    let e = before.entrypoint();
    ensure_eq!(after.entrypoint(), e, "the entrypoint changed | {d}");
    let poly = |n: Node| matches!(before.get_optype(n), OpType::FuncDefn(f) if !f.signature().params().is_empty());
    let old: Vec<Node> = before.children(mb).collect();
    let kept: Vec<Node> = after.children(mz).filter(|n| old.contains(n)).collect();
    ensure_eq!(kept, old, "functions that existed | {d}");
    for n in &old {
        ensure!(after.get_optype(*n) == before.get_optype(*n), "{n} became {:?} | {d}", after.get_optype(*n));
        let scan = !poly(*n) && (e == mb || e == *n);
        c.tree(*n, *n, &[], scan)?;
    }
    while let Some((f, a, i)) = c.todo.pop() {
        let OpType::FuncDefn(x) = before.get_optype(f) else { panic!() };
        let OpType::FuncDefn(y) = after.get_optype(i) else { return bad(format!("instance {i} is {} | {d}", after.get_optype(i))) };
        ensure_eq!(after.get_parent(i), before.get_parent(f), "parent of instance {i} of {f} | {d}");
        let want: PolyFuncType = {
            let s = x.signature().body();
            Signature::new(s.input().iter().map(|t| subst::ty(t, &a)).collect::<Vec<_>>(), s.output().iter().map(|t| subst::ty(t, &a)).collect::<Vec<_>>()).into()
        };
        ensure!(y.signature() == &want, "signature of instance {i} of {f} at {a:?}: {} instead of {want} | {d}", y.signature());
        ensure_eq!(y.func_name(), &mangle_name(x.func_name(), &a), "name of instance {i} of {f} at {a:?} | {d}");
        c.tree(f, i, &a, true)?;
    }
    let new: BTreeSet<Node> = after.children(mz).filter(|n| !old.contains(n)).collect();
    let made: BTreeSet<Node> = c.inst.values().copied().collect();
    ensure_eq!(new, made, "new functions and used instances | {d}");
    let mut names = BTreeMap::new();
    for n in after.children(mz) {
        if let OpType::FuncDefn(f) = after.get_optype(n) {
            if let Some(m) = names.insert(f.func_name().clone(), n) {
                return bad_key("name-collision", format!("{n} and {m} are both called {} | {d}", f.func_name()));
            }
        }
    }
    Ok(made.len())
}
fn mono(h: &Hugr, d: &str) -> Res<Hugr> {
    let mut z = h.clone();
    match guard(|| MonomorphizePass.run(&mut z)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => match e {},
        Err(e) => return bad(format!("monomorphize panics: {e} | {d}")),
    }
    match guard(|| z.validate()) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return bad(format!("result is invalid: {e} | {d}")),
        Err(e) => return bad(format!("validating the result panics: {e} | {d}")),
    }
    Ok(z)
}
fn judge(h: &Hugr, d: &str, cov: &mut Cov, ins: &[Vec<crate::sem::V>]) -> Res {
    cov.trace();
    cov.step(1);
    match guard(|| h.validate()) {
        Ok(Ok(())) => {}
        x => return bad(format!("HARNESS: invalid program: {x:?} | {d}")),
    }
    let z = mono(h, d)?;
    let k = check(h, &z, d)?;
    cov.outcome(&format!("{k} instances"));
    let y = mono(&z, d)?;
    ensure!(y == z || canon(&y) == canon(&z), "monomorphising again changes something | {d}");
    if let Some(f) = interp::find_fn(h, "main") {
        let before = behaviours(h, f, ins, false);
        for (b, i) in before.iter().zip(ins) {
            if let Err(interp::Stop::Stuck(e)) = &b.out {
                return bad(format!("HARNESS: stuck on {i:?}: {e} | {d}"));
            }
        }
        same_meaning_fn("monomorphize", &before, &z, "main", ins, false, d)?;
    }
    Ok(())
}

// ---- programs ----
/// A function `forall params. (x, Bool) -> (x, Bool)`.
#[derive(Clone)]
struct F {
    params: Vec<Term>,
    x: Type,
    shape: usize,
    node: Node,
}
fn var(b: TypeBound) -> Type {
    Type::new_var_use(0, b)
}
fn shape(i: usize) -> (Vec<Term>, Type) {
    let (c, l) = (TypeBound::Copyable, TypeBound::Linear);
    match i {
        0 => (vec![c.into()], var(c)),
        1 => (vec![c.into(), Term::max_nat_type()], var(c)),
        2 => (vec![l.into()], var(l)),
        3 => (vec![Term::new_list_type(c)], Type::new_tuple(vec![TypeRV::new_row_var_use(0, c)])),
        4 => (vec![Term::max_nat_type()], b()),
        5 => (vec![Term::max_nat_type(), l.into()], Type::new_tuple(vec![Type::new_var_use(1, l), b()])),
        _ => panic!(),
    }
}
const SHAPES: usize = 6;
fn sig_of(f: &F) -> PolyFuncType {
    PolyFuncType::new(f.params.clone(), Signature::new(vec![f.x.clone(), b()], vec![f.x.clone(), b()]))
}
/// Natural numbers over a context.
fn nats(params: &[Term], k: usize) -> Vec<Term> {
    let mut v: Vec<Term> = params.iter().enumerate().filter(|(_, t)| matches!(t, Term::BoundedNatType(_))).map(|(i, t)| Term::new_var_use(i, t.clone())).collect();
    v.extend((0..k as u64).map(Term::from));
    v
}
/// The arguments at which `f` carries the type, as it is or wrapped in a tuple.
fn args_for(f: &F, x: &Type, params: &[Term], wrap: bool) -> Vec<(Vec<Term>, bool)> {
    let mut v = vec![];
    let ns = || nats(params, 2);
    let cp = x.copyable();
    match f.shape {
        0 if cp => {
            v.push((vec![x.clone().into()], false));
            if wrap {
                v.push((vec![tuple_t(vec![x.clone()]).into()], true));
            }
        }
        1 if cp => v.extend(ns().into_iter().map(|n| (vec![x.clone().into(), n], false))),
        2 => {
            v.push((vec![x.clone().into()], false));
            if wrap {
                v.push((vec![tuple_t(vec![x.clone()]).into()], true));
            }
        }
        3 if cp => {
            // the row of a tuple
            if let Some(r) = x.as_sum().and_then(|s| s.as_tuple()) {
                let items: Vec<Term> = r.iter().map(|t| t.clone().into()).collect();
                v.push((vec![Term::List(items)], false));
            }
            if wrap {
                v.push((vec![Term::List(vec![x.clone().into()])], true));
            }
        }
        4 if *x == b() => v.extend(ns().into_iter().map(|n| (vec![n], false))),
        5 => {
            if let Some(r) = x.as_sum().and_then(|s| s.as_tuple()) {
                let ts: Vec<TypeRV> = r.iter().cloned().collect();
                if let [t, u] = &ts[..] {
                    if let (Ok(t), true) = (Type::try_from(t.clone()), *u == TypeRV::from(b())) {
                        v.extend(ns().into_iter().map(|n| (vec![n, t.clone().into()], false)));
                    }
                }
            }
        }
        _ => {}
    }
    v
}
struct P<'a> {
    h: Hugr,
    c: &'a mut Chooser,
    fs: Vec<F>,
    log: Vec<String>,
    recursive: bool,
    containers: usize,
    modes: usize,
    decls: Vec<usize>,
}
impl P<'_> {
    /// One statement; gives the wires of the carried value and the boolean.
    fn stmt(&mut self, p: Node, me: Option<usize>, x: &Type, params: &[Term], w: W, bw: W) -> Res<(W, W)> {
        let k = self.c.choose(self.containers);
        if k == 0 {
            return self.leaf(p, me, x, params, w, bw, false);
        }
        let row: TypeRow = vec![x.clone(), b()].into();
        let sig = Signature::new(row.clone(), row.clone());
        self.log.push(["", "dfg{", "if{", "loop{", "cfg{", "ext{"][k].into());
        let r = match k {
            1 | 5 => {
                if k == 5 && !x.copyable() {
                    return Err(Fail::Skip);
                }
                let n = add(&mut self.h, p, ops::DFG { signature: if k == 1 { sig } else { Signature::new(vec![], row.clone()) } });
                let (i, o) = region_io(&mut self.h, n, if k == 1 { row.clone() } else { vec![].into() }, row.clone());
                let (a, z) = if k == 1 {
                    wire(&mut self.h, w, n, 0);
                    wire(&mut self.h, bw, n, 1);
                    ((i, 0), (i, 1))
                } else {
                    (w, bw)
                };
                let (a, z) = self.leaf(n, me, x, params, a, z, false)?;
                wire(&mut self.h, a, o, 0);
                wire(&mut self.h, z, o, 1);
                ((n, 0), (n, 1))
            }
            2 => {
                let n = add(&mut self.h, p, ops::Conditional { sum_rows: vec![vec![].into(), vec![].into()], other_inputs: vec![x.clone()].into(), outputs: row.clone() });
                wire(&mut self.h, bw, n, 0);
                wire(&mut self.h, w, n, 1);
                for j in 0..2 {
                    let cs = add(&mut self.h, n, ops::Case { signature: Signature::new(vec![x.clone()], row.clone()) });
                    let (i, o) = region_io(&mut self.h, cs, vec![x.clone()], row.clone());
                    let f = load(&mut self.h, cs, cs, Value::false_val());
                    let (a, z) = if j == 0 { ((i, 0), f) } else { self.leaf(cs, me, x, params, (i, 0), f, true)? };
                    wire(&mut self.h, a, o, 0);
                    wire(&mut self.h, z, o, 1);
                }
                ((n, 0), (n, 1))
            }
            3 => {
                let n = add(&mut self.h, p, ops::TailLoop { just_inputs: vec![x.clone()].into(), just_outputs: vec![].into(), rest: vec![b()].into() });
                // Sum([x], []) : always stops, dropping x: only for copyable values
                if !x.copyable() {
                    return Err(Fail::Skip);
                }
                wire(&mut self.h, w, n, 0);
                wire(&mut self.h, bw, n, 1);
                let (i, o) = region_io(&mut self.h, n, row.clone(), vec![Type::new_sum([vec![x.clone()], vec![]]), b()]);
                let (_, z) = self.leaf(n, me, x, params, (i, 0), (i, 1), false)?;
                let t = add(&mut self.h, n, ops::Tag::new(1, vec![vec![x.clone()].into(), vec![].into()]));
                wire(&mut self.h, (t, 0), o, 0);
                wire(&mut self.h, z, o, 1);
                (w, (n, 0))
            }
            _ => {
                let n = add(&mut self.h, p, ops::CFG { signature: sig });
                wire(&mut self.h, w, n, 0);
                wire(&mut self.h, bw, n, 1);
                let bl = add(&mut self.h, n, ops::DataflowBlock { inputs: row.clone(), other_outputs: vec![b()].into(), sum_rows: vec![vec![x.clone()].into()] });
                let ex = add(&mut self.h, n, ops::ExitBlock { cfg_outputs: row.clone() });
                let (i, o) = region_io(&mut self.h, bl, row.clone(), vec![Type::new_sum([vec![x.clone()]]), b()]);
                self.h.connect(bl, 0, ex, 0);
                let (a, z) = self.leaf(bl, me, x, params, (i, 0), (i, 1), false)?;
                let t = add(&mut self.h, bl, ops::Tag::new(0, vec![vec![x.clone()].into()]));
                wire(&mut self.h, a, t, 0);
                wire(&mut self.h, (t, 0), o, 0);
                wire(&mut self.h, z, o, 1);
                ((n, 0), (n, 1))
            }
        };
        self.log.push("}".into());
        Ok(r)
    }
    #[allow(clippy::too_many_arguments)]
    fn leaf(&mut self, p: Node, me: Option<usize>, x: &Type, params: &[Term], w: W, bw: W, cond: bool) -> Res<(W, W)> {
        let mut opts: Vec<(usize, Vec<Term>, bool)> = vec![];
        for (j, f) in self.fs.iter().enumerate() {
            let ok = match me {
                None => true,
                Some(i) => j < i || self.recursive && cond,
            };
            if ok {
                let wrap = me.is_none() || !self.recursive;
                opts.extend(args_for(f, x, params, wrap).into_iter().map(|(a, wr)| (j, a, wr)));
            }
        }
        let marks = nats(params, 1);
        let k = self.c.choose(marks.len() + opts.len() * self.modes);
        if k < marks.len() {
            let n = add(&mut self.h, p, TEST_EXT.instantiate_extension_op("mark", [marks[k].clone()]).unwrap());
            wire(&mut self.h, bw, n, 0);
            self.log.push(format!("mark {}", marks[k]));
            return Ok((w, (n, 0)));
        }
        let k = k - marks.len();
        let (j, args, wr) = opts[k / self.modes].clone();
        let f = self.fs[j].clone();
        let ind = k % self.modes == 1;
        self.log.push(format!("{}f{j}({}){}", if ind { "load " } else { "" }, args.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "), if wr { " wrapped" } else { "" }));
        let mut v = w;
        let items = Term::List(vec![x.clone().into()]);
        if wr {
            let n = add(&mut self.h, p, prelude_op("MakeTuple", vec![items.clone()]));
            wire(&mut self.h, v, n, 0);
            v = (n, 0);
        }
        let n = if ind {
            let l = ops::LoadFunction::try_new(sig_of(&f), args).map_err(|e| Fail::Bad { key: String::new(), msg: format!("HARNESS {e}") })?;
            let s = l.instantiation.clone();
            let l = add(&mut self.h, p, l);
            self.h.connect(f.node, 0, l, 0);
            let n = add(&mut self.h, p, ops::CallIndirect { signature: s });
            wire(&mut self.h, (l, 0), n, 0);
            wire(&mut self.h, v, n, 1);
            wire(&mut self.h, bw, n, 2);
            n
        } else {
            let n = ops::Call::try_new(sig_of(&f), args).map_err(|e| Fail::Bad { key: String::new(), msg: format!("HARNESS {e}") })?;
            let n = add(&mut self.h, p, n);
            self.h.connect(f.node, 0, n, 2);
            wire(&mut self.h, v, n, 0);
            wire(&mut self.h, bw, n, 1);
            n
        };
        let mut v = (n, 0);
        if wr {
            let u = add(&mut self.h, p, prelude_op("UnpackTuple", vec![items]));
            wire(&mut self.h, v, u, 0);
            v = (u, 0);
        }
        Ok((v, (n, 1)))
    }
    fn body(&mut self, p: Node, i: Node, o: Node, me: Option<usize>, x: &Type, params: &[Term], n: usize) -> Res {
        let (mut w, mut bw) = ((i, 0), (i, 1));
        for _ in 0..n {
            (w, bw) = self.stmt(p, me, x, params, w, bw)?;
        }
        wire(&mut self.h, w, o, 0);
        wire(&mut self.h, bw, o, 1);
        Ok(())
    }
}
struct Lim {
    fns: usize,
    stmts: usize,
    main: usize,
    containers: usize,
    modes: usize,
}
fn program(c: &mut Chooser, l: &Lim) -> Res<(Hugr, String, Vec<Vec<crate::sem::V>>)> {
    let mut h = Hugr::new();
    h.use_extensions(registry().iter().cloned());
    let recursive = c.flag();
    let nf = 1 + c.choose(l.fns);
    let mut fs = vec![];
    let mut ios = vec![];
    let mut log = vec![format!("recursive {recursive}")];
    let mut decls = vec![];
    for k in 0..nf {
        let s = c.choose(SHAPES);
        let (params, x) = shape(s);
        let mut f = F { params, x, shape: s, node: h.module_root() };
        let sig = sig_of(&f);
        if k == 0 && nf > 1 && c.flag() {
            let m = h.module_root();
            f.node = add(&mut h, m, ops::FuncDecl::new("f0", sig));
            decls.push(0);
            ios.push(None);
            log.push(format!("declared f0: shape {s}"));
        } else {
            let (n, i, o) = func(&mut h, &format!("f{k}"), sig, if k == 1 { Visibility::Public } else { Visibility::Private });
            f.node = n;
            ios.push(Some((i, o)));
            log.push(format!("f{k}: shape {s}"));
        }
        fs.push(f);
    }
    let mut p = P { h, c, fs: fs.clone(), log, recursive, containers: l.containers, modes: l.modes, decls };
    for (k, io) in ios.into_iter().enumerate() {
        let Some((i, o)) = io else { continue };
        p.log.push(format!("f{k}:"));
        let n = 1 + p.c.choose(l.stmts);
        let f = fs[k].clone();
        p.body(f.node, i, o, Some(k), &f.x, &f.params, n)?;
    }
    let q = q();
    let xs = [b(), q.clone(), tuple_t(vec![b()]), tuple_t(vec![q, b()])];
    let mut x = p.c.pick(&xs[..]).clone();
    let mut mains = vec!["main"];
    if l.main == 1 && p.c.flag() {
        mains.push("other");
    }
    let mut roots = vec![p.h.module_root()];
    let x0 = x.clone();
    p.containers = 1;
    for name in mains {
        p.log.push(format!("{name} on {x}:"));
        let (m, i, o) = func(&mut p.h, name, Signature::new(vec![x.clone(), b()], vec![x.clone(), b()]), Visibility::Public);
        roots.push(m);
        p.body(m, i, o, None, &x, &[], l.main)?;
        x = if x.copyable() { b() } else { x };
    }
    let e = *p.c.pick(&roots);
    p.h.set_entrypoint(e);
    p.log.push(format!("entrypoint {e}"));
    let d = p.log.join(" ");
    let _ = &p.decls;
    let ins = interp::inputs(&[x0, b()]);
    Ok((p.h, d, ins))
}

pub fn run(r: &mut Runner) {
    r.assume("polymorphic recursion at ever growing types has no finite monomorphic form and is not generated");
    let fam = |r: &mut Runner, name: &str, what: &str, cap: f64, l: Lim| {
        r.family(name, what, cap, move |c, cov| {
            let (h, d, ins) = program(c, &l)?;
            cov.describe(|| d.clone());
            cov.state(&d);
            judge(&h, &d, cov, &ins)
        });
    };
    fam(r, "one", "one polymorphic function of six shapes with one or two statements in six kinds of containers, called by one or two functions", r.b(30.0, 200.0), Lim { fns: 1, stmts: 2, main: 1, containers: 6, modes: 2 });
    fam(r, "two", "up to two polymorphic functions (the first may be a declaration), one statement each in six kinds of containers, one or two callers", r.b(30.0, 200.0), Lim { fns: 2, stmts: 1, main: 1, containers: 6, modes: 2 });
    fam(r, "three", "up to three polymorphic functions, one statement each, two calls", r.b(30.0, 300.0), Lim { fns: 3, stmts: 1, main: 2, containers: 1, modes: 1 });
    if !r.quick() {
        fam(r, "two-two", "up to two polymorphic functions with two statements each", 300.0, Lim { fns: 2, stmts: 2, main: 2, containers: 1, modes: 2 });
    }
    // names and sharing for every kind of argument
    r.family("arguments", "a polymorphic function of one parameter of sixteen kinds, used at every pair of arguments of a pool", r.b(30.0, 120.0), |c, cov| {
        let k = c.pick(&crate::c15::KINDS[..]).clone();
        let ts = crate::c15::terms(&k, &[], 1, 40);
        let mut ts: Vec<Term> = ts.to_vec();
        match &k {
            Term::StringType => ts.extend(["$", "\\", "a$b", "a\\$b", ")$s(", "a)\\", "\"", "1"].map(Term::from)),
            Term::BoundedNatType(u) if u.value().is_none() => ts.extend([10u64, 11, u64::MAX].map(Term::from)),
            Term::FloatType => ts.extend([0.0, -1.5, 1.0, 1e300, f64::INFINITY].map(|f| Term::Float(f.into()))),
            Term::BytesType => ts.extend([&[][..], &[1, 1], &[17], &[2]].map(|b| Term::Bytes(std::sync::Arc::from(b)))),
            Term::ListType(e) if **e == Term::max_nat_type() => ts.extend([Term::List(vec![1u64.into(), 0u64.into()]), Term::List(vec![10u64.into()]), Term::ListConcat(vec![Term::List(vec![1u64.into()]), Term::List(vec![0u64.into()])])]),
            _ => {}
        }
        if ts.is_empty() {
            return Err(Fail::Skip);
        }
        let (a, z) = (c.pick(&ts).clone(), c.pick(&ts).clone());
        let name = *c.pick(&["f", "f$", "f\\"]);
        let mut h = Hugr::new();
        h.use_extensions(crate::c15::REG.iter().cloned());
        let sig = PolyFuncType::new([k.clone()], Signature::new(vec![], vec![]));
        let (f, _, _) = func(&mut h, name, sig.clone(), Visibility::Private);
        let (m, _, _) = func(&mut h, "main", Signature::new(vec![], vec![]), Visibility::Public);
        let d = format!("forall {k}. {name} at {a:?} and {z:?}");
        cov.describe(|| d.clone());
        for t in [&a, &z] {
            let Ok(op) = ops::Call::try_new(sig.clone(), vec![(*t).clone()]) else { return bad(format!("HARNESS: refused | {d}")) };
            let n = add(&mut h, m, op);
            h.connect(f, 0, n, 0);
        }
        cov.state(&d);
        judge(&h, &d, cov, &[])
    });
    // the programs of the standard families
    for f in standard(false).into_iter().filter(|f| f.name == "call3" || !f.g.funcs.is_empty()) {
        let Fam { name, g, .. } = f;
        r.family(name, "every program of the standard family with function calls", r.b(10.0, 100.0), move |c, cov| {
            let (h, _, d) = gen_valid(c, &g, cov)?;
            judge(&h, &d, cov, &interp::inputs(&g.ins))
        });
    }
    let _ = Direction::Incoming;
}
