//! C09: dataflow analysis never claims something execution contradicts; its values form a lattice.
use crate::explore::*;
use crate::families::*;
use crate::interp::{Ctx, FUEL, Interp, inputs};
use crate::prog::*;
use crate::sem::{Ev, FnV, V, eval_op};
use ascent::Lattice;
use ascent::lattice::BoundedLattice;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::constant::OpaqueValue;
use hugr_core::ops::{ExtensionOp, OpType, Value};
use hugr_core::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, Wire};
use hugr_passes::dataflow::*;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, PartialEq, Eq, Debug)]
struct AV(V);
impl Hash for AV {
    fn hash<H: Hasher>(&self, h: &mut H) {
        format!("{:?}", self.0).hash(h)
    }
}
impl AbstractValue for AV {}
type PV = PartialValue<AV, Node>;

fn lift(v: &V) -> PV {
    match v {
        V::Sum(t, f) => PV::new_variant(*t, f.iter().map(lift)),
        V::Func(FnV::Node(n, a)) => PV::new_load(*n, a.clone()),
        v => PV::Value(AV(v.clone())),
    }
}
fn lower(v: &PV) -> Option<V> {
    Some(match v {
        PV::Value(v) => v.0.clone(),
        PV::PartialSum(s) if s.0.len() == 1 => {
            let (t, f) = s.0.iter().next().unwrap();
            V::Sum(*t, f.iter().map(lower).collect::<Option<_>>()?)
        }
        PV::LoadedFunction(f) => V::Func(FnV::Node(f.func_node, f.args.clone())),
        _ => return None,
    })
}
/// Does the abstract value allow the concrete one?
fn allows(a: &PV, v: &V) -> bool {
    match (a, v) {
        (PV::Top, _) => true,
        (PV::Bottom, _) => false,
        (PV::PartialSum(s), V::Sum(t, f)) => s.0.get(t).is_some_and(|r| r.len() == f.len() && r.iter().zip(f).all(|(a, v)| allows(a, v))),
        (PV::LoadedFunction(l), V::Func(FnV::Node(n, a))) => l.func_node == *n && l.args == *a,
        (PV::Value(AV(x)), v) => !matches!(v, V::Func(FnV::Node(..)) | V::Sum(..)) && x == v,
        _ => false,
    }
}

/// How much the analysis' client knows about operations.
#[derive(Clone, Copy, PartialEq)]
enum Know {
    Nothing,
    Constants,
    Everything,
}
struct Cx(Know);
impl ConstLoader<AV> for Cx {
    type Node = Node;
    fn value_from_opaque(&self, _: ConstLocation<Node>, v: &OpaqueValue) -> Option<AV> {
        (self.0 != Know::Nothing).then(|| V::of_const(&Value::Extension { e: v.clone() }).map(AV)).flatten()
    }
    fn value_from_const_hugr(&self, _: ConstLocation<Node>, h: &Hugr) -> Option<AV> {
        (self.0 != Know::Nothing).then(|| AV(V::of_const(&Value::Function { hugr: Box::new(h.clone()) }).unwrap()))
    }
}
impl DFContext<AV> for Cx {
    fn interpret_leaf_op(&mut self, _: Node, e: &ExtensionOp, ins: &[PV], outs: &mut [PV]) {
        if self.0 != Know::Everything {
            return;
        }
        let Some(ins) = ins.iter().map(lower).collect::<Option<Vec<V>>>() else { return };
        match eval_op(&OpType::ExtensionOp(e.clone()), &ins) {
            Ev::Vals(v) => {
                for (o, v) in outs.iter_mut().zip(&v) {
                    *o = lift(v);
                }
            }
            Ev::Panic => outs.iter_mut().for_each(|o| *o = PV::Bottom),
            _ => {}
        }
    }
}

fn check(h: &Hugr, main: Node, given: &[PV], know: Know, runs: &[(Vec<V>, Ctx)], spot: Node, d: &str, cov: &mut Cov) -> Res {
    let res = match guard(|| {
        let mut m = Machine::new(h);
        m.prepopulate_inputs(main, given.iter().cloned().enumerate().map(|(k, v)| (IncomingPort::from(k), v))).unwrap();
        m.run(Cx(know), [])
    }) {
        Ok(r) => r,
        Err(e) => return bad(format!("analysis crashes: {e}\n {d}")),
    };
    let seen: HashSet<Node> = h.descendants(spot).collect();
    for (ins, x) in runs {
        // only executions consistent with the inputs
        if !given.iter().zip(ins).all(|(a, v)| allows(a, v)) {
            continue;
        }
        for ((n, p), vs) in x.record.as_ref().unwrap() {
            let w = Wire::new(*n, OutgoingPort::from(*p));
            let Some(a) = res.read_out_wire(w) else {
                crate::ensure!(!seen.contains(n), "no result for wire {n} port {p}\n {d}");
                continue;
            };
            cov.step(vs.len() as u64);
            for v in vs {
                crate::ensure!(allows(&a, v), "wire {n} ({}) port {p} carries {v:?} but the analysis says {a:?}\n given {given:?} run on {ins:?}\n {d}\n{}", h.get_optype(*n), canon(h));
                if let Some(k) = lower(&a) {
                    // the concrete reading agrees as well
                    if !matches!(k, V::Func(_)) {
                        cov.count("wires with exactly known values", 1);
                    }
                    if let Ok(c) = res.try_read_wire_concrete::<ValueC>(w) {
                        crate::ensure_eq!(c.0, *v, "concrete reading of wire {n} port {p}\n {d}\n");
                    }
                }
            }
        }
        for r in &x.regions {
            if !seen.contains(r) {
                continue;
            }
            match h.get_optype(*r) {
                OpType::Case(_) => crate::ensure_eq!(res.case_reachable(*r), Some(true), "case {r} was executed\n given {given:?} run on {ins:?}\n {d}\n"),
                OpType::DataflowBlock(_) | OpType::ExitBlock(_) => crate::ensure_eq!(res.bb_reachable(*r), Some(true), "block {r} was executed\n given {given:?} run on {ins:?}\n {d}\n"),
                _ => {}
            }
        }
        for (l, (cont, brk)) in &x.loops {
            if !seen.contains(l) {
                continue;
            }
            let t = res.tail_loop_terminates(*l);
            let ok = match t {
                Some(TailLoopTermination::NeverBreaks) => !brk,
                Some(TailLoopTermination::NeverContinues) => !cont,
                Some(TailLoopTermination::BreaksAndContinues) => true,
                None => false,
            };
            crate::ensure!(ok, "loop {l} is said to be {t:?}, but continued: {cont}, broke: {brk}\n given {given:?} run on {ins:?}\n {d}");
            cov.outcome(&format!("loop {t:?}"));
        }
        cov.trace();
    }
    for n in h.nodes() {
        let t = h.get_optype(n);
        let inside = seen.contains(&n);
        crate::ensure_eq!(res.tail_loop_terminates(n).is_some(), t.is_tail_loop() && inside, "tail_loop_terminates of a {t}\n {d}\n");
    }
    Ok(())
}
impl AsConcrete<AV, Node> for ValueC {
    type ValErr = std::fmt::Error;
    type SumErr = std::fmt::Error;
    fn from_value(v: AV) -> Result<Self, std::fmt::Error> {
        Ok(ValueC(v.0))
    }
    fn from_sum(s: Sum<Self>) -> Result<Self, std::fmt::Error> {
        Ok(ValueC(V::Sum(s.tag, s.values.into_iter().map(|x| x.0).collect())))
    }
    fn from_func(f: LoadedFunction<Node>) -> Result<Self, LoadedFunction<Node>> {
        Err(f)
    }
}
struct ValueC(V);

// ---- lattice ----
fn leq(a: &PV, b: &PV) -> bool {
    match (a, b) {
        (PV::Bottom, _) | (_, PV::Top) => true,
        (PV::Value(x), PV::Value(y)) => x == y,
        (PV::LoadedFunction(x), PV::LoadedFunction(y)) => x == y,
        (PV::PartialSum(x), PV::PartialSum(y)) => x.0.iter().all(|(t, r)| y.0.get(t).is_some_and(|s| r.len() == s.len() && r.iter().zip(s).all(|(a, b)| leq(a, b)))),
        _ => false,
    }
}
/// All abstract values of a type: a leaf, a function, or a sum of rows.
#[derive(Clone)]
enum T {
    Val(u64),
    Fun,
    Sum(Vec<Vec<T>>),
}
fn all(t: &T) -> Vec<PV> {
    let mut v = vec![PV::Bottom];
    match t {
        T::Val(k) => v.extend((0..*k).map(|x| PV::Value(AV(V::Usize(x))))),
        T::Fun => {
            let n = |k| Node::from(portgraph::NodeIndex::new(k));
            v.push(PV::new_load(n(1), vec![]));
            v.push(PV::new_load(n(2), vec![1u64.into()]));
            v.push(PV::new_load(n(2), vec![2u64.into()]));
        }
        T::Sum(rows) => {
            // per tag: absent, or any row
            let per: Vec<Vec<Option<Vec<PV>>>> = rows
                .iter()
                .map(|r| {
                    let mut acc: Vec<Vec<PV>> = vec![vec![]];
                    for t in r {
                        let d = all(t);
                        acc = acc.into_iter().flat_map(|p| d.iter().map(move |x| [p.clone(), vec![x.clone()]].concat())).collect();
                    }
                    std::iter::once(None).chain(acc.into_iter().map(Some)).collect()
                })
                .collect();
            let mut acc: Vec<Vec<Option<Vec<PV>>>> = vec![vec![]];
            for p in per {
                acc = acc.into_iter().flat_map(|a| p.iter().map(move |x| [a.clone(), vec![x.clone()]].concat())).collect();
            }
            for a in acc {
                let m: HashMap<usize, Vec<PV>> = a.into_iter().enumerate().filter_map(|(k, r)| Some((k, r?))).collect();
                if !m.is_empty() {
                    v.push(PV::PartialSum(PartialSum(m)));
                }
            }
        }
    }
    v.push(PV::Top);
    v
}
fn join(a: &PV, b: &PV) -> Result<PV, Fail> {
    let mut x = a.clone();
    let c = match guard(|| x.join_mut(b.clone())) {
        Ok(c) => c,
        Err(e) => return bad(format!("join of {a:?} and {b:?} panics: {e}")),
    };
    crate::ensure_eq!(c, x != *a, "join of {a:?} and {b:?} reports a change");
    crate::ensure_eq!(a.clone().join(b.clone()), x, "join and join_mut of {a:?} and {b:?}");
    Ok(x)
}
fn meet(a: &PV, b: &PV) -> Result<PV, Fail> {
    let mut x = a.clone();
    let c = match guard(|| x.meet_mut(b.clone())) {
        Ok(c) => c,
        Err(e) => return bad(format!("meet of {a:?} and {b:?} panics: {e}")),
    };
    crate::ensure_eq!(c, x != *a, "meet of {a:?} and {b:?} reports a change");
    Ok(x)
}

pub fn run(r: &mut Runner) {
    r.assume("the client interprets leaf operations soundly (it uses the reference semantics, or knows nothing)");
    let types: Vec<(&str, T)> = vec![
        ("leaf", T::Val(2)),
        ("function", T::Fun),
        ("bool", T::Sum(vec![vec![], vec![]])),
        ("three tags", T::Sum(vec![vec![], vec![], vec![]])),
        ("option", T::Sum(vec![vec![], vec![T::Val(2)]])),
        ("either", T::Sum(vec![vec![T::Val(1)], vec![T::Val(2)]])),
        ("pair", T::Sum(vec![vec![T::Val(1), T::Val(2)]])),
        ("option of function", T::Sum(vec![vec![], vec![T::Fun]])),
        ("nested", T::Sum(vec![vec![], vec![T::Sum(vec![vec![], vec![T::Val(1)]])]])),
    ];
    r.family("lattice-pairs", "every pair of abstract values of nine types: commutativity, idempotence, absorption, order, bounds, change flags", 30.0, |c, cov| {
        let (n, t) = c.pick(&types).clone();
        let vs = all(&t);
        let a = c.pick(&vs).clone();
        let b = c.pick(&vs).clone();
        cov.describe(|| format!("{n}: {a:?} and {b:?}"));
        cov.state((n, format!("{a:?}{b:?}")));
        cov.step(12);
        cov.trace();
        let (j, m) = (join(&a, &b)?, meet(&a, &b)?);
        crate::ensure_eq!(j, join(&b, &a)?, "join of {a:?} and {b:?} is not commutative");
        crate::ensure_eq!(m, meet(&b, &a)?, "meet of {a:?} and {b:?} is not commutative");
        crate::ensure!(leq(&a, &j) && leq(&b, &j), "join of {a:?} and {b:?} is {j:?}, not above both");
        crate::ensure!(leq(&m, &a) && leq(&m, &b), "meet of {a:?} and {b:?} is {m:?}, not below both");
        for x in &vs {
            if leq(&a, x) && leq(&b, x) {
                crate::ensure!(leq(&j, x), "join of {a:?} and {b:?} is {j:?}, but {x:?} is above both and not above it");
            }
            if leq(x, &a) && leq(x, &b) {
                crate::ensure!(leq(x, &m), "meet of {a:?} and {b:?} is {m:?}, but {x:?} is below both and not below it");
            }
        }
        crate::ensure_eq!(join(&a, &m)?, a, "absorption of {a:?} and {b:?}");
        crate::ensure_eq!(meet(&a, &j)?, a, "absorption of {a:?} and {b:?}");
        crate::ensure_eq!(join(&a, &a)?, a, "idempotence");
        crate::ensure_eq!(meet(&a, &a)?, a, "idempotence");
        crate::ensure_eq!(join(&a, &PV::bottom())?, a, "bottom");
        crate::ensure_eq!(meet(&a, &PV::top())?, a, "top");
        let want = match (leq(&a, &b), leq(&b, &a)) {
            (true, true) => Some(Ordering::Equal),
            (true, false) => Some(Ordering::Less),
            (false, true) => Some(Ordering::Greater),
            _ => None,
        };
        crate::ensure_eq!(a.partial_cmp(&b), want, "order of {a:?} and {b:?}");
        Ok(())
    });
    let small = &types[..r.b(8, 9)];
    r.family("lattice-triples", "every triple of abstract values of these types: associativity", r.b(20.0, 200.0), |c, cov| {
        let (n, t) = c.pick(small).clone();
        let vs = all(&t);
        let a = c.pick(&vs).clone();
        let b = c.pick(&vs).clone();
        for x in &vs {
            cov.step(4);
            crate::ensure_eq!(join(&join(&a, &b)?, x)?, join(&a, &join(&b, x)?)?, "{n}: join of {a:?}, {b:?}, {x:?} is not associative");
            crate::ensure_eq!(meet(&meet(&a, &b)?, x)?, meet(&a, &meet(&b, x)?)?, "{n}: meet of {a:?}, {b:?}, {x:?} is not associative");
        }
        cov.state((n, format!("{a:?}{b:?}")));
        cov.trace();
        Ok(())
    });
    let deep = !r.quick();
    for f in standard(deep) {
        let Fam { name, bound, g } = f;
        r.family(name, &format!("{bound}; analysed knowing nothing, constants, or all operations, with unknown, partly known and fully known inputs, against every execution"), r.b(20.0, 300.0), move |c, cov| {
            let (mut h, main, d) = gen_valid(c, &g, cov)?;
            cov.state(canon(&h));
            let runs: Vec<(Vec<V>, Ctx)> = inputs(&g.ins)
                .into_iter()
                .map(|i| {
                    let mut x = Ctx { fuel: FUEL, record: Some(Default::default()), ..Default::default() };
                    let _ = Interp::new(&h, &mut x).node_region(main, i.clone());
                    (i, x)
                })
                .collect();
            // the inputs supplied to the analysis
            let mut given: Vec<Vec<PV>> = vec![vec![PV::Top; g.ins.len()]];
            for (i, _) in &runs {
                given.push(i.iter().map(lift).collect());
            }
            let mut both: Vec<PV> = runs[0].0.iter().map(lift).collect();
            for (i, _) in &runs {
                for (a, v) in both.iter_mut().zip(i) {
                    a.join_mut(lift(v));
                }
            }
            given.push(both);
            let root = h.module_root();
            for gv in &given {
                for k in [Know::Everything, Know::Constants, Know::Nothing] {
                    check(&h, main, gv, k, &runs, root, &d, cov)?;
                }
            }
            // restricted to a region
            let spots: Vec<Node> = h.descendants(main).filter(|n| *n == main || h.get_optype(*n).is_dfg() || h.get_optype(*n).is_cfg() || h.get_optype(*n).is_tail_loop() || h.get_optype(*n).is_conditional()).collect();
            for s in spots.into_iter().take(3) {
                h.set_entrypoint(s);
                check(&h, main, &given[0], Know::Everything, &runs, s, &d, cov)?;
            }
            Ok(())
        });
    }
}
