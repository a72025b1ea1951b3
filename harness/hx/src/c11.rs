//! C11: restructuring of control flow preserves the sequence of block effects and the
//! results, for every choice of branch outcomes.
use crate::explore::*;
use crate::interp::{Ctx, Interp, Stop, find_fn, inputs};
use crate::prog::*;
use crate::sem::V;
use crate::{ensure, ensure_eq};
use hugr_core::extension::prelude::{Noop, bool_t, qb_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::Patch;
use hugr_core::hugr::patch::outline_cfg::OutlineCfg;
use hugr_core::ops::{self, OpType, Value};
use hugr_core::types::{Signature, SumType, Type, TypeRow};
use hugr_core::{Hugr, HugrView, Node, Visibility};
use hugr_passes::ComposablePass;
use hugr_passes::nest_cfgs::{CfgNodeMap, EdgeClassifier, IdentityCfgMap, region_blocks, transform_all_cfgs, transform_cfg_to_nested};
use hugr_passes::normalize_cfgs::{NormalizeCFGPass, NormalizeCFGResult, merge_basic_blocks, normalize_cfg};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// ---------------------------------------------------------------- abstract graphs
#[derive(Clone, Debug)]
struct Graph {
    /// successors, as a set in order; the last node is the exit
    succ: Vec<Vec<usize>>,
}
impl CfgNodeMap<usize> for Graph {
    fn entry_node(&self) -> usize {
        0
    }
    fn exit_node(&self) -> usize {
        self.succ.len() - 1
    }
    fn successors(&self, n: usize) -> impl Iterator<Item = usize> {
        self.succ[n].iter().copied()
    }
    fn predecessors(&self, n: usize) -> impl Iterator<Item = usize> {
        (0..self.succ.len()).flat_map(move |m| self.succ[m].iter().filter(move |s| **s == n).map(move |_| m))
    }
}
type Edge = (usize, usize);
impl Graph {
    fn edges(&self) -> BTreeSet<Edge> {
        (0..self.succ.len()).flat_map(|n| self.succ[n].iter().map(move |s| (n, *s))).collect()
    }
    /// Nodes reachable from `from` in the graph closed by the edge exit -> entry, without
    /// the edge `cut`.
    fn reach(edges: &BTreeSet<Edge>, from: usize, cut: Option<Edge>) -> BTreeSet<usize> {
        let mut seen = BTreeSet::from([from]);
        let mut st = vec![from];
        while let Some(n) = st.pop() {
            for e in edges.range((n, 0)..=(n, usize::MAX)) {
                if Some(*e) != cut && seen.insert(e.1) {
                    st.push(e.1);
                }
            }
        }
        seen
    }
    /// The edges between nodes on a path from the entry to the exit, by class of cycle
    /// equivalence (two edges are equivalent if every cycle through one goes through the other).
    fn classes(&self) -> BTreeMap<Edge, BTreeSet<Edge>> {
        let all = self.edges();
        let x = self.exit_node();
        let from_entry = Self::reach(&all, 0, None);
        let live: BTreeSet<usize> = (0..self.succ.len()).filter(|n| from_entry.contains(n) && Self::reach(&all, *n, None).contains(&x)).collect();
        let real: BTreeSet<Edge> = all.into_iter().filter(|(a, z)| live.contains(a) && live.contains(z)).collect();
        let mut closed = real.clone();
        closed.insert((x, 0));
        // is there a cycle through `a` avoiding `z`?
        let avoids = |a: Edge, z: Edge| Self::reach(&closed, a.1, Some(z)).contains(&a.0);
        real.iter().map(|a| (*a, real.iter().filter(|z| *z == a || !(avoids(*a, **z) || avoids(**z, *a))).copied().collect())).collect()
    }
}
fn abstract_graphs(r: &mut Runner) {
    for (n, deg, cap) in [(3, 3, 5.0), (4, 4, 10.0), (5, 5, 40.0), (6, 2, 40.0)] {
        if r.quick() && n == 6 {
            continue;
        }
        let bound = format!("every graph of {n} nodes (entry and exit among them), up to {deg} distinct successors each, those without a path to the exit included: classes of edges against cycle equivalence computed from its definition; blocks of each region");
        r.family(&format!("classes-{n}"), &bound, r.b(cap, 10.0 * cap), move |c, cov| {
            let sets: Vec<Vec<usize>> = (1u32..1 << n).filter(|m| m.count_ones() as usize <= deg).map(|m| (0..n).filter(|k| m >> k & 1 == 1).collect()).collect();
            let mut succ = vec![];
            for _ in 0..n - 1 {
                succ.push(c.pick(&sets).clone());
            }
            succ.push(vec![]);
            let g = Graph { succ };
            cov.describe(|| format!("{g:?}"));
            let all = g.edges();
            let from = Graph::reach(&all, 0, None);
            // every node but the exit is reachable
            if !(0..n - 1).all(|k| from.contains(&k)) {
                return Err(Fail::Skip);
            }
            cov.state(format!("{g:?}"));
            let want = g.classes();
            let got = match guard(|| EdgeClassifier::get_edge_classes(&g)) {
                Ok(x) => x,
                Err(e) => return bad(format!("get_edge_classes panics: {e}\n {g:?}")),
            };
            let got_keys: BTreeSet<Edge> = got.keys().copied().collect();
            let want_keys: BTreeSet<Edge> = want.keys().copied().collect();
            ensure_eq!(want_keys, got_keys, "classified edges of {g:?}");
            for (e, w) in &want {
                let same: BTreeSet<Edge> = got.iter().filter(|(_, c)| **c == got[e]).map(|(e, _)| *e).collect();
                ensure!(*w == same, "edges equivalent to {e:?} in {g:?}: expected {w:?}, got {same:?}");
                cov.step(1);
            }
            // regions between edges that dominate and postdominate one another
            for (a, w) in &want {
                for z in w {
                    // `a` comes first: the target of `a`, not the source, reaches `z` without passing `a`...
                    if a == z || Graph::reach(&all, 0, Some(*a)).contains(&z.0) {
                        continue;
                    }
                    let blocks = Graph::reach(&all, a.1, Some(*z));
                    cov.count("regions", 1);
                    match guard(|| region_blocks(&g, *a, *z)) {
                        Ok(Ok(b)) => {
                            let b: BTreeSet<usize> = b.into_iter().collect();
                            ensure!(b == blocks, "region {a:?}..{z:?} of {g:?}: expected {blocks:?}, got {b:?}");
                        }
                        x => return bad(format!("region {a:?}..{z:?} of {g:?}: {x:?}")),
                    }
                }
            }
            cov.trace();
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- programs
#[derive(Clone, Copy, PartialEq, Debug)]
enum Others {
    None,
    B,
    Q,
}
#[derive(Clone, Debug)]
struct Spec {
    shape: Shape,
    /// bools carried by the sum row into each block, and into the exit
    rows: Vec<usize>,
    exit_row: usize,
    others: Others,
    /// (user block, defining block, define at Input instead of an operation)
    dom: Option<(usize, usize, bool)>,
    /// a block reading a value from outside the graph
    ext: Option<usize>,
    /// effects before and after, ordered by order edges
    around: bool,
    /// explicit order edges within blocks
    ord: bool,
    /// a nested control-flow graph in some block
    inner: Option<(usize, Shape)>,
    /// `Const` children and function-level ones
    consts: bool,
}
struct Built {
    h: Hugr,
    cfg: Node,
    blocks: Vec<Node>,
    exit: Node,
    spec: String,
}
fn dominates(s: &Shape, d: usize, k: usize) -> bool {
    if d == k {
        return true;
    }
    let mut seen = vec![false; s.len()];
    let mut st = if d == 0 { vec![] } else { vec![0] };
    while let Some(x) = st.pop() {
        if x == EXIT || x == d || seen[x] {
            continue;
        }
        seen[x] = true;
        st.extend(&s[x]);
    }
    !seen[k]
}
fn bs(n: usize) -> Vec<Type> {
    vec![bool_t(); n]
}
impl Spec {
    fn row(&self, k: usize) -> usize {
        if k == EXIT { self.exit_row } else { self.rows[k] }
    }
    fn other(&self) -> Vec<Type> {
        match self.others {
            Others::None => vec![],
            Others::B => bs(1),
            Others::Q => vec![qb_t()],
        }
    }
    fn ins(&self, k: usize) -> Vec<Type> {
        [bs(self.row(k)), self.other()].concat()
    }
    fn build(&self) -> Built {
        let mut h = Hugr::new();
        let q = self.others == Others::Q;
        let ins: Vec<Type> = if q { vec![bool_t(), qb_t()] } else { bs(1) };
        let cfg_out = self.ins(EXIT);
        let mut outs = bs(1);
        outs.extend(cfg_out.iter().cloned());
        let (f, i, o) = func(&mut h, "main", Signature::new(ins, outs.clone()), Visibility::Public);
        let pre = add(&mut h, f, mark(100));
        h.connect(i, 0, pre, 0);
        let cfg = add(&mut h, f, ops::CFG { signature: Signature::new(self.ins(0), cfg_out.clone()) });
        for k in 0..self.row(0) + (self.others == Others::B) as usize {
            h.connect(i, 0, cfg, k);
        }
        if q {
            h.connect(i, 1, cfg, self.row(0));
        }
        let post = add(&mut h, f, if self.around { mark(200) } else { logic("Not") });
        // a second use of the first result
        let first_b = cfg_out.iter().position(|t| *t == bool_t());
        match first_b {
            Some(k) => h.connect(cfg, k, post, 0),
            None => h.connect(pre, 0, post, 0),
        }
        h.connect(post, 0, o, 0);
        for k in 0..cfg_out.len() {
            h.connect(cfg, k, o, k + 1);
        }
        if self.around {
            order(&mut h, pre, cfg);
            order(&mut h, cfg, post);
        } else {
            h.disconnect(pre, hugr_core::IncomingPort::from(0));
            for (n, p) in h.linked_inputs(pre, hugr_core::OutgoingPort::from(0)).collect::<Vec<_>>() {
                h.disconnect(n, p);
                h.connect(i, 0, n, p);
            }
            h.remove_node(pre);
        }
        let outer = if self.around { (pre, 0) } else { (i, 0) };
        let (blocks, exit) = self.blocks(&mut h, cfg, outer);
        Built { h, cfg, blocks, exit, spec: format!("{self:?}") }
    }
    fn blocks(&self, h: &mut Hugr, cfg: Node, outer: W) -> (Vec<Node>, Node) {
        let mut blocks = vec![];
        let mut ex = None;
        for (k, succ) in self.shape.iter().enumerate() {
            let sum_rows: Vec<TypeRow> = succ.iter().map(|s| bs(self.row(*s)).into()).collect();
            blocks.push(add(h, cfg, ops::DataflowBlock { inputs: self.ins(k).into(), other_outputs: self.other().into(), sum_rows }));
            if k == 0 {
                ex = Some(add(h, cfg, ops::ExitBlock { cfg_outputs: self.ins(EXIT).into() }));
            }
        }
        let mut ios = vec![];
        let mut defs: Vec<W> = vec![];
        let mut inner_cfg = None;
        for (k, succ) in self.shape.iter().enumerate() {
            let bk = blocks[k];
            let t: Type = SumType::new(succ.iter().map(|s| bs(self.row(*s)))).into();
            let io = region_io(h, bk, self.ins(k), [vec![t.clone()], self.other()].concat());
            ios.push(io);
            let has_b = self.row(k) > 0 || self.others == Others::B;
            // the value the block works on
            let v: W = if has_b { (io.0, 0) } else { load(h, if self.consts { h.module_root() } else { bk }, bk, Value::true_val()) };
            let v = match self.ext {
                Some(e) if e == k => {
                    let a = add(h, bk, logic("And"));
                    wire(h, v, a, 0);
                    wire(h, outer, a, 1);
                    (a, 0)
                }
                _ => v,
            };
            let v = match &self.inner {
                Some((e, sh)) if *e == k => {
                    let c = add(h, bk, ops::CFG { signature: pbool() });
                    wire(h, v, c, 0);
                    inner_cfg = Some(c);
                    let inner = Spec { shape: sh.clone(), rows: vec![0; sh.len()], exit_row: 0, others: Others::B, dom: None, ext: None, around: false, ord: self.ord, inner: None, consts: false };
                    inner.blocks(h, c, outer);
                    (c, 0)
                }
                _ => v,
            };
            // not yet wired: the value from a dominating block
            let a = match self.dom {
                Some((u, _, _)) if u == k => {
                    let a = add(h, bk, logic("Xor"));
                    wire(h, v, a, 0);
                    Some(a)
                }
                _ => None,
            };
            let v = a.map_or(v, |a| (a, 0));
            let m = add(h, bk, mark(k as u64));
            wire(h, v, m, 0);
            let n = add(h, bk, logic("Not"));
            wire(h, (m, 0), n, 0);
            defs.push(if self.dom.is_some_and(|d| d.1 == k && d.2 && has_b) { (io.0, 0) } else { (m, 0) });
            let s = add(h, bk, sel(t));
            wire(h, (n, 0), s, 0);
            wire(h, (s, 0), io.1, 0);
            match self.others {
                Others::None => {}
                Others::B => wire(h, (m, 0), io.1, 1),
                Others::Q => {
                    let g = add(h, bk, test_op("q0"));
                    wire(h, (io.0, self.row(k)), g, 0);
                    wire(h, (g, 0), io.1, 1);
                }
            }
            if self.ord || self.others != Others::B {
                order(h, m, io.1);
                order(h, io.0, m);
                order(h, s, io.1);
            }
        }
        // the first block of the nested graph reads it too
        if let (Some((u, d, _)), Some(c)) = (self.dom, inner_cfg) {
            if h.get_parent(c) == Some(blocks[u]) {
                let ib = h.children(c).next().unwrap();
                let m = h.children(ib).find(|n| h.get_optype(*n).as_extension_op().is_some_and(|e| e.def().name() == "mark")).unwrap();
                let (src, sp) = h.single_linked_output(m, 0).unwrap();
                h.disconnect(m, hugr_core::IncomingPort::from(0));
                let x = add(h, ib, logic("And"));
                h.connect(src, sp, x, 0);
                h.connect(defs[d].0, defs[d].1, x, 1);
                h.connect(x, 0, m, 0);
            }
        }
        if let Some((u, d, _)) = self.dom {
            let a = h.children(blocks[u]).find(|n| h.get_optype(*n).as_extension_op().is_some_and(|e| e.def().name() == "Xor")).unwrap();
            h.connect(defs[d].0, defs[d].1, a, 1);
        }
        for (k, succ) in self.shape.iter().enumerate() {
            for (j, s) in succ.iter().enumerate() {
                h.connect(blocks[k], j, if *s == EXIT { ex.unwrap() } else { blocks[*s] }, 0);
            }
        }
        (blocks, ex.unwrap())
    }
}

/// One execution: inputs, choices made, end, events.
#[derive(Clone, Debug)]
struct Path {
    ins: Vec<V>,
    tape: Vec<usize>,
    out: Result<Vec<V>, Stop>,
    events: Vec<String>,
    unordered: bool,
}
fn exec(h: &Hugr, f: Node, ins: &[V], tape: &[usize], fuel: u64) -> Path {
    let mut x = Ctx { fuel, strict: true, tape: tape.to_vec(), ..Default::default() };
    let out = Interp::new(h, &mut x).node_region(f, ins.to_vec());
    Path { ins: ins.to_vec(), tape: tape.to_vec(), out, events: x.trace.remove(&'m').unwrap_or_default(), unordered: x.unordered }
}
const FUEL: u64 = 300;
/// All executions of up to `len` choices.
fn paths(h: &Hugr, len: usize) -> Vec<Path> {
    let f = find_fn(h, "main").unwrap();
    let sig = h.get_optype(f).as_func_defn().unwrap().signature().body().input().clone();
    let mut v = vec![];
    for i in inputs(&sig.iter().cloned().collect::<Vec<_>>()) {
        let mut todo = vec![vec![]];
        while let Some(t) = todo.pop() {
            let p = exec(h, f, &i, &t, FUEL);
            if let Err(Stop::Tape(n)) = p.out {
                if t.len() < len {
                    for k in 0..n {
                        let mut t = t.clone();
                        t.push(k);
                        todo.push(t);
                    }
                    continue;
                }
            }
            v.push(p);
        }
    }
    v
}
/// `h` behaves as the recorded executions.
fn agrees(what: &str, before: &[Path], h: &Hugr, spec: &str) -> Res {
    match guard(|| h.validate()) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return bad(format!("{what}: result is invalid: {e}\n {spec}\n{}", canon(h))),
        Err(e) => return bad(format!("{what}: validation of the result panics: {e}\n {spec}")),
    }
    let Some(f) = find_fn(h, "main") else { return bad(format!("{what}: main disappeared\n {spec}")) };
    for p in before {
        let z = exec(h, f, &p.ins, &p.tape, 10 * FUEL);
        let same = match (&p.out, &z.out) {
            (Err(Stop::Fuel), Err(Stop::Fuel)) => {
                let n = p.events.len().min(z.events.len());
                p.events[..n] == z.events[..n]
            }
            (a, b) => a == b && p.events == z.events,
        };
        ensure!(same, "{what}: on inputs {:?} and branches {:?}: before {:?} {:?}, after {:?} {:?}\n {spec}\n{}", p.ins, p.tape, p.out, p.events, z.out, z.events, canon(h));
        ensure!(!z.unordered || p.unordered, "{what}: effects are no longer ordered\n {spec}\n{}", canon(h));
    }
    Ok(())
}
/// A pair of blocks of the control-flow graph that could be merged.
fn mergeable(h: &Hugr, cfg: Node) -> Option<(Node, Node)> {
    let ch: Vec<Node> = h.children(cfg).collect();
    for b in &ch {
        let s: Vec<Node> = h.output_neighbours(*b).collect();
        if let [s] = s[..] {
            if s != ch[0] && s != ch[1] && h.input_neighbours(s).count() == 1 {
                return Some((*b, s));
            }
        }
    }
    None
}
fn nblocks(h: &Hugr, cfg: Node) -> usize {
    h.children(cfg).count() - 1
}
fn apply<T>(what: &str, spec: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match guard(f) {
        Ok(x) => Ok(x),
        Err(e) => bad(format!("{what}: panics: {e}\n {spec}")),
    }
}
fn check_result(h: &Hugr, g: &Hugr, cfg: Node, r: &NormalizeCFGResult, what: &str, spec: &str) -> Res {
    let Some(parent) = g.get_parent(cfg) else { return bad(format!("{what}: lost the node\n {spec}")) };
    match r {
        NormalizeCFGResult::CFGToDFG => ensure!(g.get_optype(cfg).is_dfg(), "{what}: reported CFGToDFG\n {spec}"),
        NormalizeCFGResult::CFGPreserved { entry_nodes_moved, exit_dfg, num_merged } => {
            ensure!(g.get_optype(cfg).is_cfg(), "{what}: reported CFGPreserved\n {spec}");
            for n in entry_nodes_moved {
                ensure!(g.contains_node(*n) && g.get_parent(*n) == Some(parent), "{what}: node {n} is reported as moved\n {spec}");
            }
            if let Some(d) = exit_dfg {
                ensure!(g.contains_node(*d) && g.get_parent(*d) == Some(parent) && g.get_optype(*d).is_dfg(), "{what}: exit_dfg {d}\n {spec}");
            }
            let lost = nblocks(h, cfg) - nblocks(g, cfg);
            ensure_eq!(num_merged + (!entry_nodes_moved.is_empty()) as usize + exit_dfg.is_some() as usize, lost, "{what}: blocks merged and moved, and blocks gone\n {spec}");
            ensure!(mergeable(g, cfg).is_none(), "{what}: blocks {:?} could still be merged\n {spec}\n{}", mergeable(g, cfg), canon(g));
        }
    }
    Ok(())
}
/// The original blocks below each control-flow graph that a transformation made.
fn nested(h: &Hugr, g: &Hugr) -> Vec<(Node, BTreeSet<Node>)> {
    g.nodes().filter(|n| g.get_optype(*n).is_cfg() && !h.contains_node(*n)).map(|n| (n, g.descendants(n).filter(|b| h.contains_node(*b) && h.get_optype(*b).is_dataflow_block()).collect())).collect()
}
/// Every region made by nesting has one entry edge and one exit edge in the original.
fn sese(h: &Hugr, g: &Hugr, what: &str, spec: &str) -> Res {
    for (n, r) in nested(h, g) {
        let cfg = r.iter().filter_map(|b| h.get_parent(*b)).min_by_key(|c| std::iter::successors(Some(*c), |c| h.get_parent(*c)).count());
        let Some(cfg) = cfg else { return bad(format!("{what}: made a control-flow graph {n} without blocks\n {spec}")) };
        let sib: Vec<Node> = h.children(cfg).collect();
        let (mut inn, mut out) = (BTreeSet::new(), BTreeSet::new());
        for b in &sib {
            for s in h.output_neighbours(*b) {
                match (r.contains(b), r.contains(&s)) {
                    (false, true) => {
                        inn.insert((*b, s));
                    }
                    (true, false) => {
                        out.insert((*b, s));
                    }
                    _ => {}
                }
            }
        }
        ensure!(inn.len() == 1 && out.len() == 1 && !r.contains(&sib[0]), "{what}: the region {r:?} has entry edges {inn:?} and exit edges {out:?}\n {spec}");
    }
    Ok(())
}
fn transforms(bt: &Built, len: usize, cov: &mut Cov) -> Res {
    let Built { h, cfg, spec, .. } = bt;
    let cfg = *cfg;
    let before = paths(h, len);
    cov.count("executions", before.len() as u64);
    for p in &before {
        cov.outcome(match &p.out {
            Ok(_) => "value",
            Err(Stop::Tape(_)) => "cut",
            Err(Stop::Fuel) => "divergence",
            e => return bad(format!("HARNESS: {e:?}\n {spec}\n{}", canon(h))),
        });
    }
    let w = "merge_basic_blocks";
    let mut g = h.clone();
    let n = apply(w, spec, || merge_basic_blocks(&mut g.with_entrypoint_mut(cfg)))?;
    let Ok(n) = n else { return bad(format!("{w}: {n:?}\n {spec}")) };
    ensure_eq!(n, nblocks(h, cfg) - nblocks(&g, cfg), "{w}: blocks reported as merged, and gone\n {spec}");
    ensure!(mergeable(&g, cfg).is_none(), "{w}: blocks {:?} could still be merged\n {spec}", mergeable(&g, cfg));
    agrees(w, &before, &g, spec)?;

    let w = "normalize_cfg";
    let mut g = h.clone();
    let r = apply(w, spec, || normalize_cfg(&mut g.with_entrypoint_mut(cfg)))?;
    let Ok(r) = r else { return bad(format!("{w}: {r:?}\n {spec}")) };
    check_result(h, &g, cfg, &r, w, spec)?;
    agrees(w, &before, &g, spec)?;
    ensure_eq!(h.entrypoint(), g.entrypoint(), "{w}: entrypoint");

    let w = "NormalizeCFGPass";
    let mut g = h.clone();
    let r = apply(w, spec, || NormalizeCFGPass::default().run(&mut g))?;
    let Ok(r) = r else { return bad(format!("{w}: {r:?}\n {spec}")) };
    ensure!(r.contains_key(&cfg), "{w}: no result for {cfg}\n {spec}");
    ensure_eq!(r.len(), h.nodes().filter(|n| h.get_optype(*n).is_cfg()).count(), "{w}: results\n {spec}");
    for n in g.nodes().filter(|n| g.get_optype(*n).is_cfg()) {
        ensure!(mergeable(&g, n).is_none(), "{w}: blocks {:?} could still be merged\n {spec}", mergeable(&g, n));
    }
    agrees(w, &before, &g, spec)?;
    let normal = g;

    let w = "transform_cfg_to_nested";
    let mut g = h.clone();
    apply(w, spec, || transform_cfg_to_nested(&mut IdentityCfgMap::new(g.with_entrypoint_mut(cfg))))?;
    sese(h, &g, w, spec)?;
    agrees(w, &before, &g, spec)?;
    cov.count("regions nested", nested(h, &g).len() as u64);

    let w = "transform_all_cfgs";
    let mut g = h.clone();
    apply(w, spec, || transform_all_cfgs(&mut g))?;
    sese(h, &g, w, spec)?;
    agrees(w, &before, &g, spec)?;

    let w = "nesting, then normalising";
    let r = apply(w, spec, || NormalizeCFGPass::default().run(&mut g))?;
    let Ok(_) = r else { return bad(format!("{w}: {r:?}\n {spec}")) };
    agrees(w, &before, &g, spec)?;

    let w = "normalising, then nesting";
    let mut g = normal;
    apply(w, spec, || transform_all_cfgs(&mut g))?;
    agrees(w, &before, &g, spec)?;
    cov.step(7);
    Ok(())
}
/// Outlining of every set of blocks.
fn outline(bt: &Built, len: usize, cov: &mut Cov) -> Res {
    let Built { h, cfg, blocks, exit, spec } = bt;
    let before = paths(h, len);
    let all: Vec<Node> = blocks.iter().copied().chain([*exit]).collect();
    for m in 1u32..1 << all.len() {
        let set: BTreeSet<Node> = all.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, n)| *n).collect();
        let w = format!("outlining {set:?}");
        // the rule
        let entries = set.iter().filter(|b| **b == blocks[0] || h.input_neighbours(**b).any(|p| !set.contains(&p))).count();
        let exits: Vec<(Node, Node)> = set.iter().flat_map(|b| h.output_neighbours(*b).map(move |s| (*b, s))).filter(|(_, s)| !set.contains(s)).collect();
        let block_of = |n: Node| std::iter::successors(Some(n), |n| h.get_parent(*n)).find(|n| h.get_parent(*n) == Some(*cfg));
        let escapes = set.iter().flat_map(|b| h.children(*b)).any(|n| h.output_neighbours(n).any(|t| block_of(t).is_some_and(|b| !set.contains(&b))));
        let ok = !set.contains(exit) && entries == 1 && exits.len() == 1 && !escapes;
        let mut g = h.clone();
        let r = apply(&w, spec, || OutlineCfg::new(set.iter().copied()).apply(&mut g))?;
        cov.outcome(if r.is_ok() { "outlined" } else { "refused" });
        match r {
            Ok([nb, nc]) => {
                ensure!(ok, "{w}: accepted, with {entries} entries and exits {exits:?}\n {spec}");
                ensure!(g.get_parent(nb) == Some(*cfg) && g.get_parent(nc) == Some(nb), "{w}: result {nb} {nc}\n {spec}");
                let inside: BTreeSet<Node> = g.children(nc).filter(|b| g.get_optype(*b).is_dataflow_block()).collect();
                ensure_eq!(set, inside, "{w}: blocks inside\n {spec}");
                agrees(&w, &before, &g, spec)?;
            }
            Err(e) => {
                ensure!(!ok, "{w}: refused: {e}\n {spec}");
                ensure!(g == *h && canon(&g) == canon(h), "{w}: refused ({e}), but changed the HUGR\n {spec}");
            }
        }
        cov.step(1);
    }
    Ok(())
}

fn base(shape: Shape) -> Spec {
    let n = shape.len();
    Spec { shape, rows: vec![0; n], exit_row: 0, others: Others::B, dom: None, ext: None, around: true, ord: false, inner: None, consts: false }
}
/// Graphs of `n` blocks, up to renaming of all blocks but the entry.
fn canonical(n: usize, to_exit: bool) -> Vec<Shape> {
    let all = shapes(n, to_exit);
    if n < 4 {
        return all;
    }
    // blocks numbered in breadth-first order
    all.into_iter()
        .filter(|s| {
            let mut next = 1;
            for k in 0..n {
                if k >= next {
                    return false;
                }
                for t in &s[k] {
                    if *t != EXIT && *t >= next {
                        if *t != next {
                            return false;
                        }
                        next += 1;
                    }
                }
            }
            true
        })
        .collect()
}
/// Graphs with a block of three successors.
fn three_way(n: usize) -> Vec<Shape> {
    let tg: Vec<usize> = (0..n).chain([EXIT]).collect();
    let mut v = vec![];
    for s in canonical(n, false) {
        for k in 0..n {
            if s[k].len() == 2 {
                for t in &tg {
                    let mut s = s.clone();
                    s[k].push(*t);
                    v.push(s);
                }
            }
        }
    }
    v
}

pub fn run(r: &mut Runner) {
    r.assume("blocks carry bools and a qubit; every block is reachable from the entry");
    r.assume("branches are decided by an operation with an effect, whose outcomes are enumerated: every sequence of up to the stated number of choices");
    abstract_graphs(r);
    let all3: Vec<Shape> = (1..=3).flat_map(|n| canonical(n, false)).collect();
    let all2: Vec<Shape> = (1..=2).flat_map(|n| canonical(n, false)).collect();
    let four = canonical(4, false);
    let five: Vec<Shape> = vec![];
    let len = r.b(4, 6);
    let deep = !r.quick();

    let s = all3.clone();
    r.family("shapes", &format!("every control-flow graph of up to three blocks with up to two successors each ({} graphs), parallel edges, self-loops and infinite loops included; rows of values, a value or a qubit besides, order edges; every sequence of {len} branches", s.len()), r.b(40.0, 300.0), move |c, cov| {
        let sh = c.pick(&s).clone();
        let n = sh.len();
        let mut sp = base(sh);
        sp.others = *c.pick(&[Others::B, Others::None, Others::Q]);
        match c.choose(3) {
            0 => {}
            1 => {
                sp.rows = vec![1; n];
                sp.exit_row = 1;
            }
            _ => {
                let k = c.choose(3);
                sp.rows = (0..n).map(|j| (j + k) % 3).collect();
                sp.exit_row = c.choose(3);
            }
        }
        sp.ord = c.flag();
        sp.around = c.flag();
        let bt = sp.build();
        cov.describe(|| format!("{sp:?}"));
        cov.state(canon(&bt.h));
        valid(&bt)?;
        transforms(&bt, len, cov)?;
        cov.trace();
        Ok(())
    });
    let s = sel_deep(deep, &all3, &four);
    r.family("nonlocal", "as shapes; some block reads a value of a block that dominates it (of its Input or of an operation), another one outside the graph", r.b(50.0, 400.0), move |c, cov| {
        let sh = c.pick(&s).clone();
        let n = sh.len();
        let mut sp = base(sh);
        sp.others = *c.pick(&[Others::B, Others::None]);
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|u| (0..n).map(move |d| (u, d))).filter(|(u, d)| u != d && dominates(&sp.shape, *d, *u)).collect();
        let k = c.choose(1 + pairs.len());
        if k > 0 {
            let (u, d) = pairs[k - 1];
            sp.dom = Some((u, d, c.flag()));
        }
        if k == 0 || c.flag() {
            sp.ext = Some(c.choose(n));
        }
        sp.rows = vec![c.choose(2); n];
        sp.consts = c.flag();
        let bt = sp.build();
        cov.describe(|| format!("{sp:?}"));
        cov.state(canon(&bt.h));
        valid(&bt)?;
        transforms(&bt, len, cov)?;
        cov.trace();
        Ok(())
    });
    let s: Vec<Shape> = if deep { four } else { four.into_iter().step_by(3).collect() };
    r.family("four", &format!("control-flow graphs of four blocks with up to two successors each, up to renaming ({} graphs: every third in the quick tier, all in the thorough one); every sequence of {len} branches", s.len()), r.b(40.0, 300.0), move |c, cov| {
        let sp = base(c.pick(&s).clone());
        let bt = sp.build();
        cov.describe(|| format!("{sp:?}"));
        cov.state(canon(&bt.h));
        valid(&bt)?;
        transforms(&bt, len, cov)?;
        cov.trace();
        Ok(())
    });
    let _ = five;
    let s = [three_way(1), three_way(2), if deep { three_way(3) } else { vec![] }].concat();
    r.family("three-way", &format!("control-flow graphs with a block of three successors ({} graphs)", s.len()), r.b(30.0, 200.0), move |c, cov| {
        let mut sp = base(c.pick(&s).clone());
        sp.rows = vec![c.choose(2); sp.shape.len()];
        let bt = sp.build();
        cov.describe(|| format!("{sp:?}"));
        cov.state(canon(&bt.h));
        valid(&bt)?;
        transforms(&bt, 4, cov)?;
        outline(&bt, 4, cov)?;
        cov.trace();
        Ok(())
    });
    let (s, t) = (all2.clone(), if deep { all2.clone() } else { all2.iter().filter(|s| s.len() == 1).cloned().chain([vec![vec![1, EXIT], vec![0]], vec![vec![1], vec![0, EXIT]], vec![vec![1], vec![EXIT]]]).collect() });
    r.family("inner", "a control-flow graph of up to two blocks within each block of one of up to two, reading values of the enclosing and of dominating blocks", r.b(40.0, 200.0), move |c, cov| {
        let mut sp = base(c.pick(&s).clone());
        let k = c.choose(sp.shape.len());
        sp.inner = Some((k, c.pick(&t).clone()));
        if k > 0 {
            let d = c.choose(3);
            if d > 0 {
                sp.dom = Some((k, 0, d == 1));
            }
        }
        sp.ord = c.flag();
        let bt = sp.build();
        cov.describe(|| format!("{sp:?}"));
        cov.state(canon(&bt.h));
        valid(&bt)?;
        transforms(&bt, len, cov)?;
        cov.trace();
        Ok(())
    });
    let s = all3;
    r.family("outline", "every set of blocks (and the exit) of every control-flow graph of up to three blocks, with and without values read by other blocks", r.b(40.0, 300.0), move |c, cov| {
        let mut sp = base(c.pick(&s).clone());
        let n = sp.shape.len();
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|u| (0..n).map(move |d| (u, d))).filter(|(u, d)| u != d && dominates(&sp.shape, *d, *u)).collect();
        let k = c.choose(1 + pairs.len());
        if k > 0 {
            sp.dom = Some((pairs[k - 1].0, pairs[k - 1].1, false));
        } else {
            let k = c.choose(3);
            sp.rows = (0..n).map(|j| (j + k) % 3).collect();
            sp.exit_row = k;
        }
        let bt = sp.build();
        cov.describe(|| format!("{sp:?}"));
        cov.state(canon(&bt.h));
        valid(&bt)?;
        outline(&bt, 4, cov)?;
        cov.trace();
        Ok(())
    });
    let _ = (Noop::new(bool_t()), HashMap::<u8, u8>::new(), HashSet::<u8>::new(), OpType::from(ops::Module::new()));
}
fn sel_deep(deep: bool, a: &[Shape], z: &[Shape]) -> Vec<Shape> {
    if deep { [a, z].concat() } else { a.to_vec() }
}
fn valid(bt: &Built) -> Res {
    match bt.h.validate() {
        Ok(()) => Ok(()),
        Err(e) => bad(format!("HARNESS: generated program is invalid: {e}\n {}\n{}", bt.spec, canon(&bt.h))),
    }
}
