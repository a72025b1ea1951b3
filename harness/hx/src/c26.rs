//! C26: passes establish what they advertise, and running them again changes nothing.
use crate::explore::*;
use crate::families::*;
use crate::interp::find_fn;
use crate::prog::*;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::{OpTag, OpTrait, OpType, Value};
use hugr_core::types::EdgeKind;
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, NodeIndex, OutgoingPort};
use hugr_passes::const_fold::{ConstantFoldPass, constant_fold_pass};
use hugr_passes::inline_dfgs::InlineDFGsPass;
use hugr_passes::dead_code::PreserveNode;
use hugr_passes::non_local::{LocalizeEdges, ensure_no_nonlocal_edges, nonlocal_edges};
use hugr_passes::{ComposablePass, DeadCodeElimPass, RemoveDeadFuncsPass, force_order, inline_acyclic};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

type Twice = fn(&str, &Hugr, &str, &dyn Fn(&mut Hugr) -> Result<(), String>) -> Result<Hugr, Fail>;
fn once(what: &str, h: &Hugr, d: &str, p: &dyn Fn(&mut Hugr) -> Result<(), String>) -> Result<Hugr, Fail> {
    let mut g = h.clone();
    match guard(|| p(&mut g)) {
        Ok(Ok(())) => Ok(g),
        x => bad(format!("{what}: fails: {x:?}\n {d}")),
    }
}
fn twice(what: &str, h: &Hugr, d: &str, p: &dyn Fn(&mut Hugr) -> Result<(), String>) -> Result<Hugr, Fail> {
    let g = once(what, h, d, p)?;
    let mut g2 = g.clone();
    match guard(|| p(&mut g2)) {
        Ok(Ok(())) => {}
        x => return bad(format!("{what}: fails on its own result: {x:?}\n {d}")),
    }
    if g2 != g && canon(&g2) != canon(&g) {
        return bad(format!("{what}: running it again changes something\n {d}\n first:\n{}\n second:\n{}", canon(&g), canon(&g2)));
    }
    Ok(g)
}
fn below(h: &Hugr, top: Node) -> Vec<Node> {
    let mut v = vec![top];
    let mut i = 0;
    while i < v.len() {
        let n = v[i];
        v.extend(h.children(n));
        i += 1;
    }
    v
}
fn ancestors(h: &Hugr, n: Node) -> Vec<Node> {
    std::iter::successors(Some(n), |n| h.get_parent(*n)).collect()
}

// ---- forced order ----
fn can_order(h: &Hugr, n: Node) -> bool {
    h.get_optype(n).other_port_kind(Direction::Incoming) == Some(EdgeKind::StateOrder)
}
fn succs_in(h: &Hugr, n: Node, set: &HashSet<Node>) -> Vec<Node> {
    h.node_outputs(n).flat_map(|p| h.linked_inputs(n, p).map(|x| x.0).collect::<Vec<_>>()).filter(|m| set.contains(m)).collect()
}
fn check_ordered(h0: &Hugr, h: &Hugr, rank: &dyn Fn(Node) -> i64, d: &str, cov: &mut Cov) -> Res {
    for p in below(h, h.module_root()) {
        if !(h.get_optype(p).tag() <= OpTag::DataflowParent) {
            continue;
        }
        let [inp, out] = h.get_io(p).unwrap();
        let kids: Vec<Node> = h.children(p).collect();
        let old: Vec<Node> = h0.children(p).collect();
        crate::ensure_eq!(kids, old, "force order: the children of {p} changed\n {d}\n");
        let all: HashSet<Node> = kids.iter().copied().collect();
        let inner: Vec<Node> = kids.iter().copied().filter(|n| *n != inp && *n != out && can_order(h, *n)).collect();
        // the order is total: each node reaches exactly the later ones
        let reach: BTreeMap<Node, HashSet<Node>> = inner
            .iter()
            .map(|n| {
                let mut seen = HashSet::new();
                let mut st = vec![*n];
                while let Some(m) = st.pop() {
                    for k in succs_in(h, m, &all) {
                        if seen.insert(k) {
                            st.push(k);
                        }
                    }
                }
                (*n, seen)
            })
            .collect();
        let mut seq = inner.clone();
        seq.sort_by_key(|n| std::cmp::Reverse(inner.iter().filter(|m| reach[n].contains(m)).count()));
        for (k, n) in seq.iter().enumerate() {
            for m in &seq[k + 1..] {
                crate::ensure!(reach[n].contains(m), "force order: {n} and {m} are not ordered\n {d}\n{}", canon(h));
            }
            crate::ensure!(reach[n].contains(&out), "force order: {n} is not before the Output\n {d}\n{}", canon(h));
        }
        // existing edges survive, and at most one order edge per gap was added
        let mut added = 0;
        for n in &kids {
            let s0: Vec<Node> = succs_in(h0, *n, &all);
            let s1: Vec<Node> = succs_in(h, *n, &all);
            for x in &s0 {
                crate::ensure!(s1.contains(x), "force order: lost an edge {n} to {x}\n {d}");
            }
            added += s1.len() - s0.len();
        }
        crate::ensure!(added + 1 <= kids.len(), "force order: {added} edges added among {} children\n {d}", kids.len());
        // lowest rank first among the operations whose dependencies allow it
        let set: HashSet<Node> = all.iter().copied().filter(|n| *n != inp && *n != out).collect();
        let mut done: HashSet<Node> = set.iter().copied().filter(|n| !can_order(h0, *n)).collect();
        for n in &seq {
            let free = |m: &Node| set.iter().all(|x| done.contains(x) || !succs_in(h0, *x, &set).contains(m));
            crate::ensure!(free(n), "force order: {n} comes before something it depends on\n {d}");
            for m in &seq {
                if !done.contains(m) && free(m) {
                    crate::ensure!(rank(*n) <= rank(*m), "force order: {n} (rank {}) is placed before {m} (rank {})\n {d}\n{}", rank(*n), rank(*m), canon(h));
                }
            }
            done.insert(*n);
        }
        cov.count("regions ordered", 1);
    }
    Ok(())
}

// ---- dead code ----
/// The nodes that demand reaches: reference definition.
fn demanded(h: &Hugr, roots: &[Node], keep: &dyn Fn(Node) -> PreserveNode) -> BTreeSet<Node> {
    fn must(h: &Hugr, keep: &dyn Fn(Node) -> PreserveNode, n: Node) -> bool {
        match keep(n) {
            PreserveNode::MustKeep => true,
            PreserveNode::CanRemoveIgnoringChildren => false,
            PreserveNode::DeferToChildren => h.children(n).any(|c| must(h, keep, c)),
        }
    }
    let mut need: BTreeSet<Node> = roots.iter().copied().collect();
    need.insert(h.entrypoint());
    loop {
        let mut new = BTreeSet::new();
        for n in &need {
            for c in h.children(*n) {
                use OpType::*;
                if matches!(h.get_optype(c), Case(_) | DataflowBlock(_) | ExitBlock(_) | AliasDecl(_) | AliasDefn(_) | Input(_) | Output(_)) || must(h, keep, c) {
                    new.insert(c);
                }
            }
            for p in h.node_inputs(*n) {
                new.extend(h.linked_outputs(*n, p).map(|x| x.0));
            }
            for (p, t) in h.out_value_types(*n) {
                if !t.copyable() {
                    new.extend(h.linked_inputs(*n, p).map(|x| x.0));
                }
            }
        }
        let k = need.len();
        need.extend(new);
        if need.len() == k {
            return need;
        }
    }
}
fn check_dce(h: &Hugr, roots: &[Node], mode: usize, d: &str) -> Res {
    let keep = move |h: &Hugr, n: Node| match mode {
        0 => match h.get_optype(n) {
            OpType::CFG(_) | OpType::TailLoop(_) | OpType::Call(_) => PreserveNode::MustKeep,
            _ => PreserveNode::DeferToChildren,
        },
        1 => PreserveNode::CanRemoveIgnoringChildren,
        2 => match h.get_optype(n) {
            OpType::ExtensionOp(_) => PreserveNode::MustKeep,
            OpType::Conditional(_) => PreserveNode::CanRemoveIgnoringChildren,
            _ => PreserveNode::DeferToChildren,
        },
        _ => PreserveNode::MustKeep,
    };
    let r = roots.to_vec();
    let g = twice(&format!("dead code elimination (mode {mode})"), h, d, &move |h| {
        let mut p = DeadCodeElimPass::default().with_entry_points(r.clone());
        if mode != 0 {
            p = p.set_preserve_callback(Arc::new(keep));
        }
        p.run(h).map_err(|e| e.to_string())
    })?;
    let need = demanded(h, roots, &|n| keep(h, n));
    let scope: BTreeSet<Node> = below(h, h.entrypoint()).into_iter().collect();
    for n in below(h, h.module_root()) {
        // a node goes with its parent
        let gone = ancestors(h, n).iter().any(|a| scope.contains(a) && !need.contains(a));
        crate::ensure_eq!(g.contains_node(n), !gone, "dead code elimination (mode {mode}): {n} ({}) remains / should remain\n {d}\n", h.get_optype(n));
        if !gone {
            crate::ensure_eq!(g.get_optype(n), h.get_optype(n), "dead code elimination changed {n}\n {d}\n");
        }
    }
    Ok(())
}

// ---- functions ----
fn callees(h: &Hugr, top: Node) -> BTreeSet<Node> {
    below(h, top)
        .into_iter()
        .filter_map(|n| {
            let p = h.get_optype(n).static_input_port()?;
            let (f, _) = h.single_linked_output(n, p)?;
            matches!(h.get_optype(f), OpType::FuncDefn(_) | OpType::FuncDecl(_)).then_some(f)
        })
        .collect()
}
fn reachable(h: &Hugr, roots: &[Node]) -> BTreeSet<Node> {
    let mut r: BTreeSet<Node> = roots.iter().copied().collect();
    loop {
        let more: BTreeSet<Node> = r.iter().flat_map(|n| callees(h, *n)).collect();
        let k = r.len();
        r.extend(more);
        if r.len() == k {
            return r;
        }
    }
}
fn check_dead_funcs(h: &Hugr, roots: &[Node], d: &str) -> Res {
    let r = roots.to_vec();
    let g = twice("remove dead functions", h, d, &move |h| {
        RemoveDeadFuncsPass::default().with_module_entry_points(r.clone()).run(h).map_err(|e| e.to_string())
    })?;
    let mut rs = roots.to_vec();
    if h.entrypoint() != h.module_root() {
        rs.push(h.entrypoint());
    }
    let live = reachable(h, &rs);
    let around = ancestors(h, h.entrypoint());
    for n in h.children(h.module_root()) {
        let is_fn = matches!(h.get_optype(n), OpType::FuncDefn(_) | OpType::FuncDecl(_));
        let stays = !is_fn || live.contains(&n) || around.contains(&n);
        crate::ensure_eq!(g.contains_node(n), stays, "remove dead functions: {n} ({}) remains / should remain with entry points {roots:?}\n {d}\n", h.get_optype(n));
        if stays {
            crate::ensure_eq!(below(h, n), below(&g, n), "remove dead functions: the inside of {n} changed\n {d}\n");
        }
    }
    Ok(())
}
fn cyclic(h: &Hugr) -> BTreeSet<Node> {
    h.children(h.module_root()).filter(|f| {
        let r: Vec<Node> = callees(h, *f).into_iter().collect();
        reachable(h, &r).contains(f)
    }).collect()
}

// ---- folding ----
fn const_of(h: &Hugr, n: Node, p: IncomingPort) -> Option<Value> {
    let (l, _) = h.single_linked_output(n, p)?;
    h.get_optype(l).as_load_constant()?;
    let (c, _) = h.single_linked_output(l, IncomingPort::from(0))?;
    Some(h.get_optype(c).as_const()?.value().clone())
}
fn check_folded(h: &Hugr, what: &str, d: &str, cov: &mut Cov) -> Res {
    for n in below(h, h.entrypoint()) {
        let OpType::ExtensionOp(e) = h.get_optype(n) else { continue };
        // only code that is certainly executed when its function is
        if ancestors(h, n)[1..].iter().any(|a| !matches!(h.get_optype(*a), OpType::DFG(_) | OpType::FuncDefn(_) | OpType::Module(_))) {
            continue;
        }
        let ins: Vec<(IncomingPort, Value)> = h.in_value_types(n).filter_map(|(p, _)| Some((p, const_of(h, n, p)?))).collect();
        for (p, v) in e.constant_fold(&ins).unwrap_or_default() {
            cov.count("folding opportunities checked", 1);
            crate::ensure!(
                h.linked_inputs(n, p).next().is_none(),
                "{what}: {} still feeds its output {p} although its inputs are known to give {v:?}\n {d}\n{}",
                e.def().name(),
                canon(h)
            );
        }
    }
    Ok(())
}
fn nonlocal(h: &Hugr, top: Node) -> Vec<(Node, IncomingPort)> {
    let inside: HashSet<Node> = below(h, top).into_iter().collect();
    let mut v = vec![];
    for n in below(h, top) {
        for p in h.node_inputs(n) {
            for (m, q) in h.linked_outputs(n, p) {
                if matches!(h.get_optype(m).port_kind(q), Some(EdgeKind::Value(_))) && h.get_parent(m) != h.get_parent(n) && h.get_parent(m).is_some_and(|x| inside.contains(&x)) {
                    v.push((n, p));
                }
            }
        }
    }
    v.sort();
    v
}

pub fn run(r: &mut Runner) {
    r.assume("force order: an order is right if each operation has the lowest rank among those whose predecessors are all placed (the documented pairwise rule cannot hold when a low-ranked operation depends on a high-ranked one)");
    let deep = !r.quick();
    for f in standard(deep) {
        let Fam { name, bound, g } = f;
        r.family(name, &format!("{bound}; each pass, its advertised result, and the pass again"), r.b(10.0, 300.0), move |c, cov| {
            let (h0, main, d) = gen_valid(c, &g, cov)?;
            // where the passes start
            let conts: Vec<Node> = below(&h0, main).into_iter().filter(|n| h0.get_optype(*n).is_dfg() || h0.get_optype(*n).is_cfg() || h0.get_optype(*n).is_tail_loop()).take(1).collect();
            let spots: Vec<Node> = [h0.module_root(), main].into_iter().chain(conts).collect();
            let mut h = h0;
            let e = *c.pick(&spots);
            h.set_entrypoint(e);
            cov.state((canon(&h), e.index()));
            let inside: HashSet<Node> = below(&h, e).into_iter().collect();

            // order
            for k in 0..3i64 {
                let base = h.clone();
                let rank = move |n: Node| {
                    if !can_order(&base, n) {
                        return i64::MIN;
                    }
                    let i = n.index() as i64;
                    [0, -i, (i * 7) % 5][k as usize]
                };
                let rank2 = rank.clone();
                let root = h.module_root();
                let g = twice("force order", &h, &d, &move |h| force_order(h, root, |_, n| rank2(n)).map_err(|e| e.to_string()))?;
                check_ordered(&h, &g, &rank, &d, cov)?;
                cov.trace();
            }
            // edges
            let before = nonlocal(&h, e);
            let mut listed: Vec<_> = nonlocal_edges(&h).collect();
            listed.sort();
            crate::ensure_eq!(listed, before, "nonlocal_edges\n {d}\n");
            crate::ensure_eq!(ensure_no_nonlocal_edges(&h).is_ok(), before.is_empty(), "ensure_no_nonlocal_edges\n {d}\n");
            let g2 = twice("localise edges", &h, &d, &|h| LocalizeEdges.run(h).map_err(|e| e.to_string()))?;
            let after = nonlocal(&g2, e);
            crate::ensure!(after.is_empty(), "localise edges: non-local edges {after:?} remain\n {d}\n{}", canon(&g2));
            crate::ensure!(!before.is_empty() || g2 == h, "localise edges changed a program without non-local edges\n {d}");
            cov.trace();
            // functions
            let fns: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
            check_dead_funcs(&h, &[main], &d)?;
            check_dead_funcs(&h, &[], &d)?;
            for f in &fns {
                check_dead_funcs(&h, &[*f], &d)?;
                cov.trace();
            }
            // dead code
            for mode in 0..4 {
                check_dce(&h, &[main], mode, &d)?;
                check_dce(&h, &[], mode, &d)?;
                cov.trace();
            }
            // inlining
            let g2 = twice("inline dataflow blocks", &h, &d, &|h| InlineDFGsPass.run(h).map_err(|e| e.to_string()))?;
            let left: Vec<Node> = below(&g2, e).into_iter().filter(|n| *n != e && g2.get_optype(*n).is_dfg()).collect();
            crate::ensure!(left.is_empty(), "inline dataflow blocks: {left:?} remain\n {d}");
            let cyc = cyclic(&h);
            let g2 = twice("inline functions", &h, &d, &|h| inline_acyclic(h, |_, _| true).map_err(|e| e.to_string()))?;
            for n in below(&g2, e) {
                if g2.get_optype(n).is_call() {
                    let f = g2.static_source(n).unwrap();
                    crate::ensure!(cyc.contains(&f) || !g2.get_optype(f).is_func_defn(), "inline functions: a call of {} remains\n {d}\n{}", g2.get_optype(f), canon(&g2));
                } else {
                    // calls inlined, and nothing else
                    crate::ensure!(!inside.contains(&n) || h.get_optype(n) == g2.get_optype(n) || h.get_optype(n).is_call(), "inline functions changed {n}\n {d}");
                }
            }
            let g2 = twice("inline no functions", &h, &d, &|h| inline_acyclic(h, |_, _| false).map_err(|e| e.to_string()))?;
            crate::ensure!(g2 == h, "inlining no call changed something\n {d}");
            cov.trace();
            // folding
            // (folding away a call may teach a second run more about the callee)
            let calls = h.children(h.module_root()).any(|f| !callees(&h, f).is_empty());
            let fold_twice: Twice = if calls { once } else { twice };
            let g2 = fold_twice("constant folding", &h, &d, &|h| {
                constant_fold_pass::<Hugr>(h);
                Ok(())
            })?;
            check_folded(&g2, "constant folding", &d, cov)?;
            let g2 = fold_twice("constant folding (main)", &h, &d, &move |h| {
                ConstantFoldPass::default().allow_increase_termination().with_inputs(main, Vec::<(IncomingPort, Value)>::new()).run(h).map_err(|e| e.to_string())
            })?;
            if e == main {
                check_folded(&g2, "constant folding (main)", &d, cov)?;
            }
            cov.trace();
            cov.step(30);
            let _ = (find_fn(&h, "main"), OutgoingPort::from(0));
            Ok(())
        });
    }
}
