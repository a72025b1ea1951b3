//! C14: sibling subgraphs are accepted exactly when convex, and replace faithfully.
use crate::explore::*;
use crate::families::*;
use crate::interp::inputs;
use crate::prog::*;
use crate::{ensure, ensure_eq};
use hugr_core::builder::{Container, FunctionBuilder};
use hugr_core::extension::prelude::Noop;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::PatchVerification;
use hugr_core::hugr::views::sibling_subgraph::{IncomingPorts, LineConvexChecker, OutgoingPorts, TopoConvexChecker, ValidationMode};
use hugr_core::hugr::views::{RootChecked, SiblingSubgraph};
use hugr_core::ops::handle::DataflowParentID;
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::types::{EdgeKind, Signature, Type};
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// The definition's answer for a set of nodes.
#[derive(Debug, PartialEq, Clone)]
struct Want {
    nodes: Vec<Node>,
    inputs: Vec<(Node, IncomingPort)>,
    outputs: Vec<(Node, OutgoingPort)>,
    calls: BTreeSet<BTreeSet<(Node, IncomingPort)>>,
}
fn dataflow_region(h: &Hugr, p: Node) -> bool {
    OpTag::DataflowParent.is_superset(h.get_optype(p).tag())
}
fn port_ty(h: &Hugr, n: Node, p: impl Into<hugr_core::Port>) -> Option<Type> {
    match h.get_optype(n).port_kind(p)? {
        EdgeKind::Value(t) => Some(t),
        _ => None,
    }
}
/// Nodes outside `s` from which a path leads into `s` and to which a path leads from `s`.
fn convex(h: &Hugr, parent: Node, s: &BTreeSet<Node>) -> bool {
    let sib = |n: &Node| h.get_parent(*n) == Some(parent);
    // nodes outside reachable from s
    let mut seen: BTreeSet<Node> = BTreeSet::new();
    let mut todo: Vec<Node> = s.iter().flat_map(|n| h.output_neighbours(*n)).filter(|n| sib(n) && !s.contains(n)).collect();
    while let Some(n) = todo.pop() {
        if !seen.insert(n) {
            continue;
        }
        for m in h.output_neighbours(n).filter(sib) {
            if s.contains(&m) {
                return false;
            }
            todo.push(m);
        }
    }
    true
}
fn want(h: &Hugr, nodes: &[Node]) -> Result<Want, &'static str> {
    let mut u: Vec<Node> = vec![];
    for n in nodes {
        if !u.contains(n) {
            u.push(*n);
        }
    }
    let Some(first) = u.first() else { return Err("empty") };
    let Some(parent) = h.get_parent(*first) else { return Err("root") };
    if u.iter().any(|n| h.get_parent(*n) != Some(parent)) {
        return Err("parents differ");
    }
    if !dataflow_region(h, parent) {
        return Err("not a dataflow region");
    }
    let s: BTreeSet<Node> = u.iter().copied().collect();
    if !convex(h, parent, &s) {
        return Err("not convex");
    }
    let mut w = Want { nodes: u.clone(), inputs: vec![], outputs: vec![], calls: BTreeSet::new() };
    let mut calls: BTreeMap<Node, BTreeSet<(Node, IncomingPort)>> = BTreeMap::new();
    for &n in &u {
        for p in h.node_inputs(n) {
            for (m, _) in h.linked_outputs(n, p) {
                if s.contains(&m) {
                    continue;
                }
                match h.get_optype(n).port_kind(p) {
                    Some(EdgeKind::Value(_)) => w.inputs.push((n, p)),
                    Some(EdgeKind::Function(_)) => {
                        calls.entry(m).or_default().insert((n, p));
                    }
                    _ => return Err("unsupported edge"),
                }
            }
        }
    }
    for &n in &u {
        for p in h.node_outputs(n) {
            if h.linked_inputs(n, p).any(|(m, _)| !s.contains(&m)) {
                if port_ty(h, n, p).is_none() {
                    return Err("unsupported edge");
                }
                w.outputs.push((n, p));
            }
        }
    }
    w.calls = calls.into_values().collect();
    Ok(w)
}
fn compare(what: &str, got: Result<SiblingSubgraph, String>, want: &Result<Want, &'static str>, h: &Hugr, d: &str) -> Result<Option<SiblingSubgraph>, Fail> {
    let (g, w) = match (got, want) {
        (Ok(g), Ok(w)) => (g, w),
        (Err(_), Err(_)) => return Ok(None),
        (Ok(g), Err(w)) => return bad(format!("{what}: accepted {:?}, but {w}\n {d}", g.nodes())),
        (Err(e), Ok(w)) => return bad(format!("{what}: rejects the convex set {:?}: {e}\n {d}", w.nodes)),
    };
    let a: BTreeSet<Node> = g.nodes().iter().copied().collect();
    ensure_eq!(a.len(), g.node_count(), "{what}: nodes repeated: {:?}\n {d}", g.nodes());
    ensure_eq!(a, w.nodes.iter().copied().collect::<BTreeSet<_>>(), "{what}: node set\n {d}");
    ensure_eq!(*g.incoming_ports(), w.inputs.iter().map(|x| vec![*x]).collect::<Vec<_>>(), "{what}: incoming boundary of {:?}\n {d}", w.nodes);
    ensure_eq!(*g.outgoing_ports(), w.outputs, "{what}: outgoing boundary of {:?}\n {d}", w.nodes);
    let calls: BTreeSet<BTreeSet<(Node, IncomingPort)>> = g.function_calls().iter().map(|v| v.iter().copied().collect()).collect();
    ensure_eq!(calls.len(), g.function_calls().len(), "{what}: call groups\n {d}");
    ensure_eq!(calls, w.calls, "{what}: function calls\n {d}");
    let sig = Signature::new(
        w.inputs.iter().map(|(n, p)| port_ty(h, *n, *p).unwrap()).collect::<Vec<_>>(),
        w.outputs.iter().map(|(n, p)| port_ty(h, *n, *p).unwrap()).collect::<Vec<_>>(),
    );
    ensure_eq!(g.signature(h), sig, "{what}: signature\n {d}");
    ensure_eq!(Some(g.get_parent(h)), h.get_parent(w.nodes[0]), "{what}: parent\n {d}");
    Ok(Some(g))
}
/// Every node is connected to a node of the boundary by links whose ports are not in the boundary
/// (other sets cannot be described by boundary ports).
fn boundary_connected(h: &Hugr, w: &Want) -> bool {
    let s: BTreeSet<Node> = w.nodes.iter().copied().collect();
    let mut seen: BTreeSet<Node> = BTreeSet::new();
    let mut todo: Vec<Node> = w.inputs.iter().map(|x| x.0).chain(w.outputs.iter().map(|x| x.0)).chain(w.calls.iter().flatten().map(|x| x.0)).collect();
    while let Some(n) = todo.pop() {
        if seen.insert(n) {
            for p in h.node_outputs(n).filter(|p| !w.outputs.contains(&(n, *p))) {
                todo.extend(h.linked_inputs(n, p).map(|x| x.0).filter(|m| s.contains(m)));
            }
            for p in h.node_inputs(n) {
                todo.extend(h.linked_outputs(n, p).filter(|x| !w.outputs.contains(x)).map(|x| x.0).filter(|m| s.contains(m)));
            }
        }
    }
    seen == s
}
fn e2s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
fn call<T>(what: &str, d: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).map_err(|e| Fail::Bad { key: String::new(), msg: format!("{what}: panics: {e}\n {d}") })
}

/// All constructors on one list of nodes of one region.
fn one_set<'a>(h: &'a Hugr, parent: Node, nodes: &[Node], topo: &TopoConvexChecker<'a, Hugr>, line: &LineConvexChecker<'a, Hugr>, d: &str) -> Result<Option<(Want, SiblingSubgraph)>, Fail> {
    let d = &format!("set {nodes:?} in {parent:?} of {d}");
    let w = want(h, nodes);
    let g1 = compare("try_from_nodes", call("try_from_nodes", d, || SiblingSubgraph::try_from_nodes(nodes.to_vec(), h))?.map_err(e2s), &w, h, d)?;
    compare("try_from_nodes_with_checker", call("try_from_nodes_with_checker", d, || SiblingSubgraph::try_from_nodes_with_checker(nodes.to_vec(), h, topo))?.map_err(e2s), &w, h, d)?;
    if !nodes.is_empty() && nodes.iter().all(|n| h.get_parent(*n) == Some(parent)) {
        // the nodes of intervals must be unique
        let unique: BTreeSet<Node> = nodes.iter().copied().collect();
        let joined = joined_orders(h, parent);
        let line_err = |e: Fail| match e {
            Fail::Bad { msg, .. } if joined => Fail::Bad { key: "line-checker:several-order-predecessors".into(), msg },
            e => e,
        };
        let got = call("line intervals", d, || match line.get_intervals_from_nodes(unique.iter().copied()) {
            None => Err("no intervals".to_string()),
            Some(i) => {
                let inside: BTreeSet<Node> = line.nodes_in_intervals(&i).collect();
                SiblingSubgraph::try_from_nodes_with_intervals(nodes.to_vec(), &i, line).map_err(e2s).map(|g| (g, inside))
            }
        })
        .map_err(line_err)?;
        let got = match got {
            Ok((g, inside)) => {
                // nodes without any edge lie on no line
                let s: BTreeSet<Node> = nodes.iter().copied().filter(|n| h.all_linked_inputs(*n).next().is_some() || h.all_linked_outputs(*n).next().is_some()).collect();
                let _ = (inside, s);
                Ok(g)
            }
            Err(e) => Err(e),
        };
        compare("try_from_nodes_with_intervals", got, &w, h, d).map_err(line_err)?;
    }
    let (Ok(w), Some(g)) = (w, g1) else { return Ok(None) };
    if boundary_connected(h, &w) {
        for (k, r) in [
            ("checking convexity", call("validate", d, || g.validate(h, ValidationMode::CheckConvexity))?),
            ("with a checker", call("validate", d, || g.validate(h, ValidationMode::WithChecker(topo)))?),
            ("skipping convexity", call("validate", d, || g.validate::<Hugr>(h, ValidationMode::SkipConvexity))?),
        ] {
            ensure!(r.is_ok(), "validate {k}: {r:?}\n {d}");
        }
        // the same set from its boundary, with ports of one source grouped and everything reversed
        if !(w.inputs.is_empty() && w.outputs.is_empty() && w.calls.is_empty()) {
            let mut by: Vec<((Node, OutgoingPort), Vec<(Node, IncomingPort)>)> = vec![];
            for &(n, p) in w.inputs.iter().chain(w.calls.iter().flatten()).rev() {
                let src = h.single_linked_output(n, p).unwrap();
                match by.iter_mut().find(|x| x.0 == src) {
                    Some(x) => x.1.push((n, p)),
                    None => by.push((src, vec![(n, p)])),
                }
            }
            let ins: IncomingPorts = by.into_iter().map(|x| x.1).collect();
            let outs: OutgoingPorts = w.outputs.iter().rev().copied().collect();
            let g2 = call("try_new", d, || SiblingSubgraph::try_new(ins.clone(), outs.clone(), h))?;
            let g2 = match g2 {
                Ok(g) => g,
                Err(e) => return bad(format!("try_new rejects the boundary {ins:?} {outs:?} of a convex set: {e}\n {d}")),
            };
            ensure_eq!(g2.nodes().iter().collect::<BTreeSet<_>>(), w.nodes.iter().collect::<BTreeSet<_>>(), "try_new: nodes between {ins:?} and {outs:?}\n {d}");
            let value_ins: IncomingPorts = ins.into_iter().filter(|v| port_ty(h, v[0].0, v[0].1).is_some()).collect();
            ensure_eq!(*g2.incoming_ports(), value_ins, "try_new: inputs\n {d}");
            ensure_eq!(*g2.outgoing_ports(), outs, "try_new: outputs\n {d}");
        }
    }
    Ok(Some((w, g)))
}
/// The region below `f` is the subgraph.
fn extracted_ok(h: &Hugr, w: &Want, ins: &IncomingPorts, outs: &OutgoingPorts, x: &Hugr, d: &str) -> Res {
    let f = x.entrypoint();
    let [xi, xo] = x.get_io(f).unwrap();
    // nodes are inserted in any order: match by walking the boundary and all links is not unique, so use
    // the multiset of operations and the multiset of links described by operation names
    let name = |h: &Hugr, n: Node| op_text(h.get_optype(n));
    let mut a: Vec<String> = w.nodes.iter().map(|n| name(h, *n)).collect();
    let mut z: Vec<String> = x.children(f).filter(|n| *n != xi && *n != xo).map(|n| name(x, n)).collect();
    a.sort();
    z.sort();
    ensure_eq!(a, z, "extract: operations\n {d}");
    let s: HashSet<Node> = w.nodes.iter().copied().collect();
    let mut a: Vec<String> = vec![];
    for n in &w.nodes {
        for p in h.node_outputs(*n) {
            for (m, q) in h.linked_inputs(*n, p) {
                if s.contains(&m) {
                    a.push(format!("{}.{p} -> {}.{q}", name(h, *n), name(h, m)));
                }
            }
        }
    }
    for (i, part) in ins.iter().enumerate() {
        for (n, p) in part {
            a.push(format!("in{i} -> {}.{p}", name(h, *n)));
        }
    }
    for (i, (n, p)) in outs.iter().enumerate() {
        a.push(format!("{}.{p} -> out{i}", name(h, *n)));
    }
    let mut z: Vec<String> = vec![];
    for n in x.children(f) {
        for p in x.node_outputs(n) {
            for (m, q) in x.linked_inputs(n, p) {
                if x.get_parent(m) != Some(f) {
                    continue;
                }
                let src = if n == xi { format!("in{}", p.index()) } else { format!("{}.{p}", name(x, n)) };
                let dst = if m == xo { format!("out{}", q.index()) } else { format!("{}.{q}", name(x, m)) };
                z.push(format!("{src} -> {dst}"));
            }
        }
    }
    a.sort();
    z.sort();
    ensure_eq!(a, z, "extract: links\n {d}");
    Ok(())
}
/// Is any value, constant or function used from inside a node of the set without appearing on the boundary?
/// Some node has several order predecessors.
fn joined_orders(h: &Hugr, parent: Node) -> bool {
    h.children(parent).any(|n| h.node_inputs(n).any(|p| h.linked_outputs(n, p).count() > 1))
}
fn closed(h: &Hugr, w: &Want) -> bool {
    let inside: HashSet<Node> = w.nodes.iter().flat_map(|n| h.descendants(*n)).collect();
    w.calls.is_empty()
        && w.nodes.iter().all(|n| h.descendants(*n).all(|m| m == *n || h.all_linked_outputs(m).all(|(x, _)| inside.contains(&x))))
        && w.outputs.iter().all(|(n, p)| h.linked_inputs(*n, *p).all(|(m, _)| !inside.contains(&m) || w.nodes.contains(&m)))
}

fn order_text(h: &Hugr) -> usize {
    h.num_nodes()
}

/// One program: all sets of siblings of all regions.
fn program(h: &Hugr, main: Node, ins_t: &[Type], cov: &mut Cov, d: &str, max: usize) -> Res {
    let ins = inputs(ins_t);
    let before = behaviours(h, main, &ins, false);
    let regions: Vec<Node> = h.nodes().filter(|n| h.children(*n).next().is_some()).collect();
    for &parent in &regions {
        let df = dataflow_region(h, parent);
        let all: Vec<Node> = h.children(parent).collect();
        let topo = TopoConvexChecker::new(h, parent);
        let line = LineConvexChecker::new(h, parent);
        if !df {
            // nothing in such a region is a dataflow subgraph
            for &n in &all {
                for &m in &all {
                    let set = if n == m { vec![n] } else { vec![n, m] };
                    for (k, r) in [
                        ("try_from_nodes", call("try_from_nodes", d, || SiblingSubgraph::try_from_nodes(set.clone(), h))?),
                        ("try_from_nodes_with_checker", call("try_from_nodes_with_checker", d, || SiblingSubgraph::try_from_nodes_with_checker(set.clone(), h, &topo))?),
                    ] {
                        ensure!(r.is_err(), "{k}: accepts {set:?} in {}\n {d}", op_text(h.get_optype(parent)));
                    }
                    cov.step(2);
                }
            }
            continue;
        }
        let [i, o] = h.get_io(parent).unwrap();
        let inner: Vec<Node> = all.iter().copied().filter(|n| *n != i && *n != o).collect();
        if inner.len() > max {
            cov.count("regions too large", 1);
            continue;
        }
        for bits in 0u32..1 << inner.len() {
            let mut nodes: Vec<Node> = (0..inner.len()).filter(|k| bits >> k & 1 == 1).map(|k| inner[k]).collect();
            let got = one_set(h, parent, &nodes, &topo, &line, d)?;
            cov.step(4);
            cov.outcome(if got.is_some() { "accepted" } else { "rejected" });
            if nodes.len() > 1 {
                nodes.reverse();
                one_set(h, parent, &nodes, &topo, &line, d)?;
            }
            if let Some(f) = nodes.first().copied() {
                nodes.push(f);
                one_set(h, parent, &nodes, &topo, &line, d)?;
                nodes.pop();
                // with the region's Input or Output, with a node of elsewhere
                for x in [i, o] {
                    nodes.push(x);
                    one_set(h, parent, &nodes, &topo, &line, d)?;
                    nodes.pop();
                }
                for x in [parent, h.module_root()].into_iter().chain(regions.iter().filter(|r| **r != parent).flat_map(|r| h.children(*r).last())) {
                    nodes.push(x);
                    one_set(h, parent, &nodes, &topo, &line, d)?;
                    nodes.rotate_right(1);
                    one_set(h, parent, &nodes, &topo, &line, d)?;
                    nodes.remove(0);
                }
                cov.step(8);
            }
            if let [n] = nodes[..] {
                let order = [Direction::Incoming, Direction::Outgoing].into_iter().any(|x| h.get_optype(n).other_port(x).is_some_and(|p| h.is_linked(n, p)));
                if !order && got.is_some() {
                    let g = call("from_node", d, || SiblingSubgraph::from_node(n, h))?;
                    let s = h.signature(n).unwrap();
                    ensure_eq!(g.nodes(), [n], "from_node: nodes\n {d}");
                    if h.node_inputs(n).all(|p| h.is_linked(n, p)) {
                        ensure_eq!(g.signature(h), *s, "from_node: signature\n {d}");
                    }
                }
            }
            let Some((w, g)) = got else { continue };
            cov.trace();
            // extraction
            let x = call("extract_subgraph", d, || g.extract_subgraph(h, "sub"))?;
            extracted_ok(h, &w, g.incoming_ports(), g.outgoing_ports(), &x, &format!("{:?} of {d}", w.nodes))?;
            if !closed(h, &w) {
                continue;
            }
            if let Err(e) = call("validate", d, || x.validate())? {
                return bad(format!("extract: result of {:?} is invalid: {e}\n {d}", w.nodes));
            }
            // replacement by a copy
            let r = call("create_simple_replacement", d, || g.create_simple_replacement(h, x.clone()))?;
            let r = match r {
                Ok(r) => r,
                Err(e) => return bad(format!("create_simple_replacement of {:?} with its copy: {e}\n {d}", w.nodes)),
            };
            let leaves = w.nodes.iter().all(|n| h.children(*n).next().is_none());
            ensure_eq!(call("verify", d, || r.verify(h))?.is_ok(), leaves, "verify the replacement of {:?}\n {d}", w.nodes);
            let mut z = h.clone();
            let res = call("apply", d, || z.apply_patch(r))?;
            ensure_eq!(res.is_ok(), leaves, "apply the replacement of {:?}\n {d}", w.nodes);
            if !leaves {
                ensure!(z == *h, "a failed replacement changed the graph\n {d}");
                continue;
            }
            ensure_eq!(order_text(&z), order_text(h), "replacing {:?} by its copy changes the number of nodes\n {d}", w.nodes);
            same_meaning(&format!("replace {:?} by its copy", w.nodes), &before, &z, &ins, false, d)?;
        }
        // the whole region
        let mut e = h.clone();
        e.set_entrypoint(parent);
        if let Ok(rc) = RootChecked::<&Hugr, DataflowParentID>::try_new(&e) {
            let got = call("try_new_dataflow_subgraph", d, || SiblingSubgraph::try_new_dataflow_subgraph::<Hugr, DataflowParentID>(rc))?;
            let w = want(h, &inner);
            match (got, w) {
                (Ok(g), Ok(w)) => {
                    ensure_eq!(g.nodes().iter().collect::<BTreeSet<_>>(), inner.iter().collect(), "try_new_dataflow_subgraph: nodes\n {d}");
                    // one input per used port of Input
                    let exp: IncomingPorts = h
                        .node_outputs(i)
                        .filter(|p| port_ty(h, i, *p).is_some())
                        .map(|p| h.linked_inputs(i, p).filter(|(n, _)| *n != o).collect::<Vec<_>>())
                        .filter(|v| !v.is_empty())
                        .collect();
                    ensure_eq!(*g.incoming_ports(), exp, "try_new_dataflow_subgraph: inputs\n {d}");
                    let exp: OutgoingPorts =
                        h.node_inputs(o).filter(|p| port_ty(h, o, *p).is_some()).filter_map(|p| h.single_linked_output(o, p)).filter(|(n, _)| *n != i && h.get_parent(*n) == Some(parent)).collect();
                    ensure_eq!(*g.outgoing_ports(), exp, "try_new_dataflow_subgraph: outputs\n {d}");
                    let calls: BTreeSet<BTreeSet<(Node, IncomingPort)>> = g.function_calls().iter().map(|v| v.iter().copied().collect()).collect();
                    ensure_eq!(calls, w.calls, "try_new_dataflow_subgraph: calls\n {d}");
                }
                (Err(_), Err(_)) => {}
                (Ok(_), Err(w)) => return bad(format!("try_new_dataflow_subgraph accepts a region: {w}\n {d}")),
                (Err(e), Ok(w)) => {
                    // values from outside the region are not inputs of the region
                    let nonlocal = w.inputs.iter().any(|(n, p)| h.single_linked_output(*n, *p).unwrap().0 != i) || w.outputs.iter().any(|(n, p)| h.linked_inputs(*n, *p).any(|(m, _)| m != o && !inner.contains(&m)));
                    ensure!(nonlocal, "try_new_dataflow_subgraph rejects {parent:?}: {e}\n {d}");
                }
            }
        }
    }
    Ok(())
}

/// A small circuit: bool and qubit operations wired every way, with optional order edges.
fn circuit(c: &mut Chooser, n: usize, ops: &[OpType], qubits: usize, orders: usize) -> Result<(Hugr, Node), Fail> {
    let mut ins = vec![b()];
    ins.extend(vec![q(); qubits]);
    let outs = ins.clone();
    let mut h = Hugr::default();
    let (f, i, o) = func(&mut h, "main", Signature::new(ins.clone(), outs.clone()), hugr_core::Visibility::Public);
    let mut bools: Vec<W> = vec![(i, 0)];
    let mut qs: Vec<W> = (0..qubits).map(|k| (i, k + 1)).collect();
    let mut made = vec![];
    for _ in 0..n {
        let k = c.choose(ops.len() + 1);
        if k == ops.len() {
            break;
        }
        let op = ops[k].clone();
        let s = op.dataflow_signature().unwrap().into_owned();
        let x = add(&mut h, f, op);
        for (p, t) in s.input().iter().enumerate() {
            if *t == b() {
                let w = bools[c.choose(bools.len())];
                wire(&mut h, w, x, p);
            } else {
                if qs.is_empty() {
                    return Err(Fail::Skip);
                }
                let w = qs.remove(c.choose(qs.len()));
                wire(&mut h, w, x, p);
            }
        }
        for (p, t) in s.output().iter().enumerate() {
            if *t == b() {
                bools.push((x, p));
            } else {
                qs.push((x, p));
            }
        }
        made.push(x);
    }
    // at most `orders` order edges between operations
    for _ in 0..orders {
        let mut pairs = vec![];
        for a in 0..made.len() {
            for z in a + 1..made.len() {
                pairs.push((made[a], made[z]));
            }
            pairs.push((i, made[a]));
            pairs.push((made[a], o));
        }
        let k = c.choose(pairs.len() + 1);
        if k == pairs.len() {
            break;
        }
        order(&mut h, pairs[k].0, pairs[k].1);
    }
    let w = bools[c.choose(bools.len())];
    wire(&mut h, w, o, 0);
    if qs.len() != qubits {
        return Err(Fail::Skip);
    }
    for k in 0..qubits {
        wire(&mut h, qs[k], o, k + 1);
    }
    if h.validate().is_err() {
        return Err(Fail::Skip);
    }
    Ok((h, f))
}
fn show(h: &Hugr) -> String {
    canon(h)
}

/// `try_new` against its definition, for a freely chosen boundary.
fn free_boundary(h: &Hugr, f: Node, ins: &IncomingPorts, outs: &OutgoingPorts, cov: &mut Cov) -> Res {
    let d = &format!("inputs {ins:?} outputs {outs:?} of\n{}", show(h));
    let got = call("try_new", d, || SiblingSubgraph::try_new(ins.clone(), outs.clone(), h))?;
    let bi: HashSet<(Node, IncomingPort)> = ins.iter().flatten().copied().collect();
    let bo: HashSet<(Node, OutgoingPort)> = outs.iter().copied().collect();
    // components of the graph without the boundary edges, of the boundary's own nodes
    let cut = |a: (Node, OutgoingPort), z: (Node, IncomingPort)| bi.contains(&z) || bo.contains(&a);
    let mut s: BTreeSet<Node> = BTreeSet::new();
    let mut todo: Vec<Node> = bi.iter().map(|x| x.0).chain(bo.iter().map(|x| x.0)).collect();
    while let Some(n) = todo.pop() {
        if !s.insert(n) {
            continue;
        }
        for p in h.node_outputs(n) {
            for z in h.linked_inputs(n, p) {
                if h.get_parent(z.0) == Some(f) && !cut((n, p), z) {
                    todo.push(z.0);
                }
            }
        }
        for p in h.node_inputs(n) {
            for a in h.linked_outputs(n, p) {
                if h.get_parent(a.0) == Some(f) && !cut(a, (n, p)) {
                    todo.push(a.0);
                }
            }
        }
    }
    let why = (|| -> Result<(), &'static str> {
        if s.is_empty() {
            return Err("empty");
        }
        if s.iter().any(|n| h.get_parent(*n) != Some(f)) {
            return Err("parents differ");
        }
        if ins.iter().flatten().count() != bi.len() {
            return Err("input repeated");
        }
        for p in ins {
            let Some(x) = p.first() else { return Err("empty part") };
            let Some(t) = port_ty(h, x.0, x.1) else { return Err("kind") };
            if p.iter().any(|y| h.single_linked_output(y.0, y.1) != h.single_linked_output(x.0, x.1)) {
                return Err("sources differ");
            }
            if p.len() > 1 && !t.copyable() {
                return Err("linear input copied");
            }
        }
        for (k, x) in outs.iter().enumerate() {
            let Some(t) = port_ty(h, x.0, x.1) else { return Err("kind") };
            if !t.copyable() && outs[k + 1..].contains(x) {
                return Err("linear output copied");
            }
        }
        // in the boundary exactly if crossing
        for &n in &s {
            for p in h.node_inputs(n) {
                let crossing = h.linked_outputs(n, p).any(|(m, _)| !s.contains(&m));
                if crossing != bi.contains(&(n, p)) {
                    return Err("incoming boundary is not the crossing edges");
                }
            }
            for p in h.node_outputs(n) {
                let crossing = h.linked_inputs(n, p).any(|(m, _)| !s.contains(&m));
                if crossing != bo.contains(&(n, p)) {
                    return Err("outgoing boundary is not the crossing edges");
                }
            }
        }
        if !convex(h, f, &s) {
            return Err("not convex");
        }
        Ok(())
    })();
    match (&got, why) {
        (Ok(g), Ok(())) => {
            ensure_eq!(g.nodes().iter().copied().collect::<BTreeSet<_>>(), s, "try_new: nodes\n {d}");
            cov.outcome("well-formed");
        }
        (Err(_), Err(e)) => cov.outcome(e),
        (Ok(g), Err(e)) => return bad(format!("try_new accepts {:?}, but {e}\n {d}", g.nodes())),
        (Err(e), Ok(())) => return bad(format!("try_new rejects {s:?}: {e}\n {d}")),
    }
    cov.trace();
    Ok(())
}

/// A replacement region for a signature: `n` operations, each output any available value of its type.
fn replacement(c: &mut Chooser, sig: &Signature, n: usize, dfg: bool) -> Result<Hugr, Fail> {
    let mut fb = FunctionBuilder::new("r", sig.clone()).map_err(|_| Fail::Skip)?;
    let mut h = std::mem::take(fb.hugr_mut());
    let mut f = h.entrypoint();
    let [mut i, mut o] = h.get_io(f).unwrap();
    if dfg {
        let mut db = hugr_core::builder::DFGBuilder::new(sig.clone()).map_err(|_| Fail::Skip)?;
        h = std::mem::take(db.hugr_mut());
        f = h.entrypoint();
        [i, o] = h.get_io(f).unwrap();
    }
    let mut pool: Vec<(W, Type)> = sig.input().iter().enumerate().map(|(k, t)| ((i, k), t.clone())).collect();
    let take = |c: &mut Chooser, pool: &mut Vec<(W, Type)>, t: &Type| -> Result<W, Fail> {
        let idx: Vec<usize> = (0..pool.len()).filter(|k| pool[*k].1 == *t).collect();
        if idx.is_empty() {
            return Err(Fail::Skip);
        }
        let k = idx[c.choose(idx.len())];
        let w = pool[k].0;
        if !t.copyable() {
            pool.remove(k);
        }
        Ok(w)
    };
    let ops: Vec<OpType> = vec![logic("Not"), logic("And"), Noop::new(q()).into(), test_op("opq")];
    for _ in 0..n {
        let k = c.choose(ops.len() + 2);
        if k == ops.len() {
            break;
        }
        if k == ops.len() + 1 {
            let w = load(&mut h, f, f, hugr_core::ops::Value::true_val());
            pool.push((w, b()));
            continue;
        }
        let s = ops[k].dataflow_signature().unwrap().into_owned();
        let x = add(&mut h, f, ops[k].clone());
        for (p, t) in s.input().iter().enumerate() {
            let w = take(c, &mut pool, t)?;
            wire(&mut h, w, x, p);
        }
        for (p, t) in s.output().iter().enumerate() {
            pool.push(((x, p), t.clone()));
        }
    }
    for (p, t) in sig.output().iter().enumerate() {
        let w = take(c, &mut pool, t)?;
        wire(&mut h, w, o, p);
    }
    if pool.iter().any(|x| !x.1.copyable()) {
        return Err(Fail::Skip);
    }
    Ok(h)
}
/// Links of the replaced graph, from the definition.
fn replaced(h: &Hugr, g: &SiblingSubgraph, r: &Hugr, map: &std::collections::HashMap<Node, Node>) -> BTreeSet<(Node, usize, Node, usize)> {
    let s: HashSet<Node> = g.nodes().iter().copied().collect();
    let [ri, ro] = r.get_io(r.entrypoint()).unwrap();
    let mut want = BTreeSet::new();
    for n in h.nodes() {
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) {
                if !s.contains(&n) && !s.contains(&m) {
                    want.insert((n, p.index(), m, q.index()));
                }
            }
        }
    }
    let host_in = |k: usize| {
        let (n, p) = g.incoming_ports()[k][0];
        let (a, x) = h.single_linked_output(n, p).unwrap();
        (a, x.index())
    };
    for n in r.descendants(r.entrypoint()).filter(|n| *n != r.entrypoint()) {
        for p in r.node_inputs(n) {
            let Some((a, x)) = r.single_linked_output(n, p) else { continue };
            let src = if a == ri { host_in(x.index()) } else { (map[&a], x.index()) };
            if n == ro {
                // goes to every consumer of the output outside the set; an output named twice is the same value
                let (on, op) = g.outgoing_ports()[p.index()];
                for (m, q) in h.linked_inputs(on, op).filter(|(m, _)| !s.contains(m)) {
                    want.insert((src.0, src.1, m, q.index()));
                }
            } else {
                want.insert((src.0, src.1, map[&n], p.index()));
            }
        }
    }
    want
}

pub fn run(r: &mut Runner) {
    r.assume("a subgraph all of whose components touch its boundary can also be described by that boundary; the others cannot, and only the node-set constructors are required to accept them");
    let deep = !r.quick();
    for f in standard(deep) {
        let Fam { name, bound, g } = f;
        if ["cfg", "loop-mix", "nest3"].contains(&name) && !deep {
            continue;
        }
        r.family(name, &format!("{bound}; every set of at most 6 siblings of every region, in both orders, with a repeated node, with Input or Output, with a node of elsewhere"), r.b(8.0, 120.0), move |c, cov| {
            let (h, main, d) = gen_valid(c, &g, cov)?;
            cov.state(canon(&h));
            program(&h, main, &g.ins, cov, &d, 6)
        });
    }
    let ops = vec![logic("Not"), logic("And"), Noop::new(q()).into()];
    let o2 = ops.clone();
    let n = r.b(4, 5) as usize;
    r.family("circuit", &format!("every circuit of at most {n} Not/And/qubit operations; every set of operations"), r.b(25.0, 300.0), move |c, cov| {
        let (h, f) = circuit(c, n, &o2, 1, 0)?;
        cov.describe(|| show(&h));
        cov.state(canon(&h));
        program(&h, f, &[b(), q()], cov, &show(&h), 8)
    });
    let o2 = ops.clone();
    r.family("order", "every circuit of at most 3 Not/And/qubit operations with at most 2 (deep: 3) order edges; every set of operations", r.b(20.0, 200.0), move |c, cov| {
        let (h, f) = circuit(c, if deep { 4 } else { 3 }, &o2, 1, if deep { 3 } else { 2 })?;
        cov.describe(|| show(&h));
        cov.state(canon(&h));
        program(&h, f, &[b(), q()], cov, &show(&h), 8)
    });
    let o2 = ops.clone();
    r.family("boundary", "every circuit of at most 3 (deep: 4) operations and at most one order edge; every choice of incoming and outgoing ports as boundary (inputs grouped by source or each alone, an output repeated)", r.b(25.0, 300.0), move |c, cov| {
        let (h, f) = circuit(c, if deep { 4 } else { 3 }, &o2, 1, 1)?;
        if !c.fresh() {
            // the choices below are part of the case
        }
        let [i, o] = h.get_io(f).unwrap();
        let inner: Vec<Node> = h.children(f).filter(|n| *n != i && *n != o).collect();
        let mut ins: Vec<(Node, IncomingPort)> = vec![];
        let mut outs: OutgoingPorts = vec![];
        for &n in &inner {
            for p in h.node_inputs(n).filter(|p| h.is_linked(n, *p)) {
                if c.flag() {
                    ins.push((n, p));
                }
            }
            for p in h.node_outputs(n).filter(|p| h.is_linked(n, *p)) {
                if c.flag() {
                    outs.push((n, p));
                }
            }
        }
        cov.describe(|| format!("{ins:?} {outs:?} of {}", show(&h)));
        cov.state((canon(&h), format!("{ins:?}{outs:?}")));
        let single: IncomingPorts = ins.iter().map(|x| vec![*x]).collect();
        free_boundary(&h, f, &single, &outs, cov)?;
        let mut by: BTreeMap<Option<(Node, OutgoingPort)>, Vec<(Node, IncomingPort)>> = BTreeMap::new();
        for x in &ins {
            by.entry(h.linked_outputs(x.0, x.1).next()).or_default().push(*x);
        }
        let grouped: IncomingPorts = by.into_values().collect();
        if grouped != single {
            free_boundary(&h, f, &grouped, &outs, cov)?;
        }
        if let Some(x) = outs.first().copied() {
            outs.push(x);
            free_boundary(&h, f, &grouped, &outs, cov)?;
            outs.pop();
        }
        if let Some(x) = ins.first().copied() {
            let mut t = grouped.clone();
            t.push(vec![x]);
            free_boundary(&h, f, &t, &outs, cov)?;
            let mut t = grouped.clone();
            t.push(vec![]);
            free_boundary(&h, f, &t, &outs, cov)?;
            if ins.len() > 1 {
                free_boundary(&h, f, &vec![ins.clone()], &outs, cov)?;
            }
        }
        // a port of elsewhere
        let mut t = outs.clone();
        t.push((i, 0.into()));
        free_boundary(&h, f, &grouped, &t, cov)?;
        Ok(())
    });
    r.family("replace", "every circuit of at most 2 (deep: 3) operations, every convex set, every replacement of at most 2 operations with any wiring, rooted in a function or a dataflow block", r.b(25.0, 300.0), move |c, cov| {
        let ops = vec![logic("Not"), logic("And"), Noop::new(q()).into()];
        let (h, f) = circuit(c, if deep { 3 } else { 2 }, &ops, 1, 0)?;
        let [i, o] = h.get_io(f).unwrap();
        let inner: Vec<Node> = h.children(f).filter(|n| *n != i && *n != o).collect();
        let nodes: Vec<Node> = inner.iter().copied().filter(|_| c.flag()).collect();
        let Ok(mut g) = SiblingSubgraph::try_from_nodes(nodes, &h) else { return Err(Fail::Skip) };
        // outputs permuted
        if g.outgoing_ports().len() > 1 && c.flag() {
            let mut p = g.outgoing_ports().clone();
            p.reverse();
            call("set_outgoing_ports", "", || g.set_outgoing_ports(p.clone(), &h))?.map_err(|e| Fail::Bad { key: String::new(), msg: format!("set_outgoing_ports({p:?}): {e}") })?;
            ensure_eq!(*g.outgoing_ports(), p, "set_outgoing_ports");
        }
        // inputs grouped by source
        let mut by: Vec<((Node, OutgoingPort), Vec<(Node, IncomingPort)>)> = vec![];
        for &(n, p) in g.incoming_ports().iter().flatten() {
            let s = h.single_linked_output(n, p).unwrap();
            match by.iter_mut().find(|x| x.0 == s) {
                Some(x) => x.1.push((n, p)),
                None => by.push((s, vec![(n, p)])),
            }
        }
        if by.len() < g.incoming_ports().len() && c.flag() {
            let ins: IncomingPorts = by.into_iter().map(|x| x.1).collect();
            let outs = g.outgoing_ports().clone();
            if !boundary_connected(&h, &want(&h, g.nodes()).unwrap()) {
                return Err(Fail::Skip);
            }
            g = call("try_new", "", || SiblingSubgraph::try_new(ins, outs, &h))?.map_err(|e| Fail::Bad { key: String::new(), msg: format!("try_new: {e}") })?;
        }
        let sig = g.signature(&h);
        let dfg = c.flag();
        let rep = replacement(c, &sig, 2, dfg)?;
        let d = format!("{g:?} of\n{}\nby\n{}", show(&h), show(&rep));
        cov.describe(|| d.clone());
        cov.state(&d);
        let sr = match call("create_simple_replacement", &d, || g.create_simple_replacement(&h, rep.clone()))? {
            Ok(x) => x,
            Err(e) => return bad(format!("create_simple_replacement: {e}\n {d}")),
        };
        ensure!(sr.verify(&h).is_ok(), "verify\n {d}");
        let mut z = h.clone();
        let out = match call("apply", &d, || z.apply_patch(sr))? {
            Ok(x) => x,
            Err(e) => return bad(format!("apply: {e}\n {d}")),
        };
        cov.step(1);
        // nodes
        let kept: BTreeSet<Node> = h.nodes().filter(|n| !g.nodes().contains(n)).collect();
        let new: BTreeSet<Node> = out.node_map.values().copied().collect();
        ensure_eq!(z.nodes().collect::<BTreeSet<_>>(), kept.union(&new).copied().collect(), "nodes after replacement\n {d}");
        ensure!(kept.is_disjoint(&new), "new nodes reported among the old\n {d}");
        let [ri, ro] = rep.get_io(rep.entrypoint()).unwrap();
        let src: BTreeSet<Node> = rep.descendants(rep.entrypoint()).filter(|n| ![rep.entrypoint(), ri, ro].contains(n)).collect();
        ensure_eq!(out.node_map.keys().copied().collect::<BTreeSet<_>>(), src, "node map\n {d}");
        for (a, x) in &out.node_map {
            ensure_eq!(rep.get_optype(*a), z.get_optype(*x), "operation of a new node\n {d}");
            ensure_eq!(z.get_parent(*x), Some(f), "parent of a new node\n {d}");
        }
        ensure_eq!(out.removed_nodes.keys().copied().collect::<BTreeSet<_>>(), g.nodes().iter().copied().collect(), "removed nodes\n {d}");
        for (n, op) in &out.removed_nodes {
            ensure_eq!(op, h.get_optype(*n), "removed operation\n {d}");
        }
        for n in &kept {
            ensure_eq!(z.get_optype(*n), h.get_optype(*n), "kept operation\n {d}");
            ensure_eq!(z.get_parent(*n), h.get_parent(*n), "kept parent\n {d}");
        }
        let links: BTreeSet<(Node, usize, Node, usize)> =
            z.nodes().flat_map(|n| z.node_outputs(n).flat_map(|p| z.linked_inputs(n, p).map(move |(m, q)| (n, p.index(), m, q.index())).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
        ensure_eq!(links, replaced(&h, &g, &rep, &out.node_map), "links after replacement\n {d}\n got\n{}", show(&z));
        if let Err(e) = call("validate", &d, || z.validate())? {
            return bad(format!("invalid after replacement: {e}\n {d}"));
        }
        cov.trace();
        Ok(())
    });
}
