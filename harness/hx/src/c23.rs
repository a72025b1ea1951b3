//! C23: every view of a HUGR against the definitions over its tree and links.
use crate::c04::rich;
use crate::c19::{Snap, snap};
use crate::explore::*;
use crate::families::{gen_valid, standard};
use crate::prog::*;
use crate::{ensure, ensure_eq};
use hugr_core::extension::prelude::{PRELUDE, bool_t, usize_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals, PortgraphNodeMap};
use hugr_core::hugr::views::render::{MermaidFormatter, NodeLabel};
use hugr_core::hugr::views::{ExtractionResult, PortIterator, Rerooted, RootChecked};
use hugr_core::module_graph::{ModuleGraph, StaticEdge, StaticNode};
use hugr_core::ops::handle::*;
use hugr_core::ops::{self, OpTag, OpTrait, OpType};
use hugr_core::std_extensions::logic;
use hugr_core::types::{EdgeKind, PolyFuncType, Signature, Type, TypeBound};
use hugr_core::{NodeIndex, Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex, Visibility};
use portgraph::{LinkView, PortView};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::Arc;

const DIRS: [Direction; 2] = [Direction::Incoming, Direction::Outgoing];
fn pt(d: Direction, i: usize) -> Port {
    Port::new(d, i)
}
/// The links at each port, in a canonical order.
type Links = BTreeMap<(Node, Port), Vec<(Node, Port)>>;
fn links(m: &Snap) -> Links {
    let mut l: Links = BTreeMap::new();
    for ((a, p), (z, q)) in &m.links {
        let (x, y) = ((*a, pt(Direction::Outgoing, *p)), (*z, pt(Direction::Incoming, *q)));
        l.entry(x).or_default().push(y);
        l.entry(y).or_default().push(x);
    }
    l
}
fn sorted<T: Ord>(x: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = x.into_iter().collect();
    v.sort();
    v
}
fn bfs(m: &Snap, n: Node) -> Vec<Node> {
    let mut q = VecDeque::from([n]);
    let mut out = vec![];
    while let Some(x) = q.pop_front() {
        out.push(x);
        q.extend(m.nodes[&x].children.iter().copied());
    }
    out
}
/// Whether a query on the same data gives the same answer in the same order both ways.
fn consistent(m: &Snap, d: &str) -> Res {
    for (n, s) in &m.nodes {
        match s.parent {
            None => ensure!(*n == m.root, "{d}: {n} has no parent but is not the root"),
            Some(p) => ensure_eq!(m.nodes.get(&p).map_or(0, |p| p.children.iter().filter(|c| *c == n).count()), 1, "{d}: {n} among the children of its parent"),
        }
        for c in &s.children {
            ensure!(m.nodes.get(c).is_some_and(|c| c.parent == Some(*n)), "{d}: child {c} of {n} has another parent");
        }
    }
    ensure_eq!(bfs(m, m.root).len(), m.nodes.len(), "{d}: nodes below the root");
    Ok(())
}

/// All queries of a view whose entrypoint is `entry` against the snapshot.
fn queries<V: HugrView<Node = Node>>(v: &V, m: &Snap, l: &Links, entry: Node, d: &str) -> Res {
    let none: Vec<(Node, Port)> = vec![];
    ensure_eq!(v.entrypoint(), entry, "{d}: entrypoint");
    ensure_eq!(v.module_root(), m.root, "{d}: module root");
    ensure!(*v.entrypoint_optype() == m.nodes[&entry].op, "{d}: entrypoint operation");
    ensure_eq!(v.entrypoint_tag(), m.nodes[&entry].op.tag(), "{d}: entrypoint tag");
    ensure_eq!(sorted(v.nodes()), m.nodes.keys().copied().collect::<Vec<_>>(), "{d}: nodes");
    ensure_eq!(v.num_nodes(), m.nodes.len(), "{d}: number of nodes");
    ensure_eq!(v.num_edges(), m.links.len(), "{d}: number of edges");
    ensure_eq!(v.entry_descendants().collect::<Vec<_>>(), bfs(m, entry), "{d}: descendants of the entrypoint");
    let top = m.nodes.keys().map(|n| n.index()).max().unwrap() + 3;
    for i in 0..top {
        let n = Node::from(portgraph::NodeIndex::new(i));
        ensure_eq!(v.contains_node(n), m.nodes.contains_key(&n), "{d}: contains {n}");
    }
    ensure!(v.extensions().ids().map(|i| i.to_string()).collect::<BTreeSet<_>>() == m.exts, "{d}: extensions");
    let mut total = 0;
    for (&n, s) in &m.nodes {
        ensure_eq!(v.get_parent(n), s.parent, "{d}: parent of {n}");
        ensure!(*v.get_optype(n) == s.op, "{d}: operation of {n}");
        ensure_eq!(v.children(n).collect::<Vec<_>>(), s.children, "{d}: children of {n}");
        ensure_eq!(v.children(n).rev().collect::<Vec<_>>(), s.children.iter().rev().copied().collect::<Vec<_>>(), "{d}: children of {n} backwards");
        ensure_eq!(v.first_child(n), s.children.first().copied(), "{d}: first child of {n}");
        ensure_eq!(v.descendants(n).collect::<Vec<_>>(), bfs(m, n), "{d}: descendants of {n}");
        ensure!(v.node_metadata_map(n).iter().map(|(k, x)| (k.clone(), x.to_string())).collect::<BTreeMap<_, _>>() == s.meta, "{d}: metadata of {n}");
        for k in s.meta.keys().map(|k| k.as_str()).chain(["absent"]) {
            ensure_eq!(v.get_metadata(n, k).map(|x| x.to_string()), s.meta.get(k).cloned(), "{d}: metadata {k} of {n}");
        }
        // ports
        let (ni, no) = s.ports;
        ensure_eq!((v.num_inputs(n), v.num_outputs(n)), (ni, no), "{d}: port counts of {n}");
        ensure_eq!(v.node_inputs(n).map(|p| p.index()).collect::<Vec<_>>(), (0..ni).collect::<Vec<_>>(), "{d}: inputs of {n}");
        ensure_eq!(v.node_outputs(n).map(|p| p.index()).collect::<Vec<_>>(), (0..no).collect::<Vec<_>>(), "{d}: outputs of {n}");
        let all: Vec<Port> = (0..ni).map(|i| pt(DIRS[0], i)).chain((0..no).map(|i| pt(DIRS[1], i))).collect();
        ensure_eq!(v.all_node_ports(n).collect::<Vec<_>>(), all, "{d}: all ports of {n}");
        let mut both = vec![];
        for dir in DIRS {
            let k = if dir == Direction::Incoming { ni } else { no };
            ensure_eq!(v.num_ports(n, dir), k, "{d}: number of {dir:?} ports of {n}");
            ensure_eq!(v.node_ports(n, dir).collect::<Vec<_>>(), (0..k).map(|i| pt(dir, i)).collect::<Vec<_>>(), "{d}: {dir:?} ports of {n}");
            let mut far = vec![];
            for i in 0..k {
                let p = pt(dir, i);
                let want = l.get(&(n, p)).unwrap_or(&none);
                total += want.len();
                let got: Vec<(Node, Port)> = v.linked_ports(n, p).collect();
                ensure_eq!(sorted(got.clone()), sorted(want.clone()), "{d}: links of {n} {p}");
                ensure_eq!(v.is_linked(n, p), !want.is_empty(), "{d}: {n} {p} linked");
                let single = if want.len() == 1 { Some(want[0]) } else { None };
                ensure_eq!(v.single_linked_port(n, p), single, "{d}: single link of {n} {p}");
                if dir == Direction::Incoming {
                    let q = IncomingPort::from(i);
                    ensure_eq!(v.linked_outputs(n, q).map(|(a, x)| (a, x.into())).collect::<Vec<(Node, Port)>>(), got, "{d}: linked outputs of {n} {p}");
                    ensure_eq!(v.single_linked_output(n, q).map(|(a, x)| (a, x.into())), single, "{d}: single linked output of {n} {p}");
                } else {
                    let q = OutgoingPort::from(i);
                    ensure_eq!(v.linked_inputs(n, q).map(|(a, x)| (a, x.into())).collect::<Vec<(Node, Port)>>(), got, "{d}: linked inputs of {n} {p}");
                    ensure_eq!(v.single_linked_input(n, q).map(|(a, x)| (a, x.into())), single, "{d}: single linked input of {n} {p}");
                }
                far.extend(got);
            }
            let nb: Vec<Node> = far.iter().map(|x| x.0).collect();
            ensure_eq!(sorted(v.neighbours(n, dir)), sorted(nb.clone()), "{d}: {dir:?} neighbours of {n}");
            let all: Vec<(Node, Port)> = match v.all_linked_ports(n, dir) {
                itertools::Either::Left(i) => i.map(|(a, x)| (a, x.into())).collect(),
                itertools::Either::Right(i) => i.map(|(a, x)| (a, x.into())).collect(),
            };
            ensure_eq!(all, far, "{d}: all {dir:?} links of {n}");
            if dir == Direction::Incoming {
                ensure_eq!(sorted(v.input_neighbours(n)), sorted(nb.clone()), "{d}: input neighbours of {n}");
                ensure_eq!(v.all_linked_outputs(n).map(|(a, x)| (a, x.into())).collect::<Vec<(Node, Port)>>(), far, "{d}: all linked outputs of {n}");
            } else {
                ensure_eq!(sorted(v.output_neighbours(n)), sorted(nb.clone()), "{d}: output neighbours of {n}");
                ensure_eq!(v.all_linked_inputs(n).map(|(a, x)| (a, x.into())).collect::<Vec<(Node, Port)>>(), far, "{d}: all linked inputs of {n}");
            }
            // a link from a node to itself counts once
            both.extend(nb.into_iter().filter(|x| dir == Direction::Incoming || *x != n));
            // typed ports
            let sig = s.op.dataflow_signature();
            let row: Vec<Type> = sig.iter().flat_map(|s| if dir == Direction::Incoming { s.input().iter() } else { s.output().iter() }).cloned().collect();
            let want: Vec<(Port, Type)> = row.into_iter().enumerate().map(|(i, t)| (pt(dir, i), t)).collect();
            ensure!(v.value_types(n, dir).collect::<Vec<_>>() == want, "{d}: {dir:?} value types of {n}");
            if dir == Direction::Incoming {
                ensure!(v.in_value_types(n).map(|(p, t)| (p.into(), t)).collect::<Vec<(Port, Type)>>() == want, "{d}: in value types of {n}");
            } else {
                ensure!(v.out_value_types(n).map(|(p, t)| (p.into(), t)).collect::<Vec<(Port, Type)>>() == want, "{d}: out value types of {n}");
            }
            // port filters
            let pairs: Vec<(Node, Port)> = (0..k).map(|i| (n, pt(dir, i))).collect();
            let kinds: Vec<Option<EdgeKind>> = pairs.iter().map(|(_, p)| s.op.port_kind(*p)).collect();
            let nv = want.len();
            for (i, kd) in kinds.iter().enumerate() {
                ensure_eq!(matches!(kd, Some(EdgeKind::Value(_))), i < nv, "{d}: kind of {n} {dir:?} {i}");
            }
        }
        ensure_eq!(sorted(v.all_neighbours(n)), sorted(both), "{d}: all neighbours of {n}");
        ensure_eq!(v.signature(n).map(|s| s.into_owned()), s.op.dataflow_signature().map(|s| s.into_owned()), "{d}: signature of {n}");
        for &o in m.nodes.keys() {
            // connections are directed: from `n` to `o`
            let want: Vec<[Port; 2]> = (0..no)
                .flat_map(|i| l.get(&(n, pt(Direction::Outgoing, i))).unwrap_or(&none).iter().filter(|x| x.0 == o).map(move |x| [pt(Direction::Outgoing, i), x.1]))
                .collect();
            ensure_eq!(sorted(v.node_connections(n, o)), sorted(want), "{d}: connections of {n} and {o}");
        }
        // dataflow regions and static links
        let inp = s.children.first().filter(|c| matches!(m.nodes[c].op, OpType::Input(_)));
        let want = inp.map(|i| [*i, s.children[1]]);
        let is_df = matches!(s.op, OpType::FuncDefn(_) | OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_));
        ensure_eq!(v.get_io(n), if is_df { want } else { None }, "{d}: input and output of {n}");
        let stat = |dir: Direction| (0..if dir == Direction::Incoming { ni } else { no }).find(|i| matches!(s.op.port_kind(pt(dir, *i)), Some(EdgeKind::Const(_) | EdgeKind::Function(_))));
        ensure_eq!(v.static_source(n), stat(Direction::Incoming).and_then(|i| l.get(&(n, pt(Direction::Incoming, i)))).map(|x| x[0].0), "{d}: static source of {n}");
        ensure_eq!(v.static_targets(n).map(|t| sorted(t.map(|(a, p)| (a, p.into())))), stat(Direction::Outgoing).map(|i| sorted(l.get(&(n, pt(Direction::Outgoing, i))).cloned().unwrap_or_default())), "{d}: static targets of {n}");
    }
    ensure_eq!(total, 2 * m.links.len(), "{d}: ends of links");
    // the function type of a dataflow region is read off its input and output nodes
    let kids = &m.nodes[&entry].children;
    if dataflow(&m.nodes[&entry].op) {
        if let [Some(OpType::Input(i)), Some(OpType::Output(o))] = [0, 1].map(|k| kids.get(k).map(|c| m.nodes[c].op.clone())) {
            ensure_eq!(v.inner_function_type().map(|x| x.into_owned()), Some(Signature::new(i.types, o.types)), "{d}: inner function type");
        }
    } else {
        ensure_eq!(v.inner_function_type().map(|x| x.into_owned()), None, "{d}: inner function type");
    }
    let pf = match &m.nodes[&entry].op {
        OpType::FuncDefn(f) => Some(f.signature().clone()),
        OpType::FuncDecl(f) => Some(f.signature().clone()),
        _ => None,
    };
    ensure_eq!(v.poly_func_type(), pf, "{d}: polymorphic function type");
    Ok(())
}
/// Region graphs and petgraph adaptors.
fn graphs<V: HugrView<Node = Node>>(v: &V, m: &Snap, l: &Links, d: &str) -> Res {
    use petgraph::visit::{EdgeCount, GetAdjacencyMatrix, IntoNeighbors, IntoNeighborsDirected, IntoNodeIdentifiers, IntoNodeReferences, NodeCount, NodeIndexable, NodeRef};
    let none: Vec<(Node, Port)> = vec![];
    for (&n, s) in &m.nodes {
        let (g, map) = v.region_portgraph(n);
        let at = |x: portgraph::NodeIndex| map.from_portgraph(x);
        ensure_eq!(sorted(g.nodes_iter().map(at)), sorted(s.children.clone()), "{d}: nodes of region {n}");
        ensure_eq!(portgraph::PortView::node_count(&g), s.children.len(), "{d}: node count of region {n}");
        let mut want_links = 0;
        for &c in &s.children {
            let i = map.to_portgraph(c);
            ensure!(g.contains_node(i) && at(i) == c, "{d}: {c} in region {n}");
            for dir in DIRS {
                let k = if dir == Direction::Incoming { m.nodes[&c].ports.0 } else { m.nodes[&c].ports.1 };
                ensure_eq!(g.num_ports(i, dir), k, "{d}: ports of {c} in region {n}");
                let mut nb = vec![];
                for p in 0..k {
                    let want: Vec<(Node, Port)> = l.get(&(c, pt(dir, p))).unwrap_or(&none).iter().filter(|x| m.nodes[&x.0].parent == Some(n)).copied().collect();
                    let ix = g.port_index(i, portgraph::PortOffset::new(dir, p)).unwrap();
                    let got: Vec<(Node, Port)> = g.port_links(ix).map(|(_, z)| {
                        let z: portgraph::PortIndex = z.into();
                        (at(g.port_node(z).unwrap()), g.port_offset(z).unwrap().into())
                    }).collect();
                    if dir == Direction::Outgoing {
                        want_links += want.len();
                    }
                    nb.extend(want.iter().map(|x| x.0));
                    ensure_eq!(sorted(got), sorted(want), "{d}: links of {c} {dir:?} {p} in region {n}");
                }
                ensure_eq!(sorted(g.neighbours(i, dir).map(at)), sorted(nb), "{d}: neighbours of {c} in region {n}");
            }
        }
        ensure_eq!(g.link_count(), want_links, "{d}: links in region {n}");
        for &o in m.nodes.keys().filter(|o| m.nodes[o].parent != Some(n)) {
            ensure!(!g.contains_node(map.to_portgraph(o)), "{d}: {o} in region {n}");
        }
    }
    let g = v.as_petgraph();
    ensure_eq!(g.node_count(), m.nodes.len(), "{d}: petgraph nodes");
    ensure_eq!(g.edge_count(), m.links.len(), "{d}: petgraph edges");
    ensure_eq!(sorted(g.node_identifiers()), m.nodes.keys().copied().collect::<Vec<_>>(), "{d}: petgraph identifiers");
    let mat = g.adjacency_matrix();
    for r in g.node_references() {
        ensure!(*r.weight() == m.nodes[&r.id()].op, "{d}: petgraph weight of {}", r.id());
    }
    ensure_eq!(g.node_references().count(), m.nodes.len(), "{d}: petgraph references");
    for (&n, s) in &m.nodes {
        let out: Vec<Node> = (0..s.ports.1).flat_map(|i| l.get(&(n, pt(Direction::Outgoing, i))).unwrap_or(&none)).map(|x| x.0).collect();
        let inn: Vec<Node> = (0..s.ports.0).flat_map(|i| l.get(&(n, pt(Direction::Incoming, i))).unwrap_or(&none)).map(|x| x.0).collect();
        ensure_eq!(sorted(g.neighbors(n)), sorted(out.clone()), "{d}: petgraph neighbours of {n}");
        ensure_eq!(sorted(g.neighbors_directed(n, petgraph::Direction::Outgoing)), sorted(out.clone()), "{d}: petgraph successors of {n}");
        ensure_eq!(sorted(g.neighbors_directed(n, petgraph::Direction::Incoming)), sorted(inn), "{d}: petgraph predecessors of {n}");
        for &o in m.nodes.keys() {
            ensure_eq!(g.is_adjacent(&mat, n, o), out.contains(&o), "{d}: petgraph adjacency of {n} and {o}");
        }
        ensure!(g.to_index(n) < g.node_bound(), "{d}: petgraph index of {n} is {} but the bound is {}", g.to_index(n), g.node_bound());
        ensure_eq!(g.from_index(g.to_index(n)), n, "{d}: petgraph index of {n}");
    }
    // an algorithm of petgraph that uses the indices
    let scc = guard(|| petgraph::algo::tarjan_scc(&g)).or_else(|e| bad(format!("{d}: petgraph strongly connected components: panic {e}")))?;
    ensure_eq!(sorted(scc.into_iter().flatten()), m.nodes.keys().copied().collect::<Vec<_>>(), "{d}: petgraph strongly connected components");
    Ok(())
}
/// The module graph.
fn dataflow(o: &OpType) -> bool {
    matches!(o, OpType::FuncDefn(_) | OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_))
}
fn container(o: &OpType) -> bool {
    use OpType as O;
    matches!(o, O::Module(_) | O::FuncDefn(_) | O::DFG(_) | O::CFG(_) | O::Case(_) | O::Conditional(_) | O::TailLoop(_) | O::DataflowBlock(_))
}
fn modules<V: HugrView<Node = Node>>(v: &V, m: &Snap, l: &Links, entry: Node, d: &str) -> Res {
    // an entrypoint is a region container
    if !container(&m.nodes[&entry].op) {
        return Ok(());
    }
    let g = guard(|| ModuleGraph::new(v)).or_else(|e| bad(format!("{d}: module graph: panic {e}")))?;
    let mut want: Vec<(Node, StaticNode)> = vec![];
    for &c in &m.nodes[&m.root].children {
        match m.nodes[&c].op {
            OpType::FuncDefn(_) => want.push((c, StaticNode::FuncDefn(c))),
            OpType::FuncDecl(_) => want.push((c, StaticNode::FuncDecl(c))),
            OpType::Const(_) => want.push((c, StaticNode::Const(c))),
            _ => {}
        }
    }
    if entry != m.root && !want.iter().any(|w| w.0 == entry) {
        want.push((entry, StaticNode::NonFuncEntrypoint));
    }
    ensure_eq!(g.graph().node_count(), want.len(), "{d}: nodes of the module graph");
    let w: HashMap<Node, StaticNode> = want.iter().cloned().collect();
    let mut edges = vec![];
    for (f, _) in &want {
        for n in m.under(*f) {
            if n == *f {
                continue;
            }
            let k = match m.nodes[&n].op {
                OpType::Call(_) => StaticEdge::Call(n),
                OpType::LoadFunction(_) => StaticEdge::LoadFunction(n),
                OpType::LoadConstant(_) => StaticEdge::LoadConstant(n),
                _ => continue,
            };
            let src = (0..m.nodes[&n].ports.0).filter(|i| matches!(m.nodes[&n].op.port_kind(pt(Direction::Incoming, *i)), Some(EdgeKind::Const(_) | EdgeKind::Function(_)))).find_map(|i| l.get(&(n, pt(Direction::Incoming, i)))).map(|x| x[0].0);
            if let Some(t) = src.filter(|t| m.nodes[t].parent == Some(m.root)) {
                edges.push((*f, k, t));
            }
        }
    }
    let key = |e: &(Node, StaticEdge, Node)| format!("{e:?}");
    for &n in m.nodes.keys() {
        ensure_eq!(g.node_index(n).map(|i| g.graph()[i].clone()), w.get(&n).cloned(), "{d}: module graph node of {n}");
        let got = sorted(g.out_edges(n).map(|(e, t)| format!("{e:?} {t:?}")));
        let wt = sorted(edges.iter().filter(|e| e.0 == n).map(|e| format!("{:?} {:?}", e.1, w[&e.2])));
        ensure_eq!(got, wt, "{d}: uses in {n}");
        let got = sorted(g.in_edges(n).map(|(t, e)| format!("{t:?} {e:?}")));
        let wt = sorted(edges.iter().filter(|e| e.2 == n).map(|e| format!("{:?} {:?}", w[&e.0], e.1)));
        ensure_eq!(got, wt, "{d}: users of {n}");
    }
    ensure_eq!(g.graph().edge_count(), edges.len(), "{d}: edges of the module graph: {:?}", edges.iter().map(key).collect::<Vec<_>>());
    Ok(())
}
/// Extracting the subtree of `n`.
fn extraction<V: HugrView<Node = Node>>(v: &V, m: &Snap, n: Node, valid: bool, d: &str) -> Res {
    let d = format!("{d}: extracting {n}");
    let (h, map) = guard(|| v.extract_hugr(n)).or_else(|e| bad(format!("{d}: panic {e}")))?;
    let x = snap(&h);
    consistent(&x, &d)?;
    ensure_eq!(x.entry, map.extracted_node(n), "{d}: entrypoint");
    ensure!(matches!(x.nodes[&x.root].op, OpType::Module(_)), "{d}: root is {}", x.nodes[&x.root].op);
    let inside = m.under(n);
    let f: HashMap<Node, Node> = inside.iter().map(|a| (*a, map.extracted_node(*a))).collect();
    ensure_eq!(f.values().collect::<BTreeSet<_>>().len(), inside.len(), "{d}: distinct images");
    for a in &inside {
        let (s, Some(t)) = (&m.nodes[a], x.nodes.get(&f[a])) else { return bad(format!("{d}: image of {a} is absent")) };
        ensure!(s.op == t.op && s.meta == t.meta && s.ports == t.ports, "{d}: {a} became {t:?}");
        ensure_eq!(t.children, s.children.iter().map(|c| f[c]).collect::<Vec<_>>(), "{d}: children of {a}");
    }
    let img: BTreeSet<Node> = f.values().copied().collect();
    let want = sorted(m.links.iter().filter(|(a, z)| f.contains_key(&a.0) && f.contains_key(&z.0)).map(|(a, z)| ((f[&a.0], a.1), (f[&z.0], z.1))));
    let got = sorted(x.links.iter().filter(|(a, z)| img.contains(&a.0) && img.contains(&z.0)).copied());
    ensure_eq!(got, want, "{d}: links");
    let ctx = matches!(m.nodes[&n].op, OpType::DataflowBlock(_) | OpType::Case(_) | OpType::ExitBlock(_));
    let top = map.extracted_node(n);
    if !ctx {
        // nothing below the extracted node reaches out
        let out: Vec<_> = x.links.iter().filter(|(a, z)| (img.contains(&a.0) && a.0 != top && !img.contains(&z.0)) || (img.contains(&z.0) && z.0 != top && !img.contains(&a.0))).collect();
        let want_none = matches!(m.nodes[&n].op, OpType::DFG(_) | OpType::CFG(_) | OpType::Conditional(_) | OpType::TailLoop(_) | OpType::FuncDefn(_));
        ensure!(!want_none || out.is_empty(), "{d}: links leaving the subtree: {out:?}");
    }
    // without links reaching out the result is a valid program
    let strict: BTreeSet<Node> = inside.iter().copied().filter(|a| *a != n).collect();
    let cross = m.links.iter().any(|(a, z)| strict.contains(&a.0) != strict.contains(&z.0) && !(n == a.0 && strict.contains(&z.0)));
    let stat = m.nodes[&n].op.static_input_port().is_some();
    if valid && !cross && !ctx && !stat && container(&m.nodes[&n].op) {
        let r = guard(|| h.validate()).or_else(|e| bad(format!("{d}: validating: panic {e}")))?;
        ensure!(r.is_ok(), "{d}: the result is invalid: {}", r.err().unwrap());
    }
    Ok(())
}
/// What a mermaid or dot rendering shows: nodes (with their parent), highlighted node, edges.
#[derive(Debug, PartialEq, Default)]
struct Shown {
    nodes: BTreeMap<usize, Option<usize>>,
    high: BTreeSet<usize>,
    edges: Vec<(usize, usize, Option<(usize, usize)>)>,
}
fn read_mermaid(t: &str, d: &str) -> Result<Shown, Fail> {
    let mut s = Shown::default();
    let mut stack: Vec<usize> = vec![];
    for line in t.lines() {
        let x = line.trim();
        let num = |x: &str| x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>();
        if x.is_empty() || x.starts_with("graph ") || x.starts_with("direction ") {
            continue;
        }
        if x == "end" {
            ensure!(stack.pop().is_some(), "{d}: unbalanced rendering:\n{t}");
        } else if let Some(r) = x.strip_prefix("style ") {
            s.high.insert(num(r).parse().unwrap());
        } else if let Some(r) = x.strip_prefix("subgraph ") {
            let k: usize = num(r).parse().unwrap();
            ensure!(s.nodes.insert(k, stack.last().copied()).is_none(), "{d}: node {k} twice:\n{t}");
            stack.push(k);
        } else {
            let a = num(x);
            ensure!(!a.is_empty(), "{d}: line {x:?} of\n{t}");
            let k: usize = a.parse().unwrap();
            let r = &x[a.len()..];
            if r.starts_with('[') {
                ensure!(s.nodes.insert(k, stack.last().copied()).is_none(), "{d}: node {k} twice:\n{t}");
            } else {
                let z: String = x.chars().rev().take_while(|c| c.is_ascii_digit()).collect::<String>().chars().rev().collect();
                ensure!(!z.is_empty(), "{d}: line {x:?} of\n{t}");
                let lab = r.split('"').nth(1).and_then(|l| l.split("<br>").next()).and_then(|l| l.split_once(':')).and_then(|(p, q)| Some((p.parse().ok()?, q.parse().ok()?)));
                s.edges.push((k, z.parse().unwrap(), lab));
            }
        }
    }
    ensure!(stack.is_empty(), "{d}: unbalanced rendering:\n{t}");
    s.edges.sort();
    Ok(s)
}
fn read_dot(t: &str, d: &str) -> Result<Shown, Fail> {
    let mut s = Shown::default();
    for x in t.lines().map(|l| l.trim()) {
        if x.is_empty() || x == "}" || x.starts_with("digraph") {
            continue;
        }
        let num = |x: &str| x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>();
        if let Some(r) = x.strip_prefix("hier") {
            let a: usize = num(r).parse().unwrap();
            if let Some((_, z)) = x.split_once("-> hier") {
                s.nodes.insert(num(z).parse().unwrap(), Some(a));
            } else {
                s.nodes.entry(a).or_insert(None);
            }
        } else if let Some((a, z)) = x.split_once(" -> ").filter(|(a, _)| a.contains(":out") && !a.contains('[')) {
            let (n, p) = a.split_once(":out").unwrap();
            let Some((m, q)) = z.split_once(":in") else { return bad(format!("{d}: line {x:?}")) };
            s.edges.push((n.parse().unwrap(), m.parse().unwrap(), Some((p.parse().unwrap(), num(q).parse().unwrap()))));
        } else {
            let k = num(x);
            ensure!(!k.is_empty() && x[k.len()..].starts_with(" [shape"), "{d}: line {x:?}");
            let k: usize = k.parse().unwrap();
            s.nodes.entry(k).or_insert(None);
            if x.contains("color=\"#832561\"") {
                s.high.insert(k);
            }
        }
    }
    s.edges.sort();
    Ok(s)
}
fn shown(m: &Snap, high: Option<Node>, offsets: bool) -> Shown {
    let mut edges: Vec<_> = m.links.iter().map(|(a, z)| (a.0.index(), z.0.index(), offsets.then_some((a.1, z.1)))).collect();
    edges.sort();
    Shown { nodes: m.nodes.iter().map(|(n, s)| (n.index(), s.parent.map(|p| p.index()))).collect(), high: high.into_iter().map(|n| n.index()).collect(), edges }
}
fn rendering<V: HugrView<Node = Node>>(v: &V, m: &Snap, entry: Node, dot: bool, d: &str) -> Res {
    let t = guard(|| v.mermaid_string()).or_else(|e| bad(format!("{d}: rendering: panic {e}")))?;
    let r = read_mermaid(&t, d)?;
    ensure!(r == shown(m, Some(entry), true), "{d}: mermaid shows {r:?} instead of {:?}", shown(m, Some(entry), true));
    let cfgs: Vec<(NodeLabel, bool, bool)> = vec![(NodeLabel::None, true, false), (NodeLabel::Custom(HashMap::from([(entry, "here".to_string())])), false, true), (NodeLabel::Numeric, false, false)];
    for (lab, po, ty) in cfgs {
        for high in [None, Some(m.root)] {
            let f = MermaidFormatter::new(v).with_node_labels(lab.clone()).with_port_offsets(po).with_type_labels(ty).with_entrypoint(high);
            let t = guard(|| f.finish()).or_else(|e| bad(format!("{d}: rendering: panic {e}")))?;
            let mut r = read_mermaid(&t, d)?;
            if !po {
                r.edges.iter_mut().for_each(|e| e.2 = None);
            }
            ensure!(r == shown(m, high, po), "{d}: mermaid ({lab:?} {po} {ty}) shows {r:?} instead of {:?}", shown(m, high, po));
        }
    }
    if dot {
        let t = guard(|| v.dot_string()).or_else(|e| bad(format!("{d}: dot rendering: panic {e}")))?;
        let r = read_dot(&t, d)?;
        let w = shown(m, Some(entry), true);
        ensure!(r.nodes == w.nodes && r.edges == w.edges, "{d}: dot shows {r:?} instead of {w:?}");
        if r.high != w.high {
            return bad_key("dot-rerooted-highlight", format!("{d}: dot highlights {:?} instead of {:?}", r.high, w.high));
        }
    }
    Ok(())
}
/// Handles accepted at an entrypoint.
fn checked(h: &Hugr, m: &Snap, n: Node, d: &str) -> Res {
    use OpType as O;
    let o = &m.nodes[&n].op;
    let v = h.with_entrypoint(n);
    let df = matches!(o, O::FuncDefn(_) | O::DFG(_) | O::Case(_) | O::TailLoop(_) | O::DataflowBlock(_));
    let child = matches!(o, O::Input(_) | O::Output(_) | O::Call(_) | O::CallIndirect(_) | O::LoadConstant(_) | O::LoadFunction(_) | O::DFG(_) | O::CFG(_) | O::Conditional(_) | O::TailLoop(_) | O::ExtensionOp(_) | O::OpaqueOp(_) | O::Tag(_) | O::Const(_));
    macro_rules! is {
        ($t:ty, $w:expr) => {
            let (a, w) = (RootChecked::<_, $t>::try_new(v.with_entrypoint(n)), $w);
            ensure_eq!(a.is_ok(), w, "{d}: {o} as {}", stringify!($t));
            ensure_eq!(RootChecked::<_, $t>::check(&v).is_ok(), w, "{d}: {o} checked as {}", stringify!($t));
            if let Ok(a) = a {
                ensure!(a.hugr().entrypoint() == n && a.as_ref().into_hugr().entrypoint() == n && a.tag() == o.tag() && a.into_hugr().entrypoint() == n, "{d}: {o} through {}", stringify!($t));
            }
        };
    }
    is!(DataflowParentID, df);
    is!(DataflowOpID, child);
    is!(ConditionalID, matches!(o, O::Conditional(_)));
    is!(CaseID, matches!(o, O::Case(_)));
    is!(DfgID, matches!(o, O::DFG(_)));
    is!(TailLoopID, matches!(o, O::TailLoop(_)));
    is!(CfgID, matches!(o, O::CFG(_)));
    is!(ModuleRootID, matches!(o, O::Module(_)));
    is!(ModuleID, matches!(o, O::FuncDefn(_) | O::FuncDecl(_) | O::AliasDefn(_) | O::AliasDecl(_) | O::Const(_)));
    is!(ConstID, matches!(o, O::Const(_)));
    is!(BasicBlockID, matches!(o, O::DataflowBlock(_)));
    is!(FuncID<true>, matches!(o, O::FuncDefn(_) | O::FuncDecl(_)));
    is!(AliasID<true>, matches!(o, O::AliasDefn(_) | O::AliasDecl(_)));
    is!(Node, true);
    let _ = OpTag::Any;
    Ok(())
}
/// Everything about the views of one HUGR at one entrypoint.
fn views(h: &mut Hugr, n: Node, valid: bool, d: &str, cov: &mut Cov) -> Res {
    let m0 = snap(h);
    let l = links(&m0);
    consistent(&m0, d)?;
    let d = format!("{d} at {n}");
    let orig = h.entrypoint();
    cov.step(1);
    // filters over ports
    for (a, s) in &m0.nodes {
        let want: Vec<_> = (0..s.ports.0).map(IncomingPort::from).filter(|p| matches!(s.op.port_kind(*p), Some(EdgeKind::Value(_) | EdgeKind::StateOrder))).collect();
        let got: Vec<_> = h.node_inputs(*a).map(|p| (*a, p)).dataflow_ports_only(h).map(|x| x.1).collect();
        ensure_eq!(got, want, "{d}: dataflow ports of {a}");
        let all: Vec<_> = h.node_outputs(*a).map(|p| (*a, p)).filter_edge_kind(|k| matches!(k, Some(EdgeKind::Value(_))), h).map(|x| x.1.index()).collect();
        let nv = s.op.dataflow_signature().map_or(0, |s| s.output_count());
        ensure_eq!(all, (0..nv).collect::<Vec<_>>(), "{d}: value outputs of {a}");
    }
    queries(h, &m0, &l, orig, &d)?;
    let r = h.with_entrypoint(n);
    let dr = format!("{d} (re-rooted)");
    queries(&r, &m0, &l, n, &dr)?;
    graphs(&r, &m0, &l, &dr)?;
    modules(&r, &m0, &l, n, &dr)?;
    extraction(&r, &m0, n, valid, &dr)?;
    let dots = rendering(&r, &m0, n, true, &dr);
    checked(h, &m0, n, &d)?;
    // the other wrappers
    queries(&&*h, &m0, &l, orig, &format!("{d} (reference)"))?;
    queries(&r.with_entrypoint(orig), &m0, &l, orig, &format!("{d} (re-rooted twice)"))?;
    let c: Cow<Hugr> = Cow::Borrowed(h);
    queries(&c, &m0, &l, orig, &format!("{d} (cow)"))?;
    graphs(&c, &m0, &l, &format!("{d} (cow)"))?;
    let mut own = h.clone();
    own.set_entrypoint(n);
    let same = |g: &Hugr, what: &str| -> Res {
        let s = snap(g);
        ensure!(s.nodes == m0.nodes && s.links == m0.links && s.root == m0.root, "{d}: {what} changed the graph");
        ensure_eq!(s.entry, n, "{d}: entrypoint after {what}");
        Ok(())
    };
    same(&own, "setting the entrypoint")?;
    queries(&own, &m0, &l, n, &format!("{d} (entrypoint set)"))?;
    rendering(&own, &m0, n, true, &format!("{d} (entrypoint set)"))?;
    extraction(&own, &m0, n, valid, &format!("{d} (entrypoint set)"))?;
    modules(&own, &m0, &l, n, &format!("{d} (entrypoint set)"))?;
    if valid && container(&m0.nodes[&n].op) {
        ensure_eq!(own.validate().is_ok(), r.validate().is_ok(), "{d}: validity");
    }
    let rc = Rc::new(own.clone());
    queries(&rc, &m0, &l, n, &format!("{d} (rc)"))?;
    graphs(&rc, &m0, &l, &format!("{d} (rc)"))?;
    rendering(&rc, &m0, n, true, &format!("{d} (rc)"))?;
    let ar = Arc::new(own.clone());
    queries(&ar, &m0, &l, n, &format!("{d} (arc)"))?;
    modules(&ar, &m0, &l, n, &format!("{d} (arc)"))?;
    let bx = Box::new(own.clone());
    queries(&bx, &m0, &l, n, &format!("{d} (box)"))?;
    extraction(&bx, &m0, n, valid, &format!("{d} (box)"))?;
    let rr = Rerooted::new(Rc::new(h.clone()), n);
    queries(&rr, &m0, &l, n, &format!("{d} (re-rooted rc)"))?;
    {
        let mh: &mut Hugr = h;
        queries(&mh, &m0, &l, orig, &format!("{d} (mutable reference)"))?;
        let w = mh.with_entrypoint_mut(n);
        queries(&w, &m0, &l, n, &format!("{d} (re-rooted mutable)"))?;
    }
    ensure!(snap(h) == m0, "{d}: queries changed the HUGR");
    dots
}

// ---------------------------------------------------------------- edits through views
/// One edit at `n` (and `o`), through any mutable view.
fn edit<V: HugrMut<Node = Node>>(v: &mut V, k: usize, n: Node, o: Node, deep: bool) -> String {
    let noop = || -> OpType { logic::LogicOp::Not.into() };
    match k {
        0 => {
            v.set_metadata(n, "k", "v");
            String::new()
        }
        1 => {
            *v.get_metadata_mut(n, "k") = 7.into();
            String::new()
        }
        2 => {
            v.remove_metadata(n, "k0");
            String::new()
        }
        3 => format!("{}", v.add_node_with_parent(n, noop())),
        4 => format!("{}", v.add_node_before(n, noop())),
        5 => format!("{}", v.add_node_after(n, noop())),
        6 => format!("{:?}", v.remove_node(n)),
        7 => {
            v.remove_subtree(n);
            String::new()
        }
        8 => format!("{:?}", v.copy_descendants(n, o, None)),
        9 => {
            v.connect(n, 0, o, 0);
            String::new()
        }
        10 => {
            v.disconnect(n, OutgoingPort::from(0));
            String::new()
        }
        11 => format!("{:?}", v.add_other_edge(n, o)),
        12 => format!("{:?}", v.insert_hugr(n, rich(true, false)).node_map.into_iter().collect::<BTreeMap<_, _>>()),
        13 => format!("{:?}", v.insert_from_view(n, &rich(false, true)).node_map.into_iter().collect::<BTreeMap<_, _>>()),
        14 => {
            v.use_extension(hugr_core::std_extensions::collections::list::EXTENSION.clone());
            v.use_extensions([PRELUDE.clone()]);
            String::new()
        }
        15 => {
            v.set_num_ports(n, 3, 2);
            String::new()
        }
        16 => format!("{:?}", v.add_ports(n, Direction::Outgoing, 2)),
        17 => format!("{:?}", v.add_ports(n, Direction::Incoming, -1)),
        18 => format!("{:?}", v.insert_ports(n, Direction::Incoming, 0, 1)),
        19 => {
            v.set_parent(n, o);
            String::new()
        }
        20 => {
            v.move_after_sibling(n, o);
            String::new()
        }
        21 => {
            v.move_before_sibling(n, o);
            String::new()
        }
        22 => format!("{:?}", v.replace_op(n, noop())),
        23 => {
            *v.optype_mut(n) = noop();
            String::new()
        }
        24 => {
            v.node_metadata_map_mut(n).insert("z".into(), 1.into());
            String::new()
        }
        25 => {
            let id = PRELUDE.name().clone();
            format!("{:?}", v.extensions_mut().remove_extension(&id).is_some())
        }
        26 => {
            v.set_module_root(n);
            String::new()
        }
        27 => {
            v.set_entrypoint(n);
            format!("{}", v.entrypoint())
        }
        _ => {
            // an edit through a re-rooted view of the view
            if deep {
                let mut w = v.with_entrypoint_mut(o);
                w.set_metadata(n, "deep", 1);
                let a = w.entrypoint();
                let b = w.entrypoint_tag();
                w.set_entrypoint(n);
                format!("{a} {b} {}", w.entrypoint())
            } else {
                let b = v.get_optype(o).tag();
                v.set_metadata(n, "deep", 1);
                v.set_entrypoint(n);
                format!("{o} {b} {n}")
            }
        }
    }
}
const EDITS: usize = 29;
fn edits(c: &mut Chooser, cov: &mut Cov) -> Res {
    let mut h = rich(c.flag(), false);
    let nodes: Vec<Node> = h.nodes().collect();
    for n in &nodes {
        h.set_metadata(*n, "k0", format!("{n}"));
    }
    let k = c.choose(EDITS);
    let n = *c.pick(&nodes);
    // the second node, where one is needed
    let o = match k {
        8 | 9 | 11 | 19 | 20 | 21 | 28 => *c.pick(&nodes),
        _ => n,
    };
    let how = c.choose(7);
    let root = h.module_root();
    let d = format!("edit {k} at {n} and {o} through {}", ["a mutable reference", "a box", "an owned cow", "a borrowed cow", "a re-rooted reference", "a re-rooted HUGR", "a twice re-rooted reference"][how]);
    cov.describe(|| d.clone());
    cov.step(1);
    cov.trace();
    // requests that are errors of the caller
    let below = |a: Node, b: Node| { let mut x = Some(a); while let Some(y) = x { if y == b { return true; } x = h.get_parent(y); } false };
    let skip = match k {
        4 | 5 => n == root,
        6 => n == root || n == h.entrypoint() || h.first_child(n).is_some(),
        7 => n == root || below(h.entrypoint(), n),
        8 => below(o, n),
        9 => h.num_outputs(n) == 0 || h.num_inputs(o) == 0,
        10 => h.num_outputs(n) == 0,
        11 => h.get_optype(n).other_output_port().is_none() || h.get_optype(o).other_input_port().is_none(),
        17 => h.num_inputs(n) == 0,
        18 => h.get_optype(n).other_input_port().is_none(),
        19 => n == root || below(o, n),
        20 | 21 => n == o || n == root || h.get_parent(n) != h.get_parent(o),
        26 => n != root,
        _ => false,
    };
    if skip {
        return Err(Fail::Skip);
    }
    let before = h.clone();
    let alt = nodes[nodes.len() / 2];
    let deep = how != 3;
    let run = || -> (Hugr, String, Hugr, String) {
        let mut a = before.clone();
        let ra = edit(&mut a, k, n, o, false);
        let (b, rb) = match how {
            0 => {
                let mut b = before.clone();
                let r = edit(&mut &mut b, k, n, o, deep);
                (b, r)
            }
            1 => {
                let mut b = Box::new(before.clone());
                let r = edit(&mut b, k, n, o, deep);
                (*b, r)
            }
            2 => {
                let mut b: Cow<Hugr> = Cow::Owned(before.clone());
                let r = edit(&mut b, k, n, o, deep);
                (b.into_owned(), r)
            }
            3 => {
                let mut b: Cow<Hugr> = Cow::Borrowed(&before);
                let r = edit(&mut b, k, n, o, deep);
                (b.into_owned(), r)
            }
            4 => {
                let mut b = before.clone();
                let e = alt;
                let r = edit(&mut b.with_entrypoint_mut(e), k, n, o, deep);
                (b, r)
            }
            5 => {
                let mut b = Rerooted::new(before.clone(), alt);
                let r = edit(&mut b, k, n, o, deep);
                (b.into_unwrapped(), r)
            }
            _ => {
                let mut b = before.clone();
                let r = edit(&mut b.with_entrypoint_mut(alt).with_entrypoint_mut(n), k, n, o, deep);
                (b, r)
            }
        };
        (a, ra, b, rb)
    };
    // a re-rooted view protects its own entrypoint instead
    if how >= 4 && ((k == 6 || k == 7) && (below(alt, n) || how == 6)) {
        return Err(Fail::Skip);
    }
    let (a, ra, b, rb) = guard(run).or_else(|e| bad(format!("{d}: panic {e}")))?;
    ensure_eq!(rb, ra, "{d}: result");
    let (sa, sb) = (snap(&a), snap(&b));
    ensure!(sa == sb, "{d}: the HUGR differs from the one edited directly: {:?}", sa.nodes.iter().find(|(n, s)| sb.nodes.get(n) != Some(s)));
    cov.state((k, n, o));
    // the original of a borrowed value stays as it was
    ensure!(snap(&before) == snap(&h), "{d}: the original changed");
    Ok(())
}

// ---------------------------------------------------------------- signatures of checked views
fn perms(c: &mut Chooser, n: usize) -> Vec<usize> {
    let k = c.choose(n + 2);
    (0..k).map(|_| c.choose(n + 1)).collect()
}
/// A function (polymorphic or not) around nested regions, whose innermost region has the given wiring.
fn signatures(c: &mut Chooser, cov: &mut Cov) -> Res {
    let kind = c.choose(4); // function, poly function, DFG in function, DFG in DFG in function
    let rows: [&[Type]; 4] = [&[bool_t()], &[bool_t(), bool_t()], &[q(), bool_t()], &[q(), q()]];
    let ins: Vec<Type> = rows[c.choose(4)].to_vec();
    let mut h = Hugr::new();
    let sig = Signature::new(ins.clone(), ins.clone());
    let poly = kind == 1;
    let (f, fi, fo) = func(&mut h, "main", if poly { PolyFuncType::new([TypeBound::Copyable.into()], sig.clone()) } else { sig.clone().into() }, Visibility::Public);
    let (mut e, mut i, mut o) = (f, fi, fo);
    let wires = |h: &mut Hugr, i: Node, e: Node, o: Node| {
        for p in 0..ins.len() {
            h.connect(i, p, e, p);
            h.connect(e, p, o, p);
        }
    };
    for _ in 1..kind {
        let x = add(&mut h, e, ops::DFG { signature: sig.clone() });
        wires(&mut h, i, x, o);
        let (a, b) = region_io(&mut h, x, ins.clone(), ins.clone());
        (e, i, o) = (x, a, b);
    }
    // linear wires cross or pass, boolean outputs come from an input or a constant-free operation
    let mut used = BTreeSet::new();
    let mut ops_ = vec![];
    for p in 0..ins.len() {
        let srcs: Vec<usize> = (0..ins.len()).filter(|s| ins[*s] == ins[p] && (ins[p].copyable() || !used.contains(s))).collect();
        if srcs.is_empty() {
            return Err(Fail::Skip);
        }
        let s = *c.pick(&srcs);
        used.insert(s);
        if c.flag() {
            let n: OpType = if ins[p].copyable() { logic("Not") } else { hugr_core::extension::prelude::Noop::new(q()).into() };
            let n = add(&mut h, e, n);
            h.connect(i, s, n, 0);
            h.connect(n, 0, o, p);
            ops_.push(n);
        } else {
            h.connect(i, s, o, p);
        }
    }
    // a nested region reading an input from outside, with the order edge this needs
    let nested = c.flag();
    if nested && kind < 2 {
        if let Some(s) = (0..ins.len()).find(|s| ins[*s].copyable()) {
            let x = add(&mut h, e, ops::DFG { signature: Signature::new(vec![], vec![]) });
            let _ = region_io(&mut h, x, vec![], vec![]);
            let n = add(&mut h, x, logic("Not"));
            h.connect(i, s, n, 0);
            h.add_other_edge(i, x);
        } else {
            return Err(Fail::Skip);
        }
    } else if nested {
        return Err(Fail::Skip);
    }
    // orders between the boundary and operations
    if let Some(n) = ops_.first() {
        if c.flag() {
            h.add_other_edge(i, *n);
            h.add_other_edge(*n, o);
        }
    }
    h.set_entrypoint(e);
    if h.validate().is_err() {
        return bad(format!("HARNESS: {}", h.validate().unwrap_err()));
    }
    let before = snap(&h);
    let ext = c.choose(4);
    let dfg = kind >= 2 && c.flag();
    if ext > 0 {
        // appending inputs
        let new: Vec<Type> = [vec![bool_t()], vec![usize_t(), bool_t()], vec![bool_t(), q()]][ext - 1].clone();
        let d = format!("appending inputs {new:?} to kind {kind} {ins:?} with links {:?}", before.links);
        cov.describe(|| d.clone());
        cov.state(&d);
        cov.step(1);
        cov.trace();
        let r = guard(|| if dfg { RootChecked::<_, DfgID>::try_new(&mut h).unwrap().extend_inputs(&new) } else { RootChecked::<_, DataflowParentID>::try_new(&mut h).unwrap().extend_inputs(&new) }).or_else(|e| bad(format!("{d}: panic {e}")))?;
        let fine = new.iter().all(|t| t.copyable());
        ensure_eq!(r.is_ok(), fine, "{d}: result");
        if !fine {
            ensure!(snap(&h) == before, "{d}: changed by a refused request");
            return Ok(());
        }
        let (_, all) = (0, [ins.clone(), new].concat());
        after(&h, &before, e, i, o, &(0..all.len()).map(|k| if k < ins.len() { Some(k) } else { None }).collect::<Vec<_>>(), &(0..ins.len()).collect::<Vec<_>>(), &all, &ins, kind, &d)
    } else {
        let (mi, mo) = (perms(c, ins.len()), perms(c, ins.len()));
        let d = format!("mapping inputs {mi:?} and outputs {mo:?} of kind {kind} {ins:?} with links {:?}", before.links);
        cov.describe(|| d.clone());
        cov.state(&d);
        cov.step(1);
        cov.trace();
        let r = guard(|| if dfg { RootChecked::<_, DfgID>::try_new(&mut h).unwrap().map_function_type(&mi, &mo) } else { RootChecked::<_, DataflowParentID>::try_new(&mut h).unwrap().map_function_type(&mi, &mo) }).or_else(|e| bad(format!("{d}: panic {e}")))?;
        let n = ins.len();
        let cnt = |v: &[usize], k: usize| v.iter().filter(|x| **x == k).count();
        let uses = |k: usize| before.links.iter().any(|(a, _)| *a == (i, k));
        let fine = mi.iter().chain(&mo).all(|k| *k < n)
            && (0..n).all(|k| cnt(&mi, k) <= 1 && (cnt(&mi, k) == 1 || (ins[k].copyable() && !uses(k))))
            && (0..n).all(|k| ins[k].copyable() || cnt(&mo, k) == 1);
        ensure_eq!(r.is_ok(), fine, "{d}: result {r:?}");
        if !fine {
            ensure!(snap(&h) == before, "{d}: changed by a refused request");
            return Ok(());
        }
        let ti: Vec<Type> = mi.iter().map(|k| ins[*k].clone()).collect();
        let to: Vec<Type> = mo.iter().map(|k| ins[*k].clone()).collect();
        after(&h, &before, e, i, o, &mi.iter().map(|k| Some(*k)).collect::<Vec<_>>(), &mo, &ti, &to, kind, &d)
    }
}
/// The region `e` has the inputs and outputs asked for, and the rest is as it was.
#[allow(clippy::too_many_arguments)]
fn after(h: &Hugr, m: &Snap, e: Node, i: Node, o: Node, mi: &[Option<usize>], mo: &[usize], ti: &[Type], to: &[Type], kind: usize, d: &str) -> Res {
    let x = snap(h);
    let sig = Signature::new(ti.to_vec(), to.to_vec());
    ensure!(h.validate().is_ok(), "{d}: invalid: {}", h.validate().unwrap_err());
    ensure_eq!(x.nodes.keys().collect::<Vec<_>>(), m.nodes.keys().collect::<Vec<_>>(), "{d}: nodes");
    let mut a = Some(e);
    while let Some(n) = a {
        match &x.nodes[&n].op {
            OpType::FuncDefn(f) => {
                ensure!(*f.signature().body() == sig, "{d}: signature of the function is {}", f.signature());
                ensure_eq!(f.signature().params().len(), usize::from(kind == 1), "{d}: type parameters of the function");
            }
            OpType::DFG(g) => ensure!(g.signature == sig, "{d}: signature of {n} is {}", g.signature),
            _ => {}
        }
        a = x.nodes[&n].parent;
    }
    let n = mo.len();
    // expected links of the region, order edges by kind
    let old_in = m.nodes[&i].ports.1 - 1;
    let old_out = m.nodes[&o].ports.0 - 1;
    let mut want = vec![];
    let inside = |k: Node| m.nodes[&k].parent == Some(e) || m.nodes[&k].parent.and_then(|p| m.nodes[&p].parent) == Some(e) && kind < 2;
    let src = |s: (Node, usize)| -> Option<(Node, usize)> {
        if s.0 != i {
            Some(s)
        } else if s.1 == old_in {
            Some((i, ti.len()))
        } else {
            mi.iter().position(|k| *k == Some(s.1)).map(|k| (i, k))
        }
    };
    for (s, t) in m.links.iter().filter(|(s, t)| inside(s.0) && inside(t.0)) {
        let s2 = src(*s);
        let Some(s2) = s2 else { return bad(format!("{d}: HARNESS dropped input")) };
        if t.0 != o {
            want.push((s2, *t));
        } else if t.1 == old_out {
            want.push((s2, (o, n)));
        } else {
            for (k, _) in mo.iter().enumerate().filter(|(_, j)| **j == t.1) {
                want.push((s2, (o, k)));
            }
        }
    }
    want.sort();
    let got: Vec<_> = x.links.iter().filter(|(s, t)| inside(s.0) && inside(t.0)).copied().collect();
    ensure_eq!(got, want, "{d}: links of the region");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.family("rich", "the HUGR with every kind of node (numbering gaps, reversed children or not), every node as entrypoint, every wrapper, every query", 60.0, |c, cov| {
        let mut h = rich(c.flag(), c.flag());
        let valid = h.validate().is_ok();
        let nodes: Vec<Node> = h.nodes().collect();
        let n = *c.pick(&nodes);
        cov.describe(|| format!("rich at {n}"));
        cov.trace();
        cov.state(n);
        views(&mut h, n, valid, "rich", cov)
    });
    r.family("edits", "every editing operation at every node (pairs of nodes where it takes two) through seven kinds of mutable view", r.b(40.0, 120.0), edits);
    r.family("signatures", "every input and output map (and three appended rows) on functions and nested regions with every small wiring", r.b(40.0, 200.0), signatures);
    for fam in standard(false) {
        let mut g = fam.g;
        if r.quick() {
            g.stmts = g.stmts.min(2);
        }
        r.family(fam.name, &format!("every program of at most {} statements of the family, every node as entrypoint, every wrapper, every query", g.stmts), r.b(6.0, 40.0), move |c, cov| {
            let (mut h, _, d) = gen_valid(c, &g, cov)?;
            let gap = c.flag();
            if gap {
                // leave a hole in the numbering
                let f = h.children(h.module_root()).next().unwrap();
                let x = h.add_node_before(f, ops::FuncDecl::new("x", Signature::new(vec![], vec![])));
                let _ = h.add_node_with_parent(h.module_root(), ops::FuncDecl::new("y", Signature::new(vec![], vec![])));
                h.remove_node(x);
            }
            let nodes: Vec<Node> = h.nodes().collect();
            let n = *c.pick(&nodes);
            views(&mut h, n, true, &d, cov)
        });
    }
}
