//! C18: persistent HUGRs equal sequential rewriting, whatever the order of the commits.
use crate::explore::*;
use crate::{ensure, ensure_eq};
use hugr_core::builder::{Container, DFGBuilder, Dataflow, DataflowHugr, FunctionBuilder, endo_sig};
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr_core::extension::prelude::bool_t;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::{ExtractionResult, SiblingSubgraph};
use hugr_core::ops::OpType;
use hugr_core::std_extensions::logic::LogicOp;
use hugr_core::types::{EdgeKind, Signature};
use hugr_core::{Direction, Hugr, HugrView, Node, Port, PortIndex};
use hugr_persistent::serial::SerialPersistentHugr;
use hugr_persistent::state_space::serial::SerialCommitStateSpace;
use hugr_persistent::{Commit, CommitId, CommitStateSpace, InvalidCommit, PatchNode, PersistentHugr, PersistentReplacement};
use std::collections::{BTreeMap, BTreeSet};

/// A node of commit `i` (0: the base).
type Id = (usize, Node);
type Link = ((Id, usize), (Id, usize));
#[derive(Clone, Debug, PartialEq, Default)]
struct G {
    nodes: BTreeSet<Id>,
    links: BTreeSet<Link>,
}
#[derive(Clone, Debug)]
enum Src {
    In(usize),
    At(Node, usize),
}
#[derive(Clone, Debug, Default)]
struct C {
    parents: BTreeSet<usize>,
    del: BTreeSet<Id>,
    inc: Vec<Vec<(Id, usize)>>,
    out: Vec<(Id, usize)>,
    nodes: Vec<Node>,
    inner: Vec<((Node, usize), (Node, usize))>,
    from_in: Vec<(usize, (Node, usize))>,
    outs: Vec<Src>,
}
fn raw_links(h: &Hugr) -> Vec<((Node, usize), (Node, usize))> {
    let mut v = vec![];
    for n in h.nodes() {
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) {
                v.push(((n, p.index()), (m, q.index())));
            }
        }
    }
    v
}
impl G {
    fn base(h: &Hugr) -> G {
        G { nodes: h.nodes().map(|n| (0, n)).collect(), links: raw_links(h).into_iter().map(|((a, p), (b, q))| (((0, a), p), ((0, b), q))).collect() }
    }
    fn source(&self, at: (Id, usize)) -> Option<(Id, usize)> {
        self.links.iter().find(|l| l.1 == at).map(|l| l.0)
    }
    /// The rewrite: the nodes are taken out, the replacement put in their place.
    fn apply(&self, i: usize, c: &C) -> Result<G, String> {
        let mut srcs = vec![];
        for g in &c.inc {
            srcs.push(self.source(g[0]).ok_or("unconnected input")?);
        }
        let mut g = G::default();
        g.nodes = self.nodes.iter().filter(|n| !c.del.contains(n)).copied().collect();
        for n in &c.nodes {
            g.nodes.insert((i, *n));
        }
        let src = |s: &Src| match s {
            Src::In(k) => srcs[*k],
            Src::At(n, p) => ((i, *n), *p),
        };
        for l in &self.links {
            let (a, z) = (c.del.contains(&l.0.0), c.del.contains(&l.1.0));
            match (a, z) {
                (false, false) => {
                    g.links.insert(*l);
                }
                (true, false) => {
                    let k = c.out.iter().position(|o| *o == l.0).ok_or("a consumer of a removed port is not on the boundary")?;
                    g.links.insert((src(&c.outs[k]), l.1));
                }
                _ => {}
            }
        }
        for ((a, p), (b, q)) in &c.inner {
            g.links.insert((((i, *a), *p), ((i, *b), *q)));
        }
        for (k, (n, p)) in &c.from_in {
            g.links.insert((srcs[*k], ((i, *n), *p)));
        }
        Ok(g)
    }
    fn cyclic(&self) -> bool {
        let mut deg: BTreeMap<Id, usize> = self.nodes.iter().map(|n| (*n, 0)).collect();
        for l in &self.links {
            *deg.get_mut(&l.1.0).unwrap() += 1;
        }
        let mut todo: Vec<Id> = deg.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
        let mut left = deg.len();
        while let Some(n) = todo.pop() {
            left -= 1;
            for l in self.links.iter().filter(|l| l.0.0 == n) {
                let d = deg.get_mut(&l.1.0).unwrap();
                *d -= 1;
                if *d == 0 {
                    todo.push(l.1.0);
                }
            }
        }
        left > 0
    }
}

struct W<'a> {
    base: &'a Hugr,
    /// commits 1..
    cs: Vec<C>,
    repls: Vec<PersistentReplacement>,
    ids: Vec<CommitId>,
}
impl W<'_> {
    fn closure(&self, mask: usize) -> usize {
        let mut m = mask | 1;
        for i in (1..=self.cs.len()).rev() {
            if m >> i & 1 == 1 {
                for p in &self.cs[i - 1].parents {
                    m |= 1 << p;
                }
            }
        }
        m
    }
    fn conflict(&self, mask: usize) -> bool {
        let mut seen = BTreeSet::new();
        self.members(mask).any(|i| self.cs[i - 1].del.iter().any(|d| !seen.insert(*d)))
    }
    fn members(&self, mask: usize) -> impl Iterator<Item = usize> + use<> {
        (1..16).filter(move |i| mask >> i & 1 == 1)
    }
    fn result(&self, mask: usize) -> Result<G, String> {
        let mut g = G::base(self.base);
        for i in self.members(mask) {
            g = g.apply(i, &self.cs[i - 1])?;
        }
        Ok(g)
    }
    fn op(&self, n: Id) -> &OpType {
        if n.0 == 0 { self.base.get_optype(n.1) } else { self.repls[n.0 - 1].replacement().get_optype(n.1) }
    }
    fn p(&self, n: Id) -> PatchNode {
        PatchNode(self.ids[n.0], n.1)
    }
    fn id(&self, n: PatchNode) -> Option<Id> {
        Some((self.ids.iter().position(|i| *i == n.0)?, n.1))
    }
    fn all(&self, mask: usize) -> Vec<usize> {
        (0..=self.cs.len()).filter(|i| mask >> i & 1 == 1).collect()
    }
}

/// The commits, links, operations and queries of `p` against the set of commits `mask`.
fn check(w: &W, p: &PersistentHugr, mask: usize, full: bool, cov: &mut Cov, d: &str) -> Res {
    let want_ids: BTreeSet<CommitId> = w.all(mask).into_iter().map(|i| w.ids[i]).collect();
    ensure_eq!(p.all_commit_ids().collect::<BTreeSet<_>>(), want_ids, "commits of the persistent HUGR | {d} | set {mask:b}");
    let g = match w.result(mask) {
        Ok(g) => g,
        Err(e) => return bad(format!("HARNESS {e} | {d} | set {mask:b}")),
    };
    if g.cyclic() {
        // no two commits delete the same node, yet together they make a cycle
        return match guard(|| p.to_hugr().validate().is_ok()) {
            Ok(true) => bad(format!("a cyclic combination became a valid HUGR | {d} | set {mask:b}")),
            _ => bad_key("cyclic-combination", format!("a combination without conflicts has no HUGR: it is cyclic | {d} | set {mask:b}")),
        };
    }
    if let Err(e) = p.is_valid() {
        return bad(format!("is_valid: {e} | {d} | set {mask:b}"));
    }
    let (h, map) = p.apply_all();
    cov.step(1);
    if let Err(e) = h.validate() {
        return bad(format!("the materialised HUGR is invalid: {e} | {d} | set {mask:b}"));
    }
    let mut live: BTreeMap<Id, Node> = BTreeMap::new();
    for (k, v) in &map {
        let Some(k) = w.id(*k) else { return bad(format!("unknown node {k:?} in the node map | {d}")) };
        live.insert(k, *v);
    }
    ensure_eq!(live.keys().copied().collect::<BTreeSet<_>>(), g.nodes, "nodes mapped | {d} | set {mask:b}");
    let mut vals: Vec<Node> = live.values().copied().collect();
    vals.sort();
    let mut hn: Vec<Node> = h.nodes().collect();
    hn.sort();
    ensure_eq!(vals, hn, "nodes of the materialised HUGR | {d} | set {mask:b}");
    let mut got: Vec<Link> = vec![];
    let back: BTreeMap<Node, Id> = live.iter().map(|(k, v)| (*v, *k)).collect();
    for ((a, x), (b, y)) in raw_links(&h) {
        got.push(((back[&a], x), (back[&b], y)));
    }
    got.sort();
    ensure_eq!(got, g.links.iter().copied().collect::<Vec<_>>(), "links of the materialised HUGR | {d} | set {mask:b}");
    let entry = w.base.entrypoint();
    for (k, v) in &live {
        ensure_eq!(h.get_optype(*v), w.op(*k), "operation of {k:?} | {d}");
        let par = if k.0 == 0 { w.base.get_parent(k.1) } else { Some(entry) };
        ensure_eq!(h.get_parent(*v), par.map(|x| live[&(0, x)]), "parent of {k:?} in the materialised HUGR | {d}");
    }
    ensure_eq!(h.entrypoint(), live[&(0, entry)], "entrypoint | {d}");
    if !full {
        return Ok(());
    }
    // queries
    let name = |n: PatchNode| w.id(n);
    let nodes: Vec<Option<Id>> = p.nodes().map(name).collect();
    let mut s: Vec<Option<Id>> = nodes.clone();
    s.sort();
    ensure_eq!(s, g.nodes.iter().map(|n| Some(*n)).collect::<Vec<_>>(), "nodes() | {d} | set {mask:b}");
    ensure_eq!(p.num_nodes(), g.nodes.len(), "num_nodes | {d} | set {mask:b}");
    ensure_eq!(p.num_edges(), g.links.len(), "num_edges | {d} | set {mask:b}");
    ensure_eq!(name(p.entrypoint()), Some((0, entry)), "entrypoint | {d}");
    ensure_eq!(name(p.module_root()), Some((0, w.base.module_root())), "module_root | {d}");
    ensure_eq!(p.base(), w.ids[0], "base | {d}");
    for i in w.all(mask) {
        let del: BTreeSet<Node> = w.members(mask).flat_map(|j| w.cs[j - 1].del.iter().filter(|x| x.0 == i).map(|x| x.1).collect::<Vec<_>>()).collect();
        let mut have: Vec<Node> = p.deleted_nodes(w.ids[i]).collect();
        have.sort();
        ensure_eq!(have, del.iter().copied().collect::<Vec<_>>(), "deleted nodes of commit {i} | {d} | set {mask:b}");
        let par: BTreeSet<CommitId> = p.parent_commits(w.ids[i]).collect();
        let wpar: BTreeSet<CommitId> = if i == 0 { Default::default() } else { w.cs[i - 1].parents.iter().map(|x| w.ids[*x]).collect() };
        ensure_eq!(par, wpar, "parents of commit {i} | {d} | set {mask:b}");
        let ch: BTreeSet<CommitId> = p.children_commits(w.ids[i]).collect();
        let wch: BTreeSet<CommitId> = w.members(mask).filter(|j| w.cs[j - 1].parents.contains(&i)).map(|j| w.ids[j]).collect();
        ensure_eq!(ch, wch, "children of commit {i} | {d} | set {mask:b}");
        // every node the commit ever had
        let every: Vec<Node> = if i == 0 { w.base.nodes().collect() } else { w.repls[i - 1].replacement().entry_descendants().skip(1).collect() };
        for n in every {
            ensure_eq!(p.contains_node(w.p((i, n))), g.nodes.contains(&(i, n)), "contains_node of {:?} | {d} | set {mask:b}", (i, n));
        }
    }
    for &k in &g.nodes {
        let n = w.p(k);
        ensure_eq!(p.get_optype(n), w.op(k), "get_optype of {k:?} | {d}");
        let par = if k.0 == 0 { w.base.get_parent(k.1) } else { Some(entry) };
        ensure_eq!(p.get_parent(n).map(name), par.map(|x| Some((0, x))), "get_parent of {k:?} | {d} | set {mask:b}");
        let mut kids: Vec<Option<Id>> = p.children(n).map(name).collect();
        if k == (0, entry) {
            let io = w.base.get_io(entry).unwrap();
            ensure_eq!(kids.iter().take(2).copied().collect::<Vec<_>>(), io.iter().map(|x| Some((0, *x))).collect::<Vec<_>>(), "the first children are Input and Output | {d}");
            let mut rev: Vec<Option<Id>> = p.children(n).rev().map(name).collect();
            rev.reverse();
            ensure_eq!(rev, kids, "children backwards | {d} | set {mask:b}");
        }
        kids.sort();
        let mut wk: Vec<Option<Id>> = g.nodes.iter().filter(|x| (x.0 == 0 && w.base.get_parent(x.1).map(|y| (0, y)) == Some(k)) || (x.0 != 0 && k == (0, entry))).map(|x| Some(*x)).collect();
        wk.sort();
        ensure_eq!(kids, wk, "children of {k:?} | {d} | set {mask:b}");
        let mut nb_all: Vec<Option<Id>> = vec![];
        for dir in Direction::BOTH {
            ensure_eq!(p.num_ports(n, dir), h.num_ports(live[&k], dir), "num_ports of {k:?} | {d}");
            let mut nb: Vec<Option<Id>> = vec![];
            ensure_eq!(p.node_ports(n, dir).collect::<Vec<_>>(), h.node_ports(live[&k], dir).collect::<Vec<_>>(), "node_ports of {k:?} | {d}");
            for port in p.node_ports(n, dir) {
                let wl: Vec<(Id, usize)> = g.links.iter().filter_map(|l| if dir == Direction::Outgoing { (l.0 == (k, port.index())).then_some(l.1) } else { (l.1 == (k, port.index())).then_some(l.0) }).collect();
                let mut gl: Vec<(Option<Id>, usize)> = vec![];
                for (m, q) in p.linked_ports(n, port) {
                    ensure!(q.direction() == dir.reverse(), "linked_ports returns a port of the same direction | {d}");
                    gl.push((name(m), q.index()));
                }
                gl.sort();
                let mut wl: Vec<(Option<Id>, usize)> = wl.into_iter().map(|(a, b)| (Some(a), b)).collect();
                wl.sort();
                ensure_eq!(gl, wl, "linked_ports of {k:?} {port:?} | {d} | set {mask:b}");
                nb.extend(wl.iter().map(|x| x.0));
                if matches!(p.get_optype(n).port_kind(port), Some(EdgeKind::Value(_))) {
                    let wire = p.get_wire(n, port);
                    let mut ends: BTreeSet<(Option<Id>, Port)> = wire.all_ports(p, None).map(|(m, q)| (name(m), q)).collect();
                    let o = if dir == Direction::Outgoing { Some((k, port.index())) } else { g.source((k, port.index())) };
                    let mut we: BTreeSet<(Option<Id>, Port)> = BTreeSet::new();
                    if let Some(o) = o {
                        we.insert((Some(o.0), Port::new(Direction::Outgoing, o.1)));
                        we.extend(g.links.iter().filter(|l| l.0 == o).map(|l| (Some(l.1.0), Port::new(Direction::Incoming, l.1.1))));
                    } else {
                        ends.clear();
                    }
                    ensure_eq!(ends, we, "the wire at {k:?} {port:?} | {d} | set {mask:b}");
                }
            }
            nb.sort();
            let mut gn: Vec<Option<Id>> = p.neighbours(n, dir).map(name).collect();
            gn.sort();
            ensure_eq!(gn, nb, "neighbours of {k:?} {dir:?} | {d} | set {mask:b}");
            nb_all.extend(nb);
        }
        nb_all.sort();
        let mut gn: Vec<Option<Id>> = p.all_neighbours(n).map(name).collect();
        gn.sort();
        ensure_eq!(gn, nb_all, "all_neighbours of {k:?} | {d} | set {mask:b}");
        for &k2 in &g.nodes {
            let wc: BTreeSet<(usize, usize)> = g.links.iter().filter(|l| l.0.0 == k && l.1.0 == k2).map(|l| (l.0.1, l.1.1)).collect();
            let gc: Vec<(usize, usize)> = p.node_connections(n, w.p(k2)).map(|[a, b]| (a.index(), b.index())).collect();
            ensure_eq!(gc.len(), wc.len(), "number of node_connections {k:?} {k2:?} | {d} | set {mask:b}");
            ensure_eq!(gc.into_iter().collect::<BTreeSet<_>>(), wc, "node_connections {k:?} {k2:?} | {d} | set {mask:b}");
        }
        ensure_eq!(p.node_metadata_map(n), h.node_metadata_map(live[&k]), "metadata of {k:?} | {d}");
    }
    for k in [(0, entry), (0, w.base.module_root())] {
        let mut a: Vec<Option<Id>> = p.descendants(w.p(k)).map(name).collect();
        a.sort();
        let mut z: Vec<Option<Id>> = h.descendants(live[&k]).map(|n| Some(back[&n])).collect();
        z.sort();
        ensure_eq!(a, z, "descendants of {k:?} | {d} | set {mask:b}");
        let (x, m) = p.extract_hugr(w.p(k));
        let mut got: Vec<Link> = vec![];
        let inv: BTreeMap<Node, Id> = g.nodes.iter().filter(|n| z.contains(&Some(**n))).map(|n| (m.extracted_node(w.p(*n)), *n)).collect();
        for ((a, p), (b, q)) in raw_links(&x) {
            if let (Some(a), Some(b)) = (inv.get(&a), inv.get(&b)) {
                got.push(((*a, p), (*b, q)));
            }
        }
        got.sort();
        let within: Vec<Link> = g.links.iter().filter(|l| z.contains(&Some(l.0.0)) && z.contains(&Some(l.1.0)) && l.0.0 != k && l.1.0 != k).copied().collect();
        ensure_eq!(got, within, "links of the HUGR extracted at {k:?} | {d} | set {mask:b}");
    }
    // regions as graphs
    use hugr_core::hugr::internal::{HugrInternals, PortgraphNodeMap};
    let (reg, nm) = p.region_portgraph(p.entrypoint());
    let mut rn: Vec<Option<Id>> = portgraph::PortView::nodes_iter(&reg).map(|x| name(nm.from_portgraph(x))).collect();
    rn.sort();
    let (reg2, nm2) = h.region_portgraph(h.entrypoint());
    let mut rn2: Vec<Option<Id>> = portgraph::PortView::nodes_iter(&reg2).map(|x| Some(back[&nm2.from_portgraph(x)])).collect();
    rn2.sort();
    ensure_eq!(rn, rn2, "nodes of the region's graph | {d} | set {mask:b}");
    ensure!(!p.mermaid_string().is_empty(), "mermaid | {d}");
    Ok(())
}

macro_rules! stored {
    ($t:ident, $cfg:expr) => {
        #[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
        #[serde(from = "String", into = "String")]
        struct $t(String);
        impl From<String> for $t {
            fn from(x: String) -> Self {
                $t(x)
            }
        }
        impl From<$t> for String {
            fn from(x: $t) -> Self {
                x.0
            }
        }
        impl From<Hugr> for $t {
            #[allow(deprecated)]
            fn from(h: Hugr) -> Self {
                $t(h.store_str($cfg).expect("stored"))
            }
        }
        impl From<$t> for Hugr {
            fn from(s: $t) -> Hugr {
                Hugr::load_str(s.0, None).expect("loaded")
            }
        }
    };
}
stored!(Text, EnvelopeConfig::text());
stored!(Json, EnvelopeConfig::new(EnvelopeFormat::PackageJson));
/// Whether the way of storing HUGRs keeps the numbers of the nodes.
fn keeps<H: From<Hugr> + Into<Hugr>>(h: &Hugr) -> bool {
    let l: Hugr = H::from(h.clone()).into();
    l.nodes().map(|n| (n, l.get_optype(n).clone())).collect::<Vec<_>>() == h.nodes().map(|n| (n, h.get_optype(n).clone())).collect::<Vec<_>>() && raw_links(&l).into_iter().collect::<BTreeSet<_>>() == raw_links(h).into_iter().collect::<BTreeSet<_>>()
}

fn bases() -> Vec<(&'static str, Hugr)> {
    let mut v = vec![];
    {
        let mut f = DFGBuilder::new(endo_sig(vec![bool_t()])).unwrap();
        let mut x = f.input_wires().next().unwrap();
        for _ in 0..3 {
            x = f.add_dataflow_op(LogicOp::Not, [x]).unwrap().out_wire(0);
        }
        v.push(("x→¬→¬→¬", f.finish_hugr_with_outputs([x]).unwrap()));
    }
    {
        let mut f = FunctionBuilder::new("f", endo_sig(vec![bool_t(); 2])).unwrap();
        let [x, y] = f.input_wires_arr();
        let n = f.add_dataflow_op(LogicOp::Not, [x]).unwrap().out_wire(0);
        let a = f.add_dataflow_op(LogicOp::And, [n, y]).unwrap().out_wire(0);
        v.push(("¬x ∧ y, ¬x", f.finish_hugr_with_outputs([a, n]).unwrap()));
    }
    {
        let mut f = DFGBuilder::new(Signature::new(vec![bool_t()], vec![bool_t(); 3])).unwrap();
        let [x] = f.input_wires_arr();
        let n = f.add_dataflow_op(LogicOp::Not, [x]).unwrap().out_wire(0);
        let m = f.add_dataflow_op(LogicOp::Not, [x]).unwrap().out_wire(0);
        let _unused = f.add_dataflow_op(LogicOp::Not, [m]).unwrap();
        let a = f.add_dataflow_op(LogicOp::And, [n, m]).unwrap().out_wire(0);
        v.push(("¬x ∧ ¬x twice, x, an unused ¬", f.finish_hugr_with_outputs([a, a, x]).unwrap()));
    }
    {
        let mut f = DFGBuilder::new(Signature::new(vec![bool_t()], vec![bool_t()])).unwrap();
        let [x] = f.input_wires_arr();
        let n = f.add_dataflow_op(LogicOp::And, [x, x]).unwrap().out_wire(0);
        let m = f.add_dataflow_op(LogicOp::Or, [n, x]).unwrap().out_wire(0);
        v.push(("(x∧x)∨x", f.finish_hugr_with_outputs([m]).unwrap()));
    }
    {
        // a→b and c→d: two convex pairs that can be replaced apart but not together
        let mut f = DFGBuilder::new(endo_sig(vec![bool_t(); 2])).unwrap();
        let [x, y] = f.input_wires_arr();
        let a = f.add_dataflow_op(LogicOp::Not, [x]).unwrap().out_wire(0);
        let b = f.add_dataflow_op(LogicOp::Not, [a]).unwrap().out_wire(0);
        let c = f.add_dataflow_op(LogicOp::Not, [y]).unwrap().out_wire(0);
        let e = f.add_dataflow_op(LogicOp::Not, [c]).unwrap().out_wire(0);
        v.push(("¬¬x, ¬¬y", f.finish_hugr_with_outputs([b, e]).unwrap()));
    }
    v
}
fn replacement(kind: usize, sig: &Signature) -> Option<Hugr> {
    let (m, k) = (sig.input_count(), sig.output_count());
    if m == 0 {
        return None;
    }
    let mut f = DFGBuilder::new(sig.clone()).unwrap();
    let ins: Vec<_> = f.input_wires().collect();
    let mut not = |f: &mut DFGBuilder<Hugr>, x| f.add_dataflow_op(LogicOp::Not, [x]).unwrap().out_wire(0);
    let outs: Vec<_> = match kind {
        // wires only
        0 => (0..k).map(|i| ins[i % m]).collect(),
        // an operation per output
        1 => (0..k).map(|i| not(&mut f, ins[i % m])).collect(),
        // a chain; the remaining outputs are wires, backwards
        2 => (0..k)
            .map(|i| {
                if i == 0 {
                    let x = not(&mut f, ins[0]);
                    not(&mut f, x)
                } else {
                    ins[(m - 1 + i) % m]
                }
            })
            .collect(),
        // one operation reads everything and feeds all outputs
        3 => {
            let mut x = ins[0];
            for y in ins.iter().skip(1) {
                x = f.add_dataflow_op(LogicOp::And, [x, *y]).unwrap().out_wire(0);
            }
            if m == 1 {
                x = f.add_dataflow_op(LogicOp::And, [x, x]).unwrap().out_wire(0);
            }
            vec![x; k]
        }
        _ => {
            // an unused operation, and outputs rotated
            let _ = not(&mut f, ins[m - 1]);
            (0..k).map(|i| ins[(i + 1) % m]).collect()
        }
    };
    let mut h = f.finish_hugr_with_outputs(outs).unwrap();
    for n in h.nodes().collect::<Vec<_>>() {
        h.set_metadata(n, "repl", kind);
    }
    Some(h)
}
fn describe(r: &PersistentReplacement, w: &W) -> C {
    let h = r.replacement();
    let [i, o] = h.get_io(h.entrypoint()).unwrap();
    let id = |n: PatchNode| w.id(n).expect("known commit");
    let mut c = C { del: r.subgraph().nodes().iter().map(|n| id(*n)).collect(), ..C::default() };
    c.parents = c.del.iter().map(|d| d.0).collect();
    c.inc = r.subgraph().incoming_ports().iter().map(|g| g.iter().map(|(n, p)| (id(*n), p.index())).collect()).collect();
    c.out = r.subgraph().outgoing_ports().iter().map(|(n, p)| (id(*n), p.index())).collect();
    c.nodes = h.children(h.entrypoint()).filter(|n| *n != i && *n != o).collect();
    c.outs = vec![Src::In(0); c.out.len()];
    for ((a, p), (b, q)) in raw_links(h) {
        if h.get_parent(a) != Some(h.entrypoint()) {
            continue;
        }
        if b == o {
            c.outs[q] = if a == i { Src::In(p) } else { Src::At(a, p) };
        } else if a == i {
            c.from_in.push((p, (b, q)));
        } else {
            c.inner.push(((a, p), (b, q)));
        }
    }
    c
}

fn history(c: &mut Chooser, cov: &mut Cov, base: &Hugr, bname: &str, steps: usize, sizes: usize, kinds: usize) -> Res {
    let ss = CommitStateSpace::new();
    let bc = ss.try_set_base(base.clone()).expect("base");
    ensure!(ss.try_set_base(base.clone()).is_none(), "a second base was accepted");
    let mut keep: Vec<Commit> = vec![bc.clone()];
    let mut w = W { base, cs: vec![], repls: vec![], ids: vec![bc.id()] };
    let mut d = bname.to_string();
    let mut given: Vec<bool> = vec![];
    let entry = base.entrypoint();
    for step in 0..steps {
        if step > 0 && !c.flag() {
            break;
        }
        // on top of which commits
        let sets: Vec<usize> = (0..1usize << w.cs.len()).map(|m| m << 1 | 1).filter(|m| w.closure(*m) == *m && !w.conflict(*m) && !w.result(*m).is_ok_and(|g| g.cyclic())).collect();
        let mask = *c.pick(&sets);
        let p = match ss.try_create(w.all(mask).into_iter().map(|i| w.ids[i])) {
            Ok(p) => p,
            Err(e) => return bad(format!("a compatible set of commits was refused: {e} | {d} | set {mask:b}")),
        };
        let g = w.result(mask).expect("model");
        let mut ops: Vec<Id> = g.nodes.iter().filter(|n| (n.0 != 0 || base.get_parent(n.1) == Some(entry)) && !w.op(**n).is_input() && !w.op(**n).is_output()).copied().collect();
        if ops.is_empty() {
            return Err(Fail::Skip);
        }
        let mut s: BTreeSet<Id> = BTreeSet::new();
        let first = c.choose(ops.len());
        s.insert(ops[first]);
        ops.drain(..=first);
        for _ in 1..sizes {
            let k = c.choose(ops.len() + 1);
            if k == 0 {
                break;
            }
            s.insert(ops[k - 1]);
            ops.drain(..k);
        }
        let kind = c.choose(kinds);
        // convex?
        let mut seen = BTreeSet::new();
        let mut todo: Vec<Id> = g.links.iter().filter(|l| s.contains(&l.0.0) && !s.contains(&l.1.0)).map(|l| l.1.0).collect();
        let mut convex = true;
        while let Some(n) = todo.pop() {
            if s.contains(&n) {
                convex = false;
                break;
            }
            if seen.insert(n) {
                todo.extend(g.links.iter().filter(|l| l.0.0 == n).map(|l| l.1.0));
            }
        }
        let sub = SiblingSubgraph::try_from_nodes(s.iter().map(|n| w.p(*n)).collect::<Vec<_>>(), &p);
        if !convex {
            ensure!(sub.is_err(), "a set of nodes that is not convex was accepted: {s:?} | {d}");
            return Err(Fail::Skip);
        }
        let sub = match sub {
            Ok(x) => x,
            Err(e) => return bad(format!("subgraph {s:?} of a persistent HUGR refused: {e} | {d} | set {mask:b}")),
        };
        let inc: BTreeSet<(Option<Id>, usize)> = sub.incoming_ports().iter().flatten().map(|(n, p)| (w.id(*n), p.index())).collect();
        let winc: BTreeSet<(Option<Id>, usize)> = g.links.iter().filter(|l| s.contains(&l.1.0) && !s.contains(&l.0.0)).map(|l| (Some(l.1.0), l.1.1)).collect();
        ensure_eq!(inc, winc, "inputs of the subgraph {s:?} | {d} | set {mask:b}");
        let out: BTreeSet<(Option<Id>, usize)> = sub.outgoing_ports().iter().map(|(n, p)| (w.id(*n), p.index())).collect();
        let wout: BTreeSet<(Option<Id>, usize)> = g.links.iter().filter(|l| s.contains(&l.0.0) && !s.contains(&l.1.0)).map(|l| (Some(l.0.0), l.0.1)).collect();
        ensure_eq!(out, wout, "outputs of the subgraph {s:?} | {d} | set {mask:b}");
        let Some(rh) = replacement(kind, &sub.signature(&p)) else { return Err(Fail::Skip) };
        let r = match PersistentReplacement::try_new(sub, &p, rh) {
            Ok(r) => r,
            Err(e) => return bad(format!("replacement refused: {e} | {d}")),
        };
        d.push_str(&format!("; on {mask:b} replace {s:?} by {kind}"));
        let desc = describe(&r, &w);
        // what sequential rewriting gives is an acyclic graph
        let direct = g.apply(step + 1, &desc);
        ensure!(direct.as_ref().is_ok_and(|g| !g.cyclic()), "HARNESS direct application {direct:?} | {d}");
        // can the parents be inferred from the deleted nodes?
        let own = desc.parents.iter().fold(0, |m, i| m | 1usize << i);
        let inside = |g: &G| -> (Vec<Link>, BTreeSet<(Id, usize)>) {
            (
                g.links.iter().filter(|l| s.contains(&l.0.0) && s.contains(&l.1.0)).copied().collect(),
                g.links.iter().filter(|l| s.contains(&l.0.0) && !s.contains(&l.1.0)).map(|l| l.0).collect(),
            )
        };
        let g0 = w.result(w.closure(own)).expect("model");
        let inferred = inside(&g0) == inside(&g) && g0.apply(step + 1, &desc).is_ok_and(|g| !g.cyclic());
        let mut desc = desc;
        let made = if inferred {
            Commit::try_from_replacement(r.clone(), &ss)
        } else {
            desc.parents.extend(w.all(mask));
            cov.outcome("commit with given parents");
            Commit::try_new(r.clone(), w.all(mask).into_iter().map(|i| keep[i].clone()).collect::<Vec<_>>(), &ss)
        };
        given.push(!inferred);
        let cm = match made {
            Ok(x) => x,
            Err(e) => return bad(format!("commit refused: {e} | {d}")),
        };
        cov.step(1);
        w.ids.push(cm.id());
        w.cs.push(desc);
        w.repls.push(r);
        keep.push(cm);
    }
    cov.describe(|| d.clone());
    cov.state(&d);
    let n = w.cs.len();
    // `keep` outlives the persistent HUGRs below; the commits stay in the registry
    let full_last = 1usize << n;
    for mask in 0..1usize << (n + 1) {
        if mask == 0 {
            continue;
        }
        let cl = w.closure(mask);
        // sets without the last commit are those of a shorter history
        let new = cl & full_last != 0;
        let ok = !w.conflict(cl);
        let got = ss.try_create(w.all(mask).into_iter().map(|i| w.ids[i]));
        cov.trace();
        match (&got, ok) {
            (Ok(_), false) => return bad(format!("a set with a conflict was accepted | {d} | set {mask:b}")),
            (Err(e), true) => return bad(format!("a compatible set was refused: {e} | {d} | set {mask:b}")),
            (Err(InvalidCommit::IncompatibleHistory(..)), false) => cov.outcome("conflict"),
            (Err(e), false) => return bad(format!("a conflict was reported as {e} | {d} | set {mask:b}")),
            (Ok(_), true) => cov.outcome("compatible"),
        }
        if let Ok(p) = got {
            check(&w, &p, cl, new && mask == cl, cov, &d)?;
            if new && mask == cl {
                // stored and loaded
                let ser = p.to_serial();
                let js = serde_json::to_string(&ser).expect("json");
                let ser: SerialPersistentHugr = serde_json::from_str(&js).expect("json");
                check(&w, &PersistentHugr::from_serial(ser, &ss), cl, false, cov, &format!("from_serial | {d}"))?;
            }
        }
        if !new || n == 0 {
            continue;
        }
        // backwards
        let back = PersistentHugr::try_new(w.all(mask).into_iter().rev().map(|i| keep[i].clone()));
        ensure_eq!(back.is_ok(), ok, "try_new with the commits listed backwards | {d} | set {mask:b}");
        if let Ok(p) = back {
            check(&w, &p, cl, false, cov, &format!("listed backwards | {d}"))?;
        }
    }
    // every order of adding the commits one by one, and all at once to every start
    let mut perm: Vec<usize> = (0..=n).collect();
    let mut perms = vec![];
    fn permute(k: usize, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == p.len() {
            out.push(p.clone());
            return;
        }
        for i in k..p.len() {
            p.swap(k, i);
            permute(k + 1, p, out);
            p.swap(k, i);
        }
    }
    permute(0, &mut perm, &mut perms);
    for o in &perms {
        let mut p = PersistentHugr::from_commit(keep[o[0]].clone());
        let mut have = w.closure(1 << o[0]);
        // queries in between fill the caches
        for (j, &i) in o.iter().enumerate().skip(1) {
            for k in w.all(have) {
                let _ = p.children_commits(w.ids[k]).count();
            }
            let want = w.closure(have | 1 << i);
            let ok = !w.conflict(want);
            let r = p.try_add_commit(keep[i].clone());
            ensure_eq!(r.is_ok(), ok, "adding commit {i} to {have:b} ({r:?}), order {o:?} | {d}");
            if let Ok(x) = r {
                ensure_eq!(x, w.ids[i], "the commit's id | {d}");
                have = want;
            } else {
                // as many compatible commits as possible are added
                let now = p.all_commit_ids().map(|x| w.ids.iter().position(|y| *y == x).map(|i| 1usize << i)).try_fold(0usize, |a, x| x.map(|x| a | x));
                let Some(now) = now else { return bad(format!("an unknown commit was added | {d}")) };
                ensure!(now & have == have && now & want == now && w.closure(now) == now && !w.conflict(now), "a failed addition left the commits {now:b}; before {have:b}, order {o:?} | {d}");
                have = now;
            }
            if w.result(have).is_ok_and(|g| g.cyclic()) {
                break;
            }
            let last = j + 1 == o.len();
            if last {
                check(&w, &p, have, true, cov, &format!("order {o:?} | {d}"))?;
            } else {
                let _ = guard(|| p.to_hugr());
            }
        }
    }
    for i in 0..=n {
        for mask in 1..1usize << n {
            let mask = mask << 1;
            if (mask | 1 << i) & full_last == 0 {
                continue;
            }
            let mut p = PersistentHugr::from_commit(keep[i].clone());
            let have = w.closure(1 << i);
            let want = w.closure(have | mask);
            let ok = !w.conflict(want);
            let r = p.try_add_commits(w.members(mask).map(|i| keep[i].clone()));
            ensure_eq!(r.is_ok(), ok, "adding {mask:b} at once to {have:b} ({r:?}) | {d}");
            let now = p.all_commit_ids().map(|x| w.ids.iter().position(|y| *y == x).map(|i| 1usize << i)).try_fold(0usize, |a, x| x.map(|x| a | x));
            let Some(now) = now else { return bad(format!("an unknown commit was added | {d}")) };
            if ok {
                ensure_eq!(now, want, "adding {mask:b} at once to {have:b} | {d}");
            } else {
                ensure!(now & have == have && now & want == now && w.closure(now) == now && !w.conflict(now), "a failed addition of {mask:b} left the commits {now:b}; before {have:b} | {d}");
            }
            if !w.result(now).is_ok_and(|g| g.cyclic()) {
                check(&w, &p, now, false, cov, &format!("{mask:b} at once to {have:b} | {d}"))?;
            }
        }
    }
    // the last replacement on every other set of commits
    if n > 0 {
        let last = w.cs[n - 1].clone();
        for mask in 0..1usize << (n - 1) {
            let mask = mask << 1 | 1;
            if w.closure(mask) != mask || w.conflict(mask) {
                continue;
            }
            let mut p = ss.try_create(w.all(mask).into_iter().map(|i| w.ids[i])).map_err(|e| Fail::Bad { key: String::new(), msg: format!("compatible set refused: {e} | {d}") })?;
            // parents that cannot be read off the deleted nodes have to be given explicitly
            if given[n - 1] {
                continue;
            }
            let clash = w.members(mask).any(|i| w.cs[i - 1].del.intersection(&last.del).next().is_some());
            let known = last.parents.iter().all(|i| mask >> i & 1 == 1);
            let before: BTreeSet<CommitId> = p.all_commit_ids().collect();
            let r = guard(|| p.try_add_replacement(w.repls[n - 1].clone()));
            let r = match r {
                Ok(r) => r,
                Err(e) => return bad(format!("try_add_replacement panics: {e} | {d} | on {mask:b}")),
            };
            match (&r, known, clash) {
                (Ok(_), true, false) => {}
                (Err(InvalidCommit::UnknownParent(_)), false, _) => {}
                (Err(InvalidCommit::IncompatibleHistory(..)), _, true) => {}
                _ => return bad(format!("try_add_replacement on {mask:b} gives {r:?}; parents present: {known}, conflict: {clash} | {d}")),
            }
            if let Ok(id) = r {
                // the same as the commit made before, under its own id
                let mut w2 = W { base, cs: w.cs.clone(), repls: w.repls.clone(), ids: w.ids.clone() };
                w2.ids[n] = id;
                if !w2.result(mask | full_last).is_ok_and(|g| g.cyclic()) {
                    check(&w2, &p, mask | full_last, false, cov, &format!("try_add_replacement | {d}"))?;
                }
            } else {
                ensure_eq!(p.all_commit_ids().collect::<BTreeSet<_>>(), before, "a refused replacement changed the persistent HUGR | {d}");
            }
        }
    }
    reload::<Json>(&w, &ss, cov, "json", &d)?;
    reload::<Text>(&w, &ss, cov, "text", &d)
}
/// The state space stored and loaded.
fn reload<H: From<Hugr> + Into<Hugr> + Clone + serde::Serialize + serde::de::DeserializeOwned>(w: &W, ss: &CommitStateSpace, cov: &mut Cov, how: &str, d: &str) -> Res {
    let n = w.cs.len();
    let same = keeps::<H>(w.base) && w.repls.iter().all(|r| keeps::<H>(r.replacement()));
    let mut ser = ss.to_serial::<H>();
    let mut sets = vec![];
    for mask in 0..1usize << n {
        let mask = mask << 1 | 1;
        if w.closure(mask) == mask && !w.conflict(mask) && !w.result(mask).is_ok_and(|g| g.cyclic()) {
            ser.add_hugr(ss.try_create(w.all(mask).into_iter().map(|i| w.ids[i])).expect("compatible"));
            sets.push(mask);
        }
    }
    let js = serde_json::to_string(&ser).expect("json");
    let again: SerialCommitStateSpace<H> = match serde_json::from_str(&js) {
        Ok(x) => x,
        Err(e) => return bad(format!("the stored state space is not read back: {e} | {how} | {d}")),
    };
    let r = guard(|| {
        let hs = PersistentHugr::from_serial_state_space(again.clone());
        ensure_eq!(hs.len(), sets.len(), "persistent HUGRs loaded | {d}");
        for (p, mask) in hs.iter().zip(&sets) {
            check_loaded(w, p, *mask, cov, &format!("{how} | {d}"))?;
            if same {
                check(w, p, *mask, mask >> n & 1 == 1, cov, &format!("loaded, {how} | {d}"))?;
            }
        }
        if let Some(p) = hs.first() {
            let mut s2 = p.state_space().to_serial::<H>();
            for p in hs.iter() {
                s2.add_hugr(p.clone());
            }
            if same {
                ensure_eq!(serde_json::to_value(&s2).unwrap(), serde_json::from_str::<serde_json::Value>(&js).unwrap(), "storing the loaded state space again | {how} | {d}");
            }
        }
        Ok(())
    });
    cov.outcome(if same { "nodes keep their numbers" } else { "nodes are renumbered" });
    let r = match r {
        Ok(r) => r,
        Err(e) => bad(format!("loading panics: {e} | {how} | {d}")),
    };
    match r {
        Err(Fail::Bad { msg, .. }) if !same => bad_key("state-space-renumbered", format!("a format that renumbers nodes: {msg}")),
        r => r,
    }
}
/// Nodes keep their numbers only up to the storage format, so the loaded HUGR is compared by shape.
fn check_loaded(w: &W, p: &PersistentHugr, mask: usize, cov: &mut Cov, d: &str) -> Res {
    cov.trace();
    let want: BTreeSet<CommitId> = w.all(mask).into_iter().map(|i| w.ids[i]).collect();
    ensure_eq!(p.all_commit_ids().collect::<BTreeSet<_>>(), want, "commits after storing and loading | {d} | set {mask:b}");
    if let Err(e) = p.is_valid() {
        return bad(format!("loaded: is_valid: {e} | {d}"));
    }
    let h = p.to_hugr();
    if let Err(e) = h.validate() {
        return bad(format!("loaded: invalid: {e} | {d}"));
    }
    let g = w.result(mask).expect("model");
    // shape: trace every output back to its inputs
    fn term(src: &dyn Fn((Id, usize)) -> Option<(Id, usize)>, op: &dyn Fn(Id) -> OpType, at: (Id, usize), ins: usize) -> String {
        let o = op(at.0);
        if o.is_input() {
            return format!("in{}", at.1);
        }
        let n = if ins > 0 { o.value_input_count() } else { 0 };
        format!("{o}.{}({})", at.1, (0..n).map(|i| src((at.0, i)).map_or("?".into(), |s| term(src, op, s, ins))).collect::<Vec<_>>().join(","))
    }
    let read = |g: &G, op: &dyn Fn(Id) -> OpType, outn: Id| -> Vec<String> {
        (0..op(outn).value_input_count()).map(|i| g.source((outn, i)).map_or("?".into(), |s| term(&|x| g.source(x), op, s, 1))).collect()
    };
    let [_, o] = w.base.get_io(w.base.entrypoint()).unwrap();
    let a = read(&g, &|n| w.op(n).clone(), (0, o));
    let hg = G::base(&h);
    let [_, o2] = h.get_io(h.entrypoint()).unwrap();
    let b = read(&hg, &|n| h.get_optype(n.1).clone(), (0, o2));
    ensure_eq!(b, a, "outputs after storing and loading | {d} | set {mask:b}");
    ensure_eq!(h.num_nodes(), g.nodes.len(), "nodes after storing and loading | {d} | set {mask:b}");
    ensure_eq!(p.num_nodes(), g.nodes.len(), "num_nodes after storing and loading | {d} | set {mask:b}");
    let mut deleted = 0;
    for i in w.all(mask) {
        deleted += p.deleted_nodes(w.ids[i]).count();
    }
    ensure_eq!(deleted, w.members(mask).map(|i| w.cs[i - 1].del.len()).sum::<usize>(), "deleted nodes after storing and loading | {d} | set {mask:b}");
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.assume("replacements are flat graphs for nodes directly within the entrypoint's region, without order edges: the library documents other regions and edges as not yet supported");
    r.assume("an addition refused for a conflict may leave some of the new ancestors behind, as its documentation says; what is left must be a valid combination");
    let deep = !r.quick();
    for steps in if deep { vec![2, 4] } else { vec![2, 3] } {
        for (name, h) in bases() {
            let (sizes, kinds) = if deep { (3, 5) } else { (2, 4) };
            r.family(&format!("{steps} commits: {name}"), &format!("every history of at most {steps} commits, each on every compatible set of earlier ones, replacing every convex set of at most {sizes} operations by {kinds} replacements; every subset, listing, insertion order and joint addition of the commits; storing and loading"), if steps == 2 { r.b(12.0, 60.0) } else { r.b(14.0, 500.0) }, move |c, cov| {
                history(c, cov, &h, name, steps, sizes, kinds)
            });
        }
    }
}
