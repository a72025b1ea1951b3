//! C01: graph edits against a plain ordered tree with ports.
use crate::explore::*;
use crate::{ensure, ensure_eq};
use hugr_core::extension::prelude::{Noop, bool_t};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::hugr::views::ExtractionResult;
use hugr_core::ops::{self, OpType, dataflow::IOTrait};
use hugr_core::types::Signature;
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

type Id = usize;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum O {
    Module,
    Func,
    Dfg,
    Noop,
    Input,
    Output,
    Const,
}
impl O {
    pub fn op(self) -> OpType {
        let sig = Signature::new(vec![bool_t()], vec![bool_t()]);
        match self {
            O::Module => ops::Module::new().into(),
            O::Func => ops::FuncDefn::new("f", sig).into(),
            O::Dfg => ops::DFG { signature: sig }.into(),
            O::Noop => Noop::new(bool_t()).into(),
            O::Input => ops::Input::new(vec![bool_t()]).into(),
            O::Output => ops::Output::new(vec![bool_t()]).into(),
            O::Const => ops::Const::new(ops::Value::true_val()).into(),
        }
    }
    /// number of ports the specification gives the operation: (incoming, outgoing)
    fn ports(self) -> (usize, usize) {
        match self {
            O::Module => (0, 0),
            O::Func => (0, 1),
            O::Const => (0, 1),
            O::Dfg | O::Noop => (2, 2),
            O::Input => (0, 2),
            O::Output => (2, 0),
        }
    }
    fn order_out(self) -> Option<usize> {
        match self {
            O::Dfg | O::Noop | O::Input => Some(1),
            _ => None,
        }
    }
    fn order_in(self) -> Option<usize> {
        match self {
            O::Dfg | O::Noop | O::Output => Some(1),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
struct N {
    op: O,
    nin: usize,
    nout: usize,
    parent: Option<Id>,
    children: Vec<Id>,
    meta: BTreeMap<String, Value>,
}
/// The reference: a plain ordered tree with ports.
#[derive(Clone, Debug)]
struct Model {
    n: BTreeMap<Id, N>,
    next: Id,
    links: Vec<((Id, usize), (Id, usize))>,
    entry: Id,
    root: Id,
}
impl Model {
    fn add(&mut self, op: O) -> Id {
        let (nin, nout) = op.ports();
        self.n.insert(self.next, N { op, nin, nout, parent: None, children: vec![], meta: BTreeMap::new() });
        self.next += 1;
        self.next - 1
    }
    fn detach(&mut self, x: Id) {
        if let Some(p) = self.n[&x].parent {
            self.n.get_mut(&p).unwrap().children.retain(|c| *c != x);
            self.n.get_mut(&x).unwrap().parent = None;
        }
    }
    fn put(&mut self, x: Id, p: Id, at: Option<usize>) {
        self.detach(x);
        let ch = &mut self.n.get_mut(&p).unwrap().children;
        match at {
            None => ch.push(x),
            Some(i) => ch.insert(i, x),
        }
        self.n.get_mut(&x).unwrap().parent = Some(p);
    }
    fn beside(&mut self, x: Id, s: Id, after: bool) {
        self.detach(x);
        let p = self.n[&s].parent.unwrap();
        let i = self.n[&p].children.iter().position(|c| *c == s).unwrap();
        self.put(x, p, Some(i + after as usize));
    }
    fn remove(&mut self, x: Id) {
        self.detach(x);
        for c in self.n[&x].children.clone() {
            self.n.get_mut(&c).unwrap().parent = None;
        }
        self.n.remove(&x);
        self.links.retain(|(a, b)| a.0 != x && b.0 != x);
    }
    fn desc(&self, x: Id) -> Vec<Id> {
        let mut v = vec![x];
        let mut i = 0;
        while i < v.len() {
            v.extend(self.n[&v[i]].children.iter().copied());
            i += 1;
        }
        v
    }
    fn orphans(&self) -> bool {
        self.n.iter().any(|(i, n)| *i != self.root && n.parent.is_none())
    }
    fn clip(&mut self, x: Id) {
        let (i, o) = (self.n[&x].nin, self.n[&x].nout);
        self.links.retain(|(a, b)| !(a.0 == x && a.1 >= o) && !(b.0 == x && b.1 >= i));
    }
    fn canon(&self) -> String {
        format!("{:?}|{:?}|{}|{}", self.n, self.links, self.entry, self.root)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Add(Id, O),
    Before(Id, O),
    After(Id, O),
    Remove(Id),
    RemoveSubtree(Id),
    SetParent(Id, Id),
    MoveAfter(Id, Id),
    MoveBefore(Id, Id),
    Connect(Id, usize, Id, usize),
    Disconnect(Id, Direction, usize),
    Other(Id, Id),
    NumPorts(Id, usize, usize),
    AddPorts(Id, Direction, isize),
    InsertPorts(Id, Direction, usize, usize),
    Replace(Id, O),
    OpMut(Id, O),
    Set(Id, &'static str, i32),
    GetMut(Id, &'static str),
    RemoveMeta(Id, &'static str),
    Entry(Id),
    CopyDesc(Id, Id),
    InsHugr(Id),
    InsRegion(Id, usize),
    InsView(Id),
    InsSelf(Id, Id),
    Canon,
    Extract(Id),
}

struct Sys {
    h: Hugr,
    m: Model,
    node: BTreeMap<Id, Node>,
}

/// A small other graph to insert: module > func(entry) > [input, dfg > [noop], output], wired and annotated.
fn other() -> (Hugr, Vec<Node>) {
    let mut h = Hugr::new();
    let f = h.add_node_with_parent(h.module_root(), O::Func.op());
    let x = h.add_node_with_parent(h.module_root(), O::Const.op());
    let out = h.add_node_with_parent(f, O::Output.op());
    let inp = h.add_node_before(out, O::Input.op());
    let d = h.add_node_with_parent(f, O::Dfg.op());
    let k = h.add_node_with_parent(d, O::Noop.op());
    h.connect(inp, 0, d, 0);
    h.connect(d, 0, out, 0);
    h.connect(inp, 1, d, 1);
    h.connect(inp, 0, k, 0);
    h.set_metadata(d, "k", 7);
    h.set_metadata(f, "k", "f");
    h.set_entrypoint(f);
    (h, vec![f, inp, out, d, k, x])
}
const OTHER_OPS: [O; 6] = [O::Func, O::Input, O::Output, O::Dfg, O::Noop, O::Const];

impl Sys {
    fn start(k: usize) -> Sys {
        let mut s = Sys {
            h: Hugr::new(),
            m: Model { n: BTreeMap::new(), next: 0, links: vec![], entry: 0, root: 0 },
            node: BTreeMap::new(),
        };
        s.m.add(O::Module);
        s.node.insert(0, s.h.module_root());
        let mut ap = |op: Op| s.apply(&op).ok().expect("start graph");
        match k {
            0 => {}
            1 => {
                ap(Op::Add(0, O::Func));
                ap(Op::Add(1, O::Dfg));
                ap(Op::Add(1, O::Noop));
                ap(Op::Connect(2, 0, 3, 0));
                ap(Op::Set(2, "a", 1));
            }
            2 => {
                ap(Op::Add(0, O::Func));
                ap(Op::Add(1, O::Noop));
                ap(Op::Add(1, O::Noop));
                ap(Op::Connect(2, 0, 3, 0));
                ap(Op::Connect(2, 0, 3, 1));
                ap(Op::Connect(3, 1, 2, 0));
            }
            3 => {
                // canonical order differs from allocation order; entry inside
                ap(Op::Add(0, O::Func));
                ap(Op::Add(1, O::Dfg));
                ap(Op::Add(2, O::Noop));
                ap(Op::Before(2, O::Input));
                ap(Op::Before(1, O::Const));
                ap(Op::Connect(4, 0, 2, 0));
                ap(Op::Set(3, "a", 3));
                ap(Op::Set(5, "a", 5));
                ap(Op::Entry(2));
            }
            _ => unreachable!(),
        }
        s
    }
    fn id(&self, n: Node) -> Option<Id> {
        self.node.iter().find(|x| *x.1 == n).map(|x| *x.0)
    }
    fn fresh(&mut self, op: O, n: Node) -> Result<Id, Fail> {
        ensure!(self.id(n).is_none(), "a newly added node got the index of a live node {n}");
        let i = self.m.add(op);
        self.node.insert(i, n);
        Ok(i)
    }
    /// Adds to the model the copy of a subtree described by `ids` (in `src` coordinates).
    fn insert_model(&mut self, map: impl Fn(usize) -> Option<Node>, root: usize, parent: Id) -> Res {
        // other(): 0 func [1 input, 2 output, 3 dfg [4 noop]], 5 const
        let tree: &[(usize, Option<usize>)] = match root {
            0 => &[(0, None), (1, Some(0)), (2, Some(0)), (3, Some(0)), (4, Some(3))],
            3 => &[(3, None), (4, Some(3))],
            _ => unreachable!(),
        };
        let mut ids = BTreeMap::new();
        for (x, p) in tree {
            let Some(n) = map(*x) else { return bad(format!("inserted node {x} missing from the returned map")) };
            let i = self.fresh(OTHER_OPS[*x], n)?;
            ids.insert(*x, i);
            self.m.put(i, p.map(|p| ids[&p]).unwrap_or(parent), None);
        }
        for ((a, ap), (b, bp)) in [((1, 0), (3, 0)), ((3, 0), (2, 0)), ((1, 1), (3, 1)), ((1, 0), (4, 0))] {
            if let (Some(a), Some(b)) = (ids.get(&a), ids.get(&b)) {
                self.m.links.push(((*a, ap), (*b, bp)));
            }
        }
        for (x, v) in [(3, json!(7)), (0, json!("f"))] {
            if let Some(i) = ids.get(&x) {
                self.m.n.get_mut(i).unwrap().meta.insert("k".into(), v);
            }
        }
        Ok(())
    }

    fn apply(&mut self, op: &Op) -> Res {
        let nd = |s: &Sys, i: &Id| s.node[i];
        match op {
            Op::Add(p, o) => {
                let n = self.h.add_node_with_parent(nd(self, p), o.op());
                let i = self.fresh(*o, n)?;
                self.m.put(i, *p, None);
            }
            Op::Before(s, o) => {
                let n = self.h.add_node_before(nd(self, s), o.op());
                let i = self.fresh(*o, n)?;
                self.m.beside(i, *s, false);
            }
            Op::After(s, o) => {
                let n = self.h.add_node_after(nd(self, s), o.op());
                let i = self.fresh(*o, n)?;
                self.m.beside(i, *s, true);
            }
            Op::Remove(x) => {
                let old = self.h.remove_node(nd(self, x));
                ensure_eq!(old, self.m.n[x].op.op(), "remove_node returned the wrong operation");
                self.m.remove(*x);
                self.node.remove(x);
            }
            Op::RemoveSubtree(x) => {
                self.h.remove_subtree(nd(self, x));
                for d in self.m.desc(*x) {
                    self.m.remove(d);
                    self.node.remove(&d);
                }
            }
            Op::SetParent(x, p) => {
                self.h.set_parent(nd(self, x), nd(self, p));
                self.m.put(*x, *p, None);
            }
            Op::MoveAfter(x, s) => {
                self.h.move_after_sibling(nd(self, x), nd(self, s));
                self.m.beside(*x, *s, true);
            }
            Op::MoveBefore(x, s) => {
                self.h.move_before_sibling(nd(self, x), nd(self, s));
                self.m.beside(*x, *s, false);
            }
            Op::Connect(a, p, b, q) => {
                self.h.connect(nd(self, a), *p, nd(self, b), *q);
                self.m.links.push(((*a, *p), (*b, *q)));
            }
            Op::Disconnect(x, d, p) => {
                self.h.disconnect(nd(self, x), Port::new(*d, *p));
                self.m.links.retain(|(a, b)| match d {
                    Direction::Outgoing => *a != (*x, *p),
                    Direction::Incoming => *b != (*x, *p),
                });
            }
            Op::Other(a, b) => {
                let r = self.h.add_other_edge(nd(self, a), nd(self, b));
                let (p, q) = (self.m.n[a].op.order_out().unwrap(), self.m.n[b].op.order_in().unwrap());
                ensure_eq!((r.0.index(), r.1.index()), (p, q), "add_other_edge ports");
                self.m.links.push(((*a, p), (*b, q)));
            }
            Op::NumPorts(x, i, o) => {
                self.h.set_num_ports(nd(self, x), *i, *o);
                let n = self.m.n.get_mut(x).unwrap();
                n.nin = *i;
                n.nout = *o;
                self.m.clip(*x);
            }
            Op::AddPorts(x, d, k) => {
                let r = self.h.add_ports(nd(self, x), *d, *k);
                let n = self.m.n.get_mut(x).unwrap();
                let c = if *d == Direction::Incoming { &mut n.nin } else { &mut n.nout };
                let old = *c;
                *c = (*c as isize + k).max(0) as usize;
                if *k > 0 {
                    ensure_eq!(r, old..*c, "add_ports range");
                } else {
                    ensure!(r.is_empty(), "add_ports returned new ports when removing");
                }
                self.m.clip(*x);
            }
            Op::InsertPorts(x, d, at, k) => {
                let r = self.h.insert_ports(nd(self, x), *d, *at, *k);
                ensure_eq!(r, *at..*at + *k, "insert_ports range");
                let n = self.m.n.get_mut(x).unwrap();
                *(if *d == Direction::Incoming { &mut n.nin } else { &mut n.nout }) += k;
                for (a, b) in self.m.links.iter_mut() {
                    let e = if *d == Direction::Incoming { b } else { a };
                    if e.0 == *x && e.1 >= *at {
                        e.1 += k;
                    }
                }
            }
            Op::Replace(x, o) => {
                let old = self.h.replace_op(nd(self, x), o.op());
                ensure_eq!(old, self.m.n[x].op.op(), "replace_op returned the wrong operation");
                self.m.n.get_mut(x).unwrap().op = *o;
            }
            Op::OpMut(x, o) => {
                *self.h.optype_mut(nd(self, x)) = o.op();
                self.m.n.get_mut(x).unwrap().op = *o;
            }
            Op::Set(x, k, v) => {
                self.h.set_metadata(nd(self, x), k, *v);
                self.m.n.get_mut(x).unwrap().meta.insert(k.to_string(), json!(v));
            }
            Op::GetMut(x, k) => {
                let want = self.m.n[x].meta.get(*k).cloned().unwrap_or(Value::Null);
                let got = self.h.get_metadata_mut(nd(self, x), k).clone();
                ensure_eq!(got, want, "get_metadata_mut");
                self.m.n.get_mut(x).unwrap().meta.insert(k.to_string(), want);
            }
            Op::RemoveMeta(x, k) => {
                self.h.remove_metadata(nd(self, x), k);
                self.m.n.get_mut(x).unwrap().meta.remove(*k);
            }
            Op::Entry(x) => {
                self.h.set_entrypoint(nd(self, x));
                self.m.entry = *x;
            }
            Op::CopyDesc(r, p) => {
                let map = self.h.copy_descendants(nd(self, r), nd(self, p), None);
                let before = self.m.clone();
                let ds: Vec<Id> = before.desc(*r)[1..].to_vec();
                ensure_eq!(map.len(), ds.len(), "copy_descendants map size");
                let mut ids = BTreeMap::new();
                for d in &ds {
                    let Some(n) = map.get(&self.node[d]) else { return bad(format!("copy_descendants: no copy of {d}")) };
                    let i = self.fresh(before.n[d].op, *n)?;
                    ids.insert(*d, i);
                    let o = &before.n[d];
                    let t = self.m.n.get_mut(&i).unwrap();
                    t.nin = o.nin;
                    t.nout = o.nout;
                    t.meta = o.meta.clone();
                    let par = o.parent.unwrap();
                    self.m.put(i, if par == *r { *p } else { ids[&par] }, None);
                }
                for (a, b) in &before.links {
                    // edges within the copied set, and edges coming in from outside it
                    if let Some(y) = ids.get(&b.0) {
                        let src = ids.get(&a.0).copied().unwrap_or(a.0);
                        self.m.links.push(((src, a.1), (*y, b.1)));
                    }
                }
            }
            Op::InsHugr(p) => {
                let (o, ns) = other();
                let r = self.h.insert_hugr(nd(self, p), o);
                ensure_eq!(r.inserted_entrypoint, r.node_map[&ns[0]], "inserted_entrypoint");
                ensure_eq!(r.node_map.len(), 5, "insert_hugr map size");
                self.insert_model(|x| r.node_map.get(&ns[x]).copied(), 0, *p)?;
            }
            Op::InsRegion(p, root) => {
                let (o, ns) = other();
                let r = self.h.insert_region(nd(self, p), o, ns[*root]);
                ensure_eq!(r.inserted_entrypoint, r.node_map[&ns[*root]], "inserted_entrypoint");
                self.insert_model(|x| r.node_map.get(&ns[x]).copied(), *root, *p)?;
            }
            Op::InsView(p) => {
                let (o, ns) = other();
                let v = o.with_entrypoint(ns[3]);
                let r = self.h.insert_from_view(nd(self, p), &v);
                ensure_eq!(r.node_map.len(), 2, "insert_from_view map size");
                self.insert_model(|x| r.node_map.get(&ns[x]).copied(), 3, *p)?;
            }
            Op::InsSelf(p, r) => {
                // copy of a region of this very graph
                let src = self.h.clone();
                let res = self.h.insert_from_view(nd(self, p), &src.with_entrypoint(nd(self, r)));
                let before = self.m.clone();
                let mut ids = BTreeMap::new();
                let ds = before.desc(*r);
                ensure_eq!(res.node_map.len(), ds.len(), "insert_from_view map size");
                for d in &ds {
                    let Some(n) = res.node_map.get(&self.node[d]) else { return bad("node missing from map") };
                    let i = self.fresh(before.n[d].op, *n)?;
                    ids.insert(*d, i);
                    let o = &before.n[d];
                    let t = self.m.n.get_mut(&i).unwrap();
                    t.nin = o.nin;
                    t.nout = o.nout;
                    t.meta = o.meta.clone();
                    self.m.put(i, if d == r { *p } else { ids[&o.parent.unwrap()] }, None);
                }
                for (a, b) in &before.links {
                    if let (Some(x), Some(y)) = (ids.get(&a.0), ids.get(&b.0)) {
                        self.m.links.push(((*x, a.1), (*y, b.1)));
                    }
                }
            }
            Op::Canon => {
                let old = self.node.clone();
                let mut moved = BTreeMap::new();
                let mut twice = None;
                self.h.canonicalize_nodes(|a, b| {
                    if moved.insert(a, b).is_some() {
                        twice = Some(a);
                    }
                });
                // node ids become the breadth-first positions
                for (k, i) in self.m.desc(self.m.root).into_iter().enumerate() {
                    self.node.insert(i, Node::from(portgraph::NodeIndex::new(k)));
                }
                for (i, o) in &old {
                    let new = self.node[i];
                    match moved.get(o) {
                        Some(n) => ensure_eq!(*n, new, "canonicalize_nodes reported a wrong new index for {o}"),
                        None => ensure!(*o == new, "canonicalize_nodes did not report that {o} moved to {new}"),
                    }
                }
                ensure!(twice.is_none(), "canonicalize_nodes reported {twice:?} twice");
            }
            Op::Extract(x) => self.extract(*x)?,
        }
        Ok(())
    }

    /// Continue on the extracted graph; only the extracted region is tracked.
    fn extract(&mut self, x: Id) -> Res {
        let (h, map) = self.h.extract_hugr(self.node[&x]);
        let e = map.extracted_node(self.node[&x]);
        ensure_eq!(h.entrypoint(), e, "extracted entrypoint");
        let before = self.m.clone();
        let ds = before.desc(x);
        let img: BTreeMap<Id, Node> = ds.iter().map(|d| (*d, map.extracted_node(self.node[d]))).collect();
        let got: Vec<Node> = h.descendants(e).collect();
        let want: Vec<Node> = ds.iter().map(|d| img[d]).collect();
        ensure_eq!(got, want, "extracted region nodes");
        for d in &ds {
            let n = img[d];
            ensure_eq!(*h.get_optype(n), before.n[d].op.op(), "extracted op");
            let ch: Vec<Node> = h.children(n).collect();
            ensure_eq!(ch, before.n[d].children.iter().map(|c| img[c]).collect::<Vec<_>>(), "extracted children");
            ensure_eq!(meta_of(&h, n), before.n[d].meta, "extracted metadata of {n}");
            if *d != x || x == before.root {
                ensure_eq!(
                    (h.num_inputs(n), h.num_outputs(n)),
                    (before.n[d].nin, before.n[d].nout),
                    "extracted ports"
                );
            }
            for p in 0..before.n[d].nout {
                let mut g: Vec<_> = h.linked_inputs(n, OutgoingPort::from(p)).collect();
                let mut w: Vec<_> = before
                    .links
                    .iter()
                    .filter(|l| l.0 == (*d, p) && img.contains_key(&l.1.0))
                    .map(|l| (img[&l.1.0], IncomingPort::from(l.1.1)))
                    .collect();
                g.sort();
                w.sort();
                if *d != x {
                    ensure_eq!(g, w, "extracted links of {n}");
                }
            }
        }
        Ok(())
    }

    fn check(&self) -> Res {
        let (h, m) = (&self.h, &self.m);
        let nodes: BTreeSet<Node> = h.nodes().collect();
        let want: BTreeSet<Node> = self.node.values().copied().collect();
        ensure_eq!(nodes, want, "nodes()");
        ensure_eq!(h.num_nodes(), m.n.len(), "num_nodes()");
        ensure_eq!(h.num_edges(), m.links.len(), "num_edges()");
        ensure_eq!(h.entrypoint(), self.node[&m.entry], "entrypoint()");
        ensure_eq!(h.module_root(), self.node[&m.root], "module_root()");
        let maxi = nodes.iter().map(|n| n.into_index()).max().unwrap();
        for i in 0..maxi + 3 {
            let n = Node::from(portgraph::NodeIndex::new(i));
            ensure_eq!(h.contains_node(n), want.contains(&n), "contains_node({n})");
        }
        let key = |x: &(Id, usize)| (self.node[&x.0], x.1);
        for (i, r) in &m.n {
            let n = self.node[i];
            ensure_eq!(h.get_parent(n), r.parent.map(|p| self.node[&p]), "get_parent({n})");
            let ch: Vec<Node> = r.children.iter().map(|c| self.node[c]).collect();
            ensure_eq!(h.children(n).collect::<Vec<_>>(), ch, "children({n})");
            let mut rev: Vec<Node> = h.children(n).rev().collect();
            rev.reverse();
            ensure_eq!(rev, ch, "children({n}) backwards");
            ensure_eq!(h.first_child(n), ch.first().copied(), "first_child({n})");
            ensure_eq!(
                h.descendants(n).collect::<Vec<_>>(),
                m.desc(*i).iter().map(|d| self.node[d]).collect::<Vec<_>>(),
                "descendants({n})"
            );
            ensure_eq!(*h.get_optype(n), r.op.op(), "get_optype({n})");
            ensure_eq!(h.num_inputs(n), r.nin, "num_inputs({n})");
            ensure_eq!(h.num_outputs(n), r.nout, "num_outputs({n})");
            ensure_eq!(h.node_inputs(n).map(|p| p.index()).collect::<Vec<_>>(), (0..r.nin).collect::<Vec<_>>(), "node_inputs({n})");
            ensure_eq!(h.node_outputs(n).map(|p| p.index()).collect::<Vec<_>>(), (0..r.nout).collect::<Vec<_>>(), "node_outputs({n})");
            ensure_eq!(
                h.all_node_ports(n).collect::<Vec<_>>(),
                (0..r.nin)
                    .map(|p| Port::new(Direction::Incoming, p))
                    .chain((0..r.nout).map(|p| Port::new(Direction::Outgoing, p)))
                    .collect::<Vec<_>>(),
                "all_node_ports({n})"
            );
            ensure_eq!(meta_of(h, n), r.meta, "metadata of {n}");
            for k in ["a", "b", "k"] {
                ensure_eq!(h.get_metadata(n, k), r.meta.get(k), "get_metadata({n}, {k})");
            }
            let mut nb_in = vec![];
            let mut nb_out = vec![];
            for p in 0..r.nout {
                let mut w: Vec<_> = m.links.iter().filter(|l| l.0 == (*i, p)).map(|l| key(&l.1)).collect();
                let mut g: Vec<_> = h.linked_inputs(n, OutgoingPort::from(p)).map(|(a, b)| (a, b.index())).collect();
                nb_out.extend(w.iter().map(|x| x.0));
                w.sort();
                g.sort();
                ensure_eq!(g, w, "linked_inputs({n}, {p})");
                ensure_eq!(h.is_linked(n, OutgoingPort::from(p)), !w.is_empty(), "is_linked");
                let s = h.single_linked_input(n, OutgoingPort::from(p)).map(|(a, b)| (a, b.index()));
                ensure_eq!(s, if w.len() == 1 { Some(w[0]) } else { None }, "single_linked_input({n},{p})");
            }
            for p in 0..r.nin {
                let mut w: Vec<_> = m.links.iter().filter(|l| l.1 == (*i, p)).map(|l| key(&l.0)).collect();
                let mut g: Vec<_> = h.linked_outputs(n, IncomingPort::from(p)).map(|(a, b)| (a, b.index())).collect();
                nb_in.extend(w.iter().map(|x| x.0));
                w.sort();
                g.sort();
                ensure_eq!(g, w, "linked_outputs({n}, {p})");
                let s = h.single_linked_output(n, IncomingPort::from(p)).map(|(a, b)| (a, b.index()));
                ensure_eq!(s, if w.len() == 1 { Some(w[0]) } else { None }, "single_linked_output({n},{p})");
            }
            let srt = |mut v: Vec<Node>| {
                v.sort();
                v
            };
            ensure_eq!(srt(h.input_neighbours(n).collect()), srt(nb_in.clone()), "input_neighbours({n})");
            ensure_eq!(srt(h.output_neighbours(n).collect()), srt(nb_out.clone()), "output_neighbours({n})");
            nb_in.extend(nb_out);
            // (how often a self loop is listed is not specified)
            nb_in.retain(|x| *x != n);
            ensure_eq!(srt(h.all_neighbours(n).filter(|x| *x != n).collect()), srt(nb_in), "all_neighbours({n})");
            for (j, _) in &m.n {
                if j == i {
                    continue;
                }
                let o = self.node[j];
                // the links from one node to the other
                let mut w: Vec<[Port; 2]> = m
                    .links
                    .iter()
                    .filter(|(a, b)| a.0 == *i && b.0 == *j)
                    .map(|(a, b)| [Port::new(Direction::Outgoing, a.1), Port::new(Direction::Incoming, b.1)])
                    .collect();
                let mut g: Vec<[Port; 2]> = h.node_connections(n, o).collect();
                w.sort();
                g.sort();
                ensure_eq!(g, w, "node_connections({n},{o})");
            }
        }
        Ok(())
    }
}
trait Idx {
    fn into_index(&self) -> usize;
}
impl Idx for Node {
    fn into_index(&self) -> usize {
        use hugr_core::NodeIndex;
        self.index()
    }
}
fn meta_of(h: &Hugr, n: Node) -> BTreeMap<String, Value> {
    use hugr_core::hugr::internal::HugrInternals;
    h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

#[derive(Clone, Copy)]
struct Alpha {
    add: bool,
    addb: bool,
    remove: bool,
    orphan: bool,
    mv: bool,
    links: bool,
    ports: bool,
    ops: bool,
    meta: bool,
    entry: bool,
    copy: bool,
    ins: bool,
    canon: bool,
    extract: bool,
    max_nodes: usize,
    max_links: usize,
}

fn enabled(s: &Sys, a: &Alpha, last: bool) -> Vec<Op> {
    let m = &s.m;
    let ids: Vec<Id> = m.n.keys().copied().collect();
    let mut v = vec![];
    let room = m.n.len() < a.max_nodes;
    for &i in &ids {
        let n = &m.n[&i];
        if a.add && room {
            v.push(Op::Add(i, O::Noop));
            if a.addb && n.parent.is_some() {
                v.push(Op::Before(i, O::Noop));
                v.push(Op::After(i, O::Const));
            }
        }
        if a.remove && i != m.root && i != m.entry {
            if n.children.is_empty() {
                v.push(Op::Remove(i));
            } else if a.orphan {
                v.push(Op::Remove(i));
            }
            if !n.children.is_empty() && !m.desc(i).contains(&m.entry) {
                v.push(Op::RemoveSubtree(i));
            }
        }
        if a.mv && i != m.root {
            let below = m.desc(i);
            for &j in &ids {
                if !below.contains(&j) {
                    v.push(Op::SetParent(i, j));
                    if i != m.entry && j != m.entry && m.n[&j].parent.is_some() {
                        v.push(Op::MoveAfter(i, j));
                        v.push(Op::MoveBefore(i, j));
                    }
                }
            }
        }
        if a.links {
            for &j in &ids {
                if m.links.len() < a.max_links {
                    for p in 0..n.nout {
                        for q in 0..m.n[&j].nin {
                            v.push(Op::Connect(i, p, j, q));
                        }
                    }
                    if let (Some(p), Some(q)) = (n.op.order_out(), m.n[&j].op.order_in()) {
                        if p < n.nout && q < m.n[&j].nin {
                            v.push(Op::Other(i, j));
                        }
                    }
                }
            }
            for p in 0..n.nout {
                if m.links.iter().any(|l| l.0 == (i, p)) {
                    v.push(Op::Disconnect(i, Direction::Outgoing, p));
                }
            }
            for p in 0..n.nin {
                if m.links.iter().any(|l| l.1 == (i, p)) {
                    v.push(Op::Disconnect(i, Direction::Incoming, p));
                }
            }
        }
        if a.ports && i != m.root {
            for (x, y) in [(0, 0), (1, 2), (3, 1)] {
                v.push(Op::NumPorts(i, x, y));
            }
            for d in [Direction::Incoming, Direction::Outgoing] {
                let k = if d == Direction::Incoming { n.nin } else { n.nout };
                v.push(Op::AddPorts(i, d, 1));
                v.push(Op::AddPorts(i, d, -1));
                for at in 0..=k {
                    v.push(Op::InsertPorts(i, d, at, 1));
                }
                v.push(Op::InsertPorts(i, d, 0, 2));
            }
        }
        if a.ops && i != m.root {
            v.push(Op::Replace(i, O::Dfg));
            v.push(Op::OpMut(i, O::Const));
        }
        if a.meta {
            v.push(Op::Set(i, "a", m.n.len() as i32));
            v.push(Op::GetMut(i, "b"));
            if n.meta.contains_key("a") {
                v.push(Op::RemoveMeta(i, "a"));
            }
        }
        if a.entry && i != m.entry {
            v.push(Op::Entry(i));
        }
        if a.copy && !n.children.is_empty() && m.n.len() + m.desc(i).len() <= a.max_nodes + 3 {
            for &j in &ids {
                let ds = m.desc(i);
                // a strict descendant with an edge out of the region is not a region to copy
                let leaves = m.links.iter().any(|(a, b)| a.0 != i && ds.contains(&a.0) && (b.0 == i || !ds.contains(&b.0)));
                if !ds.contains(&j) && !leaves {
                    v.push(Op::CopyDesc(i, j));
                }
            }
        }
        if a.ins && room {
            v.push(Op::InsHugr(i));
            v.push(Op::InsRegion(i, 3));
            v.push(Op::InsView(i));
            for &j in &ids {
                if m.desc(j).len() + m.n.len() <= a.max_nodes + 2 && j != m.root {
                    v.push(Op::InsSelf(i, j));
                }
            }
        }
        if a.extract && last && !m.orphans() && (n.nin, n.nout) == n.op.ports() && matches!(n.op, O::Module | O::Func | O::Dfg) {
            v.push(Op::Extract(i));
        }
    }
    if a.canon && !m.orphans() {
        v.push(Op::Canon);
    }
    v
}

fn explore(c: &mut Chooser, cov: &mut Cov, starts: &[usize], a: Alpha, depth: usize) -> Res {
    let k = *c.pick(starts);
    let mut s = Sys::start(k);
    let mut hist = vec![];
    for d in 0..depth {
        let ops = enabled(&s, &a, d + 1 == depth);
        if ops.is_empty() {
            break;
        }
        let o = ops[c.choose(ops.len())].clone();
        cov.describe(|| String::new());
        hist.push(o.clone());
        let fresh = c.fresh();
        let r = match guard(|| s.apply(&o)) {
            Ok(r) => r,
            Err(p) => bad(format!("panicked: {p}")),
        };
        let r = r.and_then(|_| match fresh {
            true => guard(|| s.check()).unwrap_or_else(|p| bad(format!("query panicked: {p}"))),
            false => Ok(()),
        });
        if let Err(Fail::Bad { key, msg }) = r {
            return Err(Fail::Bad { key, msg: format!("{msg}\n  start graph {k}, edits {hist:?}") });
        }
        if fresh {
            cov.step(1);
            cov.state(s.m.canon());
        }
    }
    cov.trace();
    cov.redescribe(|| format!("start graph {k}, edits {hist:?}"));
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.assume("node numbering of new nodes is implementation-chosen; the order of several links on one port is not compared (unspecified)");
    r.assume("callers respect the documented panics (root/entrypoint not removed, no cycles)");
    let z = Alpha {
        add: true, addb: false, remove: true, orphan: false, mv: false, links: false, ports: false, ops: false, meta: false,
        entry: false, copy: false, ins: false, canon: false, extract: false, max_nodes: 6, max_links: 3,
    };
    let q = r.quick();
    let t = |a: usize, b: usize| if q { a } else { b };
    r.family("tree", "all edit sequences up to the depth: add/before/after/remove/subtree/orphaning remove/set_parent/move/canonicalize; 4 start graphs", 60.0 * t(1, 10) as f64,
        |c, v| explore(c, v, &[0, 1, 3], Alpha { addb: true, orphan: true, mv: true, canon: true, ..z }, t(3, 4)));
    r.family("links", "connect/disconnect/other-edge on every port pair, add/remove", 60.0 * t(1, 10) as f64,
        |c, v| explore(c, v, &[2, 1], Alpha { links: true, max_nodes: 5, max_links: 5, canon: true, ..z }, t(3, 4)));
    r.family("ports", "set/add/insert ports on linked nodes, connect, disconnect, replace op", 60.0 * t(1, 10) as f64,
        |c, v| explore(c, v, &[2], Alpha { ports: true, ops: true, links: true, add: false, max_nodes: 4, max_links: 4, ..z }, t(3, 4)));
    r.family("metadata", "metadata edits with node add/remove/reuse/copy/canonicalize/extract", 60.0 * t(1, 10) as f64,
        |c, v| explore(c, v, &[0, 1, 3], Alpha { meta: true, canon: true, extract: true, max_nodes: 6, ..z }, t(4, 5)));
    r.family("insert", "insert hugr/region/view/self-copy, copy descendants, entrypoint, remove, canonicalize, extract", 60.0 * t(1, 10) as f64,
        |c, v| explore(c, v, &[0, 1, 3], Alpha { ins: true, copy: true, entry: true, canon: true, extract: true, max_nodes: 8, ..z }, t(3, 4)));
    r.family("mixed", "the union of all alphabets", 60.0 * t(1, 20) as f64,
        |c, v| explore(c, v, &[1, 3], Alpha { addb: true, orphan: true, mv: true, links: true, ports: true, ops: true, meta: true, entry: true, copy: true, ins: true, canon: true, extract: true, max_nodes: 7, max_links: 4, ..z }, t(2, 3)));
}
