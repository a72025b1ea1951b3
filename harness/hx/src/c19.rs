//! C19: inserting one HUGR into another copies exactly what was requested, against a
//! reference that computes the resulting tree with ports from the two snapshots.
use crate::explore::*;
use crate::prog::*;
use crate::{ensure, ensure_eq};
use hugr_core::extension::prelude::PRELUDE;
use hugr_core::hugr::hugrmut::{HugrMut, InsertForestError};
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::hugr::linking::{HugrLinking, NodeLinkingDirective, NodeLinkingError};
use hugr_core::hugr::views::SiblingSubgraph;
use hugr_core::ops::{self, OpType, Value};
use hugr_core::std_extensions::arithmetic::int_types;
use hugr_core::std_extensions::logic;
use hugr_core::types::Signature;
use hugr_core::{Hugr, HugrView, Node, PortIndex, Visibility};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Link = ((Node, usize), (Node, usize));
#[derive(Clone, PartialEq, Debug)]
pub struct NodeS {
    pub parent: Option<Node>,
    pub children: Vec<Node>,
    pub op: OpType,
    pub meta: BTreeMap<String, String>,
    pub ports: (usize, usize),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Snap {
    pub nodes: BTreeMap<Node, NodeS>,
    pub links: Vec<Link>,
    pub root: Node,
    pub entry: Node,
    pub exts: BTreeSet<String>,
}
pub fn snap<H: HugrView<Node = Node>>(h: &H) -> Snap {
    let mut links = vec![];
    let mut nodes = BTreeMap::new();
    for n in h.nodes() {
        for p in h.node_outputs(n) {
            for (m, q) in h.linked_inputs(n, p) {
                links.push(((n, p.index()), (m, q.index())));
            }
        }
        let s = NodeS {
            parent: h.get_parent(n),
            children: h.children(n).collect(),
            op: h.get_optype(n).clone(),
            meta: h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.to_string())).collect(),
            ports: (h.num_inputs(n), h.num_outputs(n)),
        };
        nodes.insert(n, s);
    }
    links.sort();
    Snap { nodes, links, root: h.module_root(), entry: h.entrypoint(), exts: h.extensions().iter().map(|e| e.name().to_string()).collect() }
}
impl Snap {
    pub fn under(&self, n: Node) -> Vec<Node> {
        let mut v = vec![n];
        for c in &self.nodes[&n].children {
            v.extend(self.under(*c));
        }
        v
    }
}

/// A node of the expected result.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum R {
    T(Node),
    S(Node),
}
/// Compares `got` with target `t` after copying `nodes` of `s` (roots under the given
/// parents, in that order), static edges from `sources` replaced, and `removed` deleted.
struct Want<'a> {
    t: &'a Snap,
    s: &'a Snap,
    nodes: BTreeSet<Node>,
    roots: Vec<(Node, Node)>,
    /// source nodes that stand for nodes of the target or for other source nodes
    use_existing: BTreeMap<Node, Node>,
    replace: BTreeMap<Node, Node>,
    exts: bool,
}
impl Want<'_> {
    fn compare(&self, got: &Snap, map: &HashMap<Node, Node>) -> Res {
        let keys: BTreeSet<Node> = map.keys().copied().collect();
        ensure_eq!(keys, self.nodes, "the node map does not list exactly the copied nodes");
        let vals: BTreeSet<Node> = map.values().copied().collect();
        ensure!(vals.len() == map.len(), "two nodes were copied to one: {map:?}");
        ensure!(vals.iter().all(|v| !self.t.nodes.contains_key(v) || self.gone(*v)), "a copy overwrote an existing node: {map:?}");
        let back: BTreeMap<Node, Node> = map.iter().map(|(a, b)| (*b, *a)).collect();
        let r = |n: Node| if let Some(s) = back.get(&n) { R::S(*s) } else { R::T(n) };
        // nodes
        let want_nodes: BTreeSet<R> = self.t.nodes.keys().filter(|n| !self.gone(**n)).map(|n| R::T(*n)).chain(self.nodes.iter().map(|n| R::S(*n))).collect();
        let got_nodes: BTreeSet<R> = got.nodes.keys().map(|n| r(*n)).collect();
        ensure!(want_nodes == got_nodes, "wrong nodes: missing {:?}, extra {:?}", want_nodes.difference(&got_nodes).collect::<Vec<_>>(), got_nodes.difference(&want_nodes).collect::<Vec<_>>());
        let root_of: BTreeMap<Node, Node> = self.roots.iter().copied().collect();
        for (n, g) in &got.nodes {
            let x = r(*n);
            let (from, parent, mut children) = match x {
                R::T(n) => {
                    let w = &self.t.nodes[&n];
                    (w, w.parent.map(R::T), w.children.iter().filter(|c| !self.gone(**c)).map(|c| R::T(*c)).collect::<Vec<_>>())
                }
                R::S(n) => {
                    let w = &self.s.nodes[&n];
                    let parent = match root_of.get(&n) {
                        Some(p) => Some(R::T(*p)),
                        None => w.parent.filter(|p| self.nodes.contains(p)).map(R::S),
                    };
                    (w, parent, w.children.iter().filter(|c| self.nodes.contains(c) && !root_of.contains_key(c)).map(|c| R::S(*c)).collect())
                }
            };
            if let R::T(n) = x {
                children.extend(self.roots.iter().filter(|q| q.1 == n && self.nodes.contains(&q.0)).map(|q| R::S(q.0)));
            }
            ensure!(g.op == from.op, "operation of {x:?} became {}", g.op);
            ensure!(g.meta == from.meta, "metadata of {x:?} became {:?}", g.meta);
            ensure!(g.ports == from.ports, "ports of {x:?} became {:?}", g.ports);
            ensure!(g.parent.map(r) == parent, "parent of {x:?} is {:?} but should be {parent:?}", g.parent.map(r));
            let gc: Vec<R> = g.children.iter().map(|c| r(*c)).collect();
            ensure!(gc == children, "children of {x:?} are {gc:?} but should be {children:?}");
        }
        // links
        let fix = |n: R| match n {
            R::T(n) => self.replace.get(&n).map_or(R::T(n), |s| R::S(*s)),
            R::S(n) => match self.use_existing.get(&n) {
                Some(t) => self.replace.get(t).map_or(R::T(*t), |s| R::S(*s)),
                None => R::S(n),
            },
        };
        let mut want: Vec<((R, usize), (R, usize))> = vec![];
        for ((a, p), (b, q)) in &self.t.links {
            if !self.gone(*b) {
                want.push(((fix(R::T(*a)), *p), (R::T(*b), *q)));
            }
        }
        for ((a, p), (b, q)) in &self.s.links {
            if self.nodes.contains(b) && (self.nodes.contains(a) || self.use_existing.contains_key(a)) {
                want.push(((fix(R::S(*a)), *p), (R::S(*b), *q)));
            }
        }
        let mut have: Vec<_> = got.links.iter().map(|((a, p), (b, q))| ((r(*a), *p), (r(*b), *q))).collect();
        want.sort();
        have.sort();
        ensure!(want == have, "links differ: missing {:?}, extra {:?}", want.iter().filter(|x| !have.contains(x)).collect::<Vec<_>>(), have.iter().filter(|x| !want.contains(x)).collect::<Vec<_>>());
        ensure_eq!(got.root, self.t.root, "module root");
        ensure_eq!(got.entry, self.t.entry, "entrypoint");
        if self.exts {
            let want: BTreeSet<String> = self.t.exts.union(&self.s.exts).cloned().collect();
            ensure_eq!(got.exts, want, "extensions");
        }
        Ok(())
    }
    fn gone(&self, n: Node) -> bool {
        let mut n = Some(n);
        while let Some(m) = n {
            if self.replace.contains_key(&m) {
                return true;
            }
            n = self.t.nodes.get(&m).and_then(|x| x.parent);
        }
        false
    }
}

// ---------------------------------------------------------------- sample HUGRs
fn holes(h: &mut Hugr, n: usize) -> Vec<Node> {
    let m = h.module_root();
    (0..n).map(|_| add(h, m, ops::AliasDecl::new("hole", hugr_core::types::TypeBound::Linear))).collect()
}
fn unhole(h: &mut Hugr, x: Vec<Node>) {
    for n in x {
        h.remove_node(n);
    }
}
fn info(h: &Hugr, n: Node) -> FnInfo {
    let poly = match h.get_optype(n) {
        OpType::FuncDefn(f) => f.signature().clone(),
        OpType::FuncDecl(f) => f.signature().clone(),
        _ => unreachable!(),
    };
    FnInfo { name: "", node: n, poly, args: vec![] }
}

/// source: f { load c; dfg d { call g; call f; load c; reads of f's values } ; call f }, g { call hh }, hh decl, c const
struct Src {
    h: Hugr,
    f: Node,
    d: Node,
    g: Node,
    hh: Node,
    k: Node,
    call: Node,
}
fn source(gaps: bool) -> Src {
    let mut h = Hugr::new();
    h.use_extension(PRELUDE.to_owned());
    h.use_extension(logic::EXTENSION.to_owned());
    let sig = || Signature::new(vec![b()], vec![b()]);
    let m = h.module_root();
    let g1 = holes(&mut h, if gaps { 2 } else { 0 });
    let (g, gi, go) = func(&mut h, "g", sig(), Visibility::Private);
    let k = add(&mut h, m, ops::Const::new(Value::true_val()));
    let (f, fi, fo) = func(&mut h, "f", sig(), Visibility::Public);
    let g2 = holes(&mut h, if gaps { 1 } else { 0 });
    let hh = add(&mut h, m, ops::FuncDecl::new("hh", sig()));
    let c1 = call_node(&mut h, g, &FnInfo { name: "", node: hh, poly: sig().into(), args: vec![] });
    h.connect(gi, 0, c1, 0);
    h.connect(c1, 0, go, 0);
    let l = add(&mut h, f, ops::LoadConstant { datatype: b() });
    h.connect(k, 0, l, 0);
    let d = add(&mut h, f, ops::DFG { signature: sig() });
    let (di, dd) = region_io(&mut h, d, vec![b()], vec![b()]);
    let gi2 = info(&h, g);
    let fi2 = info(&h, f);
    let c2 = call_node(&mut h, d, &gi2);
    let c3 = call_node(&mut h, d, &fi2);
    let l2 = add(&mut h, d, ops::LoadConstant { datatype: b() });
    h.connect(k, 0, l2, 0);
    let a = add(&mut h, d, logic_op("And"));
    h.connect(di, 0, c2, 0);
    h.connect(fi, 0, c3, 0); // non-local
    order(&mut h, fi, d);
    h.connect(c2, 0, a, 0);
    h.connect(c3, 0, a, 1);
    h.connect(a, 0, dd, 0);
    order(&mut h, di, c3);
    order(&mut h, c3, c2);
    h.connect(l, 0, d, 0);
    let c4 = call_node(&mut h, f, &fi2);
    h.connect(d, 0, c4, 0);
    h.connect(c4, 0, fo, 0);
    for (n, t) in [(f, "f"), (d, "d"), (c3, "c3"), (hh, "hh"), (k, "k"), (go, "go")] {
        h.set_metadata_any(n, "tag", t);
    }
    unhole(&mut h, g1);
    unhole(&mut h, g2);
    Src { h, f, d, g, hh, k, call: c4 }
}
fn logic_op(n: &str) -> OpType {
    crate::prog::logic(n)
}
trait Meta {
    fn set_metadata_any(&mut self, n: Node, k: &str, v: &str);
}
impl Meta for Hugr {
    fn set_metadata_any(&mut self, n: Node, k: &str, v: &str) {
        self.node_metadata_map_mut(n).insert(k.to_string(), serde_json::Value::String(v.to_string()));
    }
}
/// target: p { dfg e { call q } ; call r; load k }, q decl, r { call q, call r }, k const
struct Tgt {
    h: Hugr,
    p: Node,
    e: Node,
    q: Node,
    r: Node,
    k: Node,
}
fn target(gaps: bool) -> Tgt {
    let mut h = Hugr::new();
    h.use_extension(PRELUDE.to_owned());
    h.use_extension(int_types::EXTENSION.to_owned());
    let sig = || Signature::new(vec![b()], vec![b()]);
    let m = h.module_root();
    let g1 = holes(&mut h, if gaps { 3 } else { 0 });
    let q = add(&mut h, m, ops::FuncDecl::new("q", sig()));
    let (p, pi, po) = func(&mut h, "p", sig(), Visibility::Public);
    let (r, ri, ro) = func(&mut h, "r", sig(), Visibility::Public);
    let g2 = holes(&mut h, if gaps { 2 } else { 0 });
    let k = add(&mut h, m, ops::Const::new(Value::false_val()));
    let (qi, rii) = (info(&h, q), info(&h, r));
    let e = add(&mut h, p, ops::DFG { signature: sig() });
    let (ei, eo) = region_io(&mut h, e, vec![b()], vec![b()]);
    let c1 = call_node(&mut h, e, &qi);
    h.connect(ei, 0, c1, 0);
    h.connect(c1, 0, eo, 0);
    h.connect(pi, 0, e, 0);
    let c2 = call_node(&mut h, p, &rii);
    h.connect(e, 0, c2, 0);
    h.connect(c2, 0, po, 0);
    let l = add(&mut h, p, ops::LoadConstant { datatype: b() });
    h.connect(k, 0, l, 0);
    let c3 = call_node(&mut h, r, &qi);
    let c4 = call_node(&mut h, r, &rii);
    h.connect(ri, 0, c3, 0);
    h.connect(c3, 0, c4, 0);
    h.connect(c4, 0, ro, 0);
    for (n, t) in [(p, "p"), (e, "e"), (c3, "c3"), (q, "q"), (k, "k")] {
        h.set_metadata_any(n, "old", t);
    }
    unhole(&mut h, g1);
    unhole(&mut h, g2);
    Tgt { h, p, e, q, r, k }
}

// ---------------------------------------------------------------- linking
fn linking(c: &mut Chooser, cov: &mut Cov, deep: bool) -> Res {
    let gaps = c.flag();
    let (src, mut tgt) = (source(gaps), target(gaps));
    let mut s = src.h.clone();
    // entrypoint of the source
    let ep = [s.module_root(), src.f, src.d, src.g, src.call, src.k][c.choose(if deep { 6 } else { 5 })];
    s.set_entrypoint(ep);
    let tep = [tgt.h.module_root(), tgt.e, tgt.r][c.choose(3)];
    tgt.h.set_entrypoint(tep);
    let parent = [None, Some(tgt.h.module_root()), Some(tgt.e), Some(tgt.p)][c.choose(if deep { 4 } else { 3 })];
    let mut dirs: HashMap<Node, NodeLinkingDirective> = HashMap::new();
    let opts = |q: &Tgt| -> Vec<Option<NodeLinkingDirective>> {
        let (p, q, r) = (q.p, q.q, q.r);
        vec![None, Some(NodeLinkingDirective::add()), Some(NodeLinkingDirective::replace([q])), Some(NodeLinkingDirective::UseExisting(q)), Some(NodeLinkingDirective::UseExisting(r)), Some(NodeLinkingDirective::replace([r, q])), Some(NodeLinkingDirective::replace([r])), Some(NodeLinkingDirective::UseExisting(p)), Some(NodeLinkingDirective::replace([p])), Some(NodeLinkingDirective::replace([q, q]))]
    };
    let o = opts(&tgt);
    for (n, lim) in [(src.f, 7), (src.g, 7), (src.hh, 7)] {
        if let Some(d) = &o[c.choose(if deep { o.len() } else { lim })] {
            dirs.insert(n, d.clone());
        }
    }
    let ko = [None, Some(NodeLinkingDirective::add()), Some(NodeLinkingDirective::replace([tgt.k])), Some(NodeLinkingDirective::UseExisting(tgt.k))];
    if let Some(d) = &ko[c.choose(4)] {
        dirs.insert(src.k, d.clone());
    }
    // ill-chosen child
    if deep && c.flag() {
        dirs.insert(*c.pick(&[src.d, s.module_root(), Node::from(portgraph(99))]), NodeLinkingDirective::add());
    }
    let (ts, ss) = (snap(&tgt.h), snap(&s));
    // which requests are impossible
    let mut errors: Vec<NodeLinkingError> = vec![];
    if parent.is_some() {
        if ep == s.module_root() {
            errors.extend(dirs.keys().map(|k| NodeLinkingError::ChildOfEntrypoint(*k)));
        } else {
            if dirs.contains_key(&ep) {
                errors.push(NodeLinkingError::ChildContainsEntrypoint(ep));
            }
            let mut n = ss.nodes[&ep].parent;
            while let Some(p) = n {
                if matches!(dirs.get(&p), Some(NodeLinkingDirective::Add { .. })) {
                    errors.push(NodeLinkingError::ChildContainsEntrypoint(p));
                }
                n = ss.nodes[&p].parent;
            }
        }
    }
    let mut replace: BTreeMap<Node, Node> = BTreeMap::new();
    let mut use_existing = BTreeMap::new();
    for n in dirs.keys() {
        if ss.nodes.get(n).and_then(|x| x.parent) != Some(ss.root) {
            errors.push(NodeLinkingError::NotChildOfRoot(*n));
        }
    }
    for (n, d) in &dirs {
        match d {
            NodeLinkingDirective::Add { replace: rs, .. } => {
                for (i, x) in rs.iter().enumerate() {
                    if rs[..i].contains(x) {
                        errors.push(NodeLinkingError::NodeMultiplyReplaced(*x, *n, *n));
                    }
                    if let Some(o) = replace.insert(*x, *n).filter(|o| o != n) {
                        errors.push(NodeLinkingError::NodeMultiplyReplaced(*x, o, *n));
                        errors.push(NodeLinkingError::NodeMultiplyReplaced(*x, *n, o));
                    }
                }
            }
            NodeLinkingDirective::UseExisting(x) => {
                use_existing.insert(*n, *x);
            }
            _ => unreachable!(),
        }
    }
    // three sources may name one target: every pair is a possible answer
    let users: Vec<(Node, Node)> = dirs.iter().flat_map(|(n, d)| if let NodeLinkingDirective::Add { replace, .. } = d { replace.iter().map(|r| (*r, *n)).collect() } else { vec![] }).collect();
    for (r1, a) in &users {
        for (r2, z) in &users {
            if r1 == r2 && a != z {
                errors.push(NodeLinkingError::NodeMultiplyReplaced(*r1, *a, *z));
            }
        }
    }
    // nodes to copy
    let mut nodes = BTreeSet::new();
    let mut roots = vec![];
    if let Some(p) = parent {
        roots.push((ep, p));
        nodes.extend(ss.under(ep));
    }
    for n in &ss.nodes[&ss.root].children {
        if matches!(dirs.get(n), Some(NodeLinkingDirective::Add { .. })) {
            nodes.extend(ss.under(*n));
            roots.push((*n, ts.root));
        }
    }
    let w = Want { t: &ts, s: &ss, nodes, roots, use_existing, replace: replace.clone(), exts: true };
    // a replaced node that holds the target's entrypoint or the parent cannot be removed
    let under_removed = |n: Node| {
        let mut n = Some(n);
        let mut v = vec![];
        while let Some(m) = n {
            if replace.contains_key(&m) {
                v.push(NodeLinkingError::ReplacedNodeInUse(m));
            }
            n = ts.nodes[&m].parent;
        }
        v
    };
    cov.describe(|| format!("source entrypoint {ep}, parent {parent:?}, target entrypoint {tep}, directives {dirs:?}\nsource {s:?}"));
    for variant in 0..3 {
        if variant == 2 && w.gone(tep) {
            continue; // the entrypoint of the HUGR below the view would be removed
        }
        let mut h = tgt.h.clone();
        let got = guard(|| match variant {
            0 => h.insert_link_view_by_node(parent, &s, dirs.clone()),
            1 => h.insert_link_hugr_by_node(parent, s.clone(), dirs.clone()),
            _ => h.with_entrypoint_mut(tgt.r).insert_link_view_by_node(parent, &s.with_entrypoint(ep), dirs.clone()),
        });
        let what = ["view", "hugr", "re-rooted"][variant];
        cov.step(1);
        let got = got.or_else(|m| bad(format!("{what}: panic {m}")))?;
        let mut errors = errors.clone();
        errors.extend(parent.into_iter().flat_map(&under_removed));
        errors.extend(under_removed(if variant == 2 { tgt.r } else { tep }));
        match got {
            Err(e) => {
                cov.outcome(match e {
                    NodeLinkingError::ChildOfEntrypoint(_) => "child of entrypoint",
                    NodeLinkingError::ChildContainsEntrypoint(_) => "contains entrypoint",
                    NodeLinkingError::NotChildOfRoot(_) => "not a child",
                    NodeLinkingError::NodeMultiplyReplaced(..) => "multiply replaced",
                    NodeLinkingError::ReplacedNodeInUse(_) => "replaced node in use",
                    _ => "other error",
                });
                ensure!(errors.contains(&e), "{what}: error {e:?}, expected one of {errors:?}");
                ensure!(snap(&h) == ts, "{what}: the target changed although the request failed with {e}");
            }
            Ok(f) => {
                ensure!(errors.is_empty(), "{what}: accepted although {:?}", errors[0]);
                w.compare(&snap(&h), &f.node_map).map_err(|e| pre(what, e))?;
                cov.outcome("linked");
            }
        }
    }
    cov.state(format!("{ep}{tep}{parent:?}{:?}{:?}{gaps}", w.use_existing, w.replace));
    cov.trace();
    Ok(())
}
fn pre(w: &str, e: Fail) -> Fail {
    match e {
        Fail::Bad { key, msg } => Fail::Bad { key, msg: format!("{w}: {msg}") },
        s => s,
    }
}
fn portgraph(i: usize) -> portgraph::NodeIndex {
    portgraph::NodeIndex::new(i)
}

// ---------------------------------------------------------------- forests
/// insert_forest: every choice of up to `k` regions with their parents.
fn forest(c: &mut Chooser, cov: &mut Cov, k: usize) -> Res {
    let (src, tgt) = (source(true), target(true));
    let s = src.h;
    let (ts, ss) = (snap(&tgt.h), snap(&s));
    let all: Vec<Node> = ss.under(ss.root);
    let parents = [ts.root, tgt.p, tgt.e, tgt.k];
    let mut pairs = vec![];
    for _ in 0..c.choose(k + 1) {
        pairs.push((*c.pick(&all), *c.pick(&parents)));
    }
    // the last parent named for a region counts, at the place where it was first named
    let mut roots: Vec<(Node, Node)> = vec![];
    // (which place among its siblings a region takes that is named twice is not specified)
    let again = pairs.iter().enumerate().any(|(i, x)| pairs[..i].iter().any(|y| y.0 == x.0));
    if again && pairs.len() > 2 {
        return Err(Fail::Skip);
    }
    for (n, p) in &pairs {
        match roots.iter_mut().find(|x| x.0 == *n) {
            Some(x) => x.1 = *p,
            None => roots.push((*n, *p)),
        }
    }
    let set: BTreeSet<Node> = roots.iter().map(|x| x.0).collect();
    let mut nested = vec![];
    for (n, _) in &roots {
        let mut m = ss.nodes[n].parent;
        while let Some(p) = m {
            if set.contains(&p) {
                nested.push((*n, p));
            }
            m = ss.nodes[&p].parent;
        }
    }
    let nodes = set.iter().flat_map(|n| ss.under(*n)).collect();
    let mut h = tgt.h.clone();
    cov.describe(|| format!("{pairs:?} of {s:?}"));
    cov.step(1);
    let rerooted = c.flag();
    let got = guard(|| if rerooted { h.with_entrypoint_mut(tgt.e).insert_forest(s.clone(), pairs.clone()) } else { h.insert_forest(s.clone(), pairs.clone()) });
    cov.trace();
    match got {
        Err(m) => bad(format!("panic {m}")),
        Ok(Err(e)) => {
            cov.outcome("nested");
            ensure!(matches!(e, InsertForestError::SubtreeAlreadyCopied { subtree, parent } if nested.contains(&(subtree, parent))), "error {e:?}, nested are {nested:?}");
            ensure!(snap(&h) == ts, "the target changed although the request failed");
            Ok(())
        }
        Ok(Ok(f)) => {
            cov.outcome("inserted");
            ensure!(nested.is_empty(), "nested regions accepted");
            let after = snap(&h);
            cov.state(format!("{:?}", after.links));
            Want { t: &ts, s: &ss, nodes, roots, use_existing: BTreeMap::new(), replace: BTreeMap::new(), exts: true }.compare(&after, &f.node_map)
        }
    }
}
/// insert_view_forest: every list of nodes of a function's subtree, each absent, once or twice.
fn view_forest(c: &mut Chooser, cov: &mut Cov, deep: bool) -> Res {
    let (src, tgt) = (source(true), target(true));
    let s = src.h;
    let (ts, ss) = (snap(&tgt.h), snap(&s));
    // the function with its region and a nested region's first nodes
    let all: Vec<Node> = if deep { vec![src.f, src.d] } else { vec![src.f, src.d] }.into_iter().chain(ss.nodes[&src.f].children.iter().copied().filter(|n| *n != src.d).take(if deep { 5 } else { 3 })).chain(ss.nodes[&src.d].children.iter().copied().take(2)).chain([src.g]).collect();
    let mut list = vec![];
    let mut twice = BTreeSet::new();
    for n in &all {
        match c.choose(if twice.is_empty() { 3 } else { 2 }) {
            0 => {}
            1 => list.push(*n),
            _ => {
                list.push(*n);
                twice.insert(*n);
            }
        }
    }
    if c.flag() {
        list.reverse();
    }
    list.extend(twice.iter().copied());
    let nodes: BTreeSet<Node> = list.iter().copied().collect();
    let mut roots = vec![];
    let parents = [tgt.p, tgt.e];
    for n in nodes.iter() {
        if roots.len() < 2 {
            match c.choose(3) {
                0 => {}
                i => roots.push((*n, parents[i - 1])),
            }
        }
    }
    let rerooted = c.flag();
    let mut h = tgt.h.clone();
    cov.describe(|| format!("nodes {list:?} roots {roots:?} of {s:?}"));
    cov.step(1);
    let got = guard(|| if rerooted { h.insert_view_forest(&s.with_entrypoint(src.g), list.iter().copied(), roots.clone()) } else { h.insert_view_forest(&s, list.iter().copied(), roots.clone()) });
    cov.trace();
    match got {
        Err(m) => bad(format!("panic {m}")),
        Ok(Err(e)) => {
            cov.outcome("duplicate");
            ensure!(matches!(e, InsertForestError::DuplicateNode(n) if twice.contains(&n)), "error {e:?}, listed twice are {twice:?}");
            // some nodes may have been copied already (a test of the repository relies on it),
            // but what was there before is as it was
            let a = snap(&h);
            ensure!(ts.nodes.iter().all(|(n, x)| a.nodes.get(n) == Some(x)) && ts.links.iter().all(|l| a.links.contains(l)), "nodes of the target changed although the request failed");
            Ok(())
        }
        Ok(Ok(f)) => {
            cov.outcome("inserted");
            ensure!(twice.is_empty(), "a node listed twice was accepted");
            let after = snap(&h);
            cov.state(format!("{:?}", after.nodes.keys().collect::<Vec<_>>()));
            Want { t: &ts, s: &ss, nodes, roots, use_existing: BTreeMap::new(), replace: BTreeMap::new(), exts: true }.compare(&after, &f.node_map)
        }
    }
}

/// The one-region insertions, for every region and every parent, and every sibling subgraph.
fn regions(c: &mut Chooser, cov: &mut Cov) -> Res {
    let gaps = c.flag();
    let (src, tgt) = (source(gaps), target(gaps));
    let mut s = src.h;
    let ss0 = snap(&s);
    let ts = snap(&tgt.h);
    let root = *c.pick(&ts.nodes.keys().copied().collect::<Vec<_>>());
    let mut h = tgt.h.clone();
    let kind = c.choose(4);
    if kind == 3 {
        // every set of children of f, or of d
        let f = [src.f, src.d][c.choose(2)];
        let kids: Vec<Node> = ss0.nodes[&f].children.iter().copied().skip(2).collect();
        let set: Vec<Node> = kids.into_iter().filter(|_| c.flag()).collect();
        s.set_entrypoint(f);
        let Ok(Ok(sub)) = guard(|| SiblingSubgraph::try_from_nodes(set.clone(), &s)) else { return Err(Fail::Skip) };
        let ss = snap(&s);
        let nodes: BTreeSet<Node> = set.iter().flat_map(|n| ss.under(*n)).collect();
        cov.describe(|| format!("subgraph {set:?} under {root} from {s:?}"));
        let map = guard(|| h.insert_subgraph(root, &s, &sub)).or_else(|m| bad(format!("panic {m}")))?;
        let after = snap(&h);
        cov.trace();
        cov.step(1);
        // the sibling order of the nodes is not kept
        let roots: Vec<(Node, Node)> = sub.nodes().iter().map(|n| (*n, root)).collect();
        return Want { t: &ts, s: &ss, nodes, roots, use_existing: BTreeMap::new(), replace: BTreeMap::new(), exts: true }.compare(&after, &map);
    }
    let region = *c.pick(&ss0.nodes.keys().copied().collect::<Vec<_>>());
    if kind != 1 {
        s.set_entrypoint(region);
    } else if c.flag() {
        s.set_entrypoint(src.d);
    }
    let ss = snap(&s);
    cov.describe(|| format!("kind {kind} region {region} under {root} from {s:?}"));
    let res = guard(|| match kind {
        0 => h.insert_hugr(root, s.clone()),
        1 => h.insert_region(root, s.clone(), region),
        _ => h.insert_from_view(root, &s),
    })
    .or_else(|m| bad(format!("panic {m}")))?;
    cov.trace();
    cov.step(1);
    let after = snap(&h);
    cov.state((kind, region.to_string(), root.to_string(), gaps));
    ensure_eq!(res.inserted_entrypoint, res.node_map[&region], "inserted entrypoint");
    let nodes = ss.under(region).into_iter().collect();
    Want { t: &ts, s: &ss, nodes, roots: vec![(region, root)], use_existing: BTreeMap::new(), replace: BTreeMap::new(), exts: true }.compare(&after, &res.node_map)
}

pub fn run(r: &mut Runner) {

    r.assume("requests name nodes of the source and of the target that have static outputs of the same kind");
    let deep = !r.quick();
    r.family("regions", "insert_hugr/insert_region/insert_from_view of every node of the source under every node of the target, and insert_subgraph of every sibling set of two regions", 30.0, regions);
    r.family("linking", "every assignment of directives (none, add, replace one or two functions, use one of two existing functions) to three functions and a constant of the source x 5 source entrypoints x 3 target entrypoints x parents; by HUGR, by view, through re-rooted views", r.b(100.0, 700.0), move |c, cov| linking(c, cov, deep));
    let k = r.b(2, 3);
    r.family("forest", &format!("insert_forest of every list of at most {k} (region, parent) pairs"), r.b(30.0, 200.0), move |c, cov| forest(c, cov, k));
    r.family("view-forest", "insert_view_forest of every selection of a subtree's nodes, at most one listed twice, in both orders, with at most two roots", r.b(60.0, 300.0), move |c, cov| view_forest(c, cov, deep));
}
