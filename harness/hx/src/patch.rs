//! Rewrite requests shared by C12 and C13.
use crate::explore::guard;
use crate::prog::*;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::hugr::patch::consts::{RemoveConst, RemoveLoadConstant};
use hugr_core::hugr::patch::inline_call::InlineCall;
use hugr_core::hugr::patch::inline_dfg::InlineDFG;
use hugr_core::hugr::patch::insert_cut::InsertCut;
use hugr_core::hugr::patch::insert_identity::IdentityInsertion;
use hugr_core::hugr::patch::outline_cfg::OutlineCfg;
use hugr_core::hugr::patch::peel_loop::PeelTailLoop;
use hugr_core::hugr::patch::replace::{NewEdgeKind, NewEdgeSpec, Replacement};
use hugr_core::hugr::patch::{PatchHugrMut, PatchVerification};
use hugr_core::ops::handle::DfgID;
use hugr_core::ops::DFG;
use hugr_core::types::{EdgeKind, Signature, Type};
use hugr_core::{Hugr, HugrView, IncomingPort, Node, PortIndex};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub enum Req {
    Dfg(Node),
    Call(Node),
    Peel(Node),
    Ident(Node, usize),
    Load(Node),
    Const(Node),
    Outline(Vec<Node>),
    Cut(Node, Vec<(Node, usize)>, usize),
    Repl(Replacement),
}
impl Req {
    pub fn name(&self) -> &'static str {
        match self {
            Req::Dfg(_) => "inline dataflow block",
            Req::Call(_) => "inline call",
            Req::Peel(_) => "peel loop",
            Req::Ident(..) => "insert identity",
            Req::Load(_) => "remove LoadConstant",
            Req::Const(_) => "remove Const",
            Req::Outline(_) => "outline blocks",
            Req::Cut(..) => "insert cut",
            Req::Repl(_) => "replacement",
        }
    }
    pub fn text(&self) -> String {
        match self {
            Req::Repl(r) => format!(
                "{}: remove {:?} adopt {:?} inp {:?} out {:?} new {:?} by\n{}",
                self.name(),
                r.removal,
                r.adoptions,
                r.mu_inp,
                r.mu_out,
                r.mu_new,
                canon(&r.replacement)
            ),
            x => format!("{x:?}"),
        }
    }
}
/// What a rewrite reports.
#[derive(Clone, Debug, PartialEq)]
pub enum Done {
    Nodes(Vec<Node>),
    Map(HashMap<Node, Node>),
}
/// What happened: the answers of verify and apply (or the panic message), the
/// declared invalidated nodes, and whether it promises to change nothing on failure.
pub struct Ran {
    pub verify: Result<Result<(), String>, String>,
    pub apply: Result<Result<Done, String>, String>,
    pub invalidated: BTreeSet<Node>,
    pub unchanged: bool,
}
/// Dataflow graphs to insert as a cut.
pub fn cut(k: usize) -> Hugr {
    let id = |ins: Vec<Type>, outs: Vec<Type>, noop: bool| {
        let mut h = Hugr::new_with_entrypoint(DFG { signature: Signature::new(ins.clone(), outs.clone()) }).unwrap();
        let e = h.entrypoint();
        let (i, o) = region_io(&mut h, e, ins.clone(), outs.clone());
        for k in 0..outs.len() {
            let j = k.min(ins.len() - 1);
            if noop {
                let m = add(&mut h, e, hugr_core::extension::prelude::Noop::new(outs[k].clone()));
                h.connect(i, j, m, 0);
                h.connect(m, 0, o, k);
            } else {
                h.connect(i, j, o, k);
            }
        }
        h
    };
    match k {
        0 => id(vec![b()], vec![b()], true),
        1 => id(vec![b(), b()], vec![b(), b()], true),
        2 => id(vec![q()], vec![q()], false),
        3 => id(vec![b()], vec![b(), b()], true),
        4 => Hugr::new(),
        _ => id(vec![b()], vec![b()], false),
    }
}
fn run<R: PatchHugrMut + PatchVerification<Node = Node>>(r: impl Fn() -> R, h: &mut Hugr, done: impl Fn(<R as PatchHugrMut>::Outcome) -> Done) -> Ran
where
    R::Error: std::fmt::Debug,
{
    let before = h.clone();
    // the same request object answers verify and is applied
    let req = r();
    let verify = guard(|| req.verify(&before).map_err(|e| format!("{e:?} / {e}")));
    let invalidated = guard(|| req.invalidated_nodes(&before).collect()).unwrap_or_default();
    let apply = guard(|| req.apply_hugr_mut(h).map(done).map_err(|e| format!("{e:?} / {e}")));
    Ran { verify, apply, invalidated, unchanged: <R as PatchHugrMut>::UNCHANGED_ON_FAILURE }
}
pub fn perform(req: &Req, h: &mut Hugr) -> Ran {
    let unit = |_| Done::Nodes(vec![]);
    let ts = |ts: &[(Node, usize)]| ts.iter().map(|(n, p)| (*n, IncomingPort::from(*p))).collect::<Vec<_>>();
    match req {
        Req::Dfg(n) => run(|| InlineDFG(DfgID::from(*n)), h, |x| Done::Nodes(x.to_vec())),
        Req::Call(n) => run(|| InlineCall::new(*n), h, unit),
        Req::Peel(n) => run(|| PeelTailLoop::new(*n), h, unit),
        Req::Ident(n, p) => run(|| IdentityInsertion::new(*n, IncomingPort::from(*p)), h, |x| Done::Nodes(vec![x])),
        Req::Load(n) => run(|| RemoveLoadConstant(*n), h, |x| Done::Nodes(vec![x])),
        Req::Const(n) => run(|| RemoveConst(*n), h, |x| Done::Nodes(vec![x])),
        Req::Outline(s) => run(|| OutlineCfg::new(s.iter().copied()), h, |x| Done::Nodes(x.to_vec())),
        Req::Cut(p, t, k) => run(|| InsertCut::new(*p, ts(t), cut(*k)), h, Done::Map),
        Req::Repl(r) => run(|| r.clone(), h, Done::Map),
    }
}
/// The value inputs of the dataflow nodes.
pub fn value_inputs(h: &Hugr) -> Vec<(Node, usize, Type)> {
    let mut v = vec![];
    for n in h.nodes() {
        for p in h.node_inputs(n) {
            if let Some(EdgeKind::Value(t)) = h.get_optype(n).port_kind(p) {
                v.push((n, p.index(), t));
            }
        }
    }
    v
}
/// Requests that name one node (and perhaps a port or blocks), for every node.
pub fn simple_requests(h: &Hugr) -> Vec<Req> {
    let mut v = vec![];
    for n in h.nodes() {
        v.push(Req::Dfg(n));
        v.push(Req::Call(n));
        v.push(Req::Peel(n));
        v.push(Req::Load(n));
        v.push(Req::Const(n));
        for p in 0..=h.num_inputs(n) {
            v.push(Req::Ident(n, p));
        }
        if h.get_optype(n).is_cfg() {
            let ch: Vec<Node> = h.children(n).collect();
            for m in 0..1u32 << ch.len().min(5) {
                v.push(Req::Outline(ch.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, n)| *n).collect()));
            }
            v.push(Req::Outline(vec![ch[0], n]));
        } else {
            v.push(Req::Outline(vec![n]));
        }
    }
    v
}
/// The exact replacement of siblings by copies of themselves (contents are adopted).
/// None if the nodes cannot be replaced that way.
pub fn identical_replacement(h: &Hugr, s: &[Node]) -> Option<Replacement> {
    let parent = h.get_parent(s[0])?;
    let root = h.get_optype(parent).clone();
    let mut r = Hugr::new_with_entrypoint(root).ok()?;
    let re = r.entrypoint();
    let mut map: HashMap<Node, Node> = HashMap::new();
    let mut adoptions = HashMap::new();
    let inside: BTreeSet<Node> = s.iter().flat_map(|n| h.descendants(*n)).collect();
    for n in s {
        let m = r.add_node_with_parent(re, h.get_optype(*n).clone());
        r.add_ports(m, hugr_core::Direction::Incoming, h.num_inputs(*n) as isize - r.num_inputs(m) as isize);
        r.add_ports(m, hugr_core::Direction::Outgoing, h.num_outputs(*n) as isize - r.num_outputs(m) as isize);
        map.insert(*n, m);
        if h.children(*n).next().is_some() {
            adoptions.insert(m, *n);
        }
    }
    let mut mu_inp = vec![];
    let mut mu_out = vec![];
    for a in h.nodes() {
        for p in h.node_outputs(a) {
            for (z, w) in h.linked_inputs(a, p) {
                let kind = match h.get_optype(a).port_kind(p) {
                    Some(EdgeKind::Value(_)) => NewEdgeKind::Value { src_pos: p, tgt_pos: w },
                    Some(EdgeKind::StateOrder) => NewEdgeKind::Order,
                    Some(EdgeKind::ControlFlow) => NewEdgeKind::ControlFlow { src_pos: p },
                    _ => NewEdgeKind::Static { src_pos: p, tgt_pos: w },
                };
                match (map.get(&a), map.get(&z)) {
                    (Some(x), Some(y)) => r.connect(*x, p, *y, w),
                    (Some(x), None) => {
                        // (an edge to a descendant of a removed node is also recreated)
                        mu_out.push(NewEdgeSpec { src: *x, tgt: z, kind })
                    }
                    (None, Some(y)) => {
                        if inside.contains(&a) {
                            return None;
                        }
                        mu_inp.push(NewEdgeSpec { src: a, tgt: *y, kind })
                    }
                    (None, None) => {}
                }
            }
        }
    }
    Some(Replacement { removal: s.to_vec(), replacement: r, adoptions, mu_inp, mu_out, mu_new: vec![] })
}
