//! C12: rewrites that apply preserve validity and meaning.
use crate::explore::*;
use crate::families::*;
use crate::interp::inputs;
use crate::patch::*;
use crate::prog::*;
use crate::{ensure, ensure_eq};
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::{Direction, Hugr, HugrView, Node, Port};
use std::collections::{BTreeMap, BTreeSet};

type Links = BTreeSet<(Port, Node, Port)>;
fn links(h: &Hugr, n: Node) -> Links {
    let mut s = BTreeSet::new();
    for d in [Direction::Incoming, Direction::Outgoing] {
        for p in h.node_ports(n, d) {
            for (m, q) in h.linked_ports(n, p) {
                s.insert((p, m, q));
            }
        }
    }
    s
}
fn meta(h: &Hugr, n: Node) -> BTreeMap<String, String> {
    h.node_metadata_map(n).iter().map(|(k, v)| (k.to_string(), format!("{v:?}"))).collect()
}
/// The effect of a successful rewrite on everything it did not declare.
fn frame(req: &Req, h: &Hugr, g: &Hugr, inv: &BTreeSet<Node>, what: &str) -> Res {
    let mut near: BTreeSet<Node> = inv.iter().flat_map(|n| h.descendants(*n)).collect();
    let seeds: Vec<Node> = near.iter().copied().collect();
    for n in seeds {
        for (_, m, _) in links(h, n) {
            near.insert(m);
        }
    }
    // functions and constants used by the copied body
    if let Req::Call(n) = req {
        for m in h.static_source(*n).into_iter().flat_map(|f| h.descendants(f)) {
            near.extend(h.static_source(m));
        }
    }
    for n in h.nodes() {
        if !g.contains_node(n) {
            ensure!(inv.contains(&n), "{}: removed {n:?}, which is not among the invalidated nodes {inv:?}\n {what}", req.name());
            continue;
        }
        if !inv.contains(&n) {
            ensure!(h.get_optype(n) == g.get_optype(n), "{}: changed the operation of {n:?}\n {what}", req.name());
            ensure_eq!(meta(h, n), meta(g, n), "{}: metadata of {n:?}\n {what}", req.name());
        }
        if !near.contains(&n) {
            ensure_eq!(h.get_parent(n), g.get_parent(n), "{}: parent of {n:?}\n {what}", req.name());
            ensure_eq!(links(h, n), links(g, n), "{}: links of {n:?}\n {what}", req.name());
        }
    }
    ensure_eq!(h.module_root(), g.module_root(), "module root");
    Ok(())
}
/// What the rewrite reports about the result.
fn outcome(req: &Req, h: &Hugr, g: &Hugr, done: &Done, what: &str) -> Res {
    match (req, done) {
        (Req::Dfg(n), Done::Nodes(v)) => {
            let [i, o] = h.get_io(*n).unwrap();
            ensure_eq!(*v, vec![*n, i, o], "inline dataflow block: removed nodes\n {what}");
            for x in v {
                ensure!(!g.contains_node(*x), "inline dataflow block: {x:?} still there\n {what}");
            }
            for x in h.children(*n).skip(2) {
                ensure_eq!(g.get_parent(x), h.get_parent(*n), "inline dataflow block: parent of {x:?}\n {what}");
            }
            ensure_eq!(g.num_nodes() + 3, h.num_nodes(), "inline dataflow block: nodes\n {what}");
        }
        (Req::Call(n), Done::Nodes(_)) => {
            let f = h.static_source(*n).unwrap();
            ensure!(g.get_optype(*n).is_dfg(), "inline call: not a DFG\n {what}");
            ensure_eq!(g.num_nodes(), h.num_nodes() + h.descendants(f).count() - 1, "inline call: nodes\n {what}");
        }
        (Req::Peel(n), Done::Nodes(_)) => {
            ensure!(g.get_optype(*n).is_dfg(), "peel loop: not a DFG\n {what}");
            // copy of the loop with its contents, conditional's two cases with input and output, and the new Output
            ensure_eq!(g.num_nodes(), h.num_nodes() + h.descendants(*n).count() + 2 * 3 + 1, "peel loop: nodes\n {what}");
        }
        (Req::Ident(n, p), Done::Nodes(v)) => {
            ensure_eq!(v.len(), 1, "identity");
            let x = v[0];
            ensure!(!h.contains_node(x), "insert identity: {x:?} existed before\n {what}");
            ensure_eq!(g.num_nodes(), h.num_nodes() + 1, "insert identity: nodes\n {what}");
            let p = hugr_core::IncomingPort::from(*p);
            ensure_eq!(g.single_linked_output(*n, p).map(|z| z.0), Some(x), "insert identity: not connected to {n:?}\n {what}");
            ensure_eq!(g.single_linked_output(x, 0), h.single_linked_output(*n, p), "insert identity: source\n {what}");
            ensure_eq!(g.get_parent(x), h.get_parent(*n), "insert identity: parent\n {what}");
        }
        (Req::Load(n), Done::Nodes(v)) => {
            ensure_eq!(Some(v[0]), h.static_source(*n), "remove LoadConstant: the constant\n {what}");
            ensure!(!g.contains_node(*n) && g.num_nodes() + 1 == h.num_nodes(), "remove LoadConstant: not removed\n {what}");
        }
        (Req::Const(n), Done::Nodes(v)) => {
            ensure_eq!(Some(v[0]), h.get_parent(*n), "remove Const: the parent\n {what}");
            ensure!(!g.contains_node(*n) && g.num_nodes() + 1 == h.num_nodes(), "remove Const: not removed\n {what}");
        }
        (Req::Outline(s), Done::Nodes(v)) => {
            let cfg = h.get_parent(s[0]).unwrap();
            ensure_eq!(g.get_parent(v[0]), Some(cfg), "outline: new block\n {what}");
            ensure_eq!(g.get_parent(v[1]), Some(v[0]), "outline: new CFG\n {what}");
            ensure!(g.get_optype(v[0]).is_dataflow_block() && g.get_optype(v[1]).is_cfg(), "outline: operations\n {what}");
            let mut want: BTreeSet<Node> = s.iter().copied().collect();
            let ch: BTreeSet<Node> = g.children(v[1]).collect();
            want.extend(ch.iter().filter(|n| g.get_optype(**n).is_exit_block()));
            ensure_eq!(ch, want, "outline: moved blocks\n {what}");
        }
        (Req::Cut(p, t, k), Done::Map(m)) => {
            let ins = cut(*k);
            let [i, o] = ins.get_io(ins.entrypoint()).unwrap();
            let kept: Vec<Node> = ins.children(ins.entrypoint()).filter(|n| *n != i && *n != o).collect();
            for (x, y) in m {
                if kept.contains(x) {
                    ensure_eq!(g.get_parent(*y), Some(*p), "cut: parent of {y:?}\n {what}");
                    ensure!(g.get_optype(*y) == ins.get_optype(*x), "cut: {x:?} to {y:?}\n {what}");
                }
            }
            for x in &kept {
                ensure!(m.contains_key(x), "cut: {x:?} not in the node map\n {what}");
            }
            ensure_eq!(g.num_nodes(), h.num_nodes() + kept.len(), "cut: nodes\n {what}");
            let _ = t;
        }
        (Req::Repl(r), Done::Map(m)) => {
            for x in r.replacement.children(r.replacement.entrypoint()) {
                let Some(y) = m.get(&x) else { return bad(format!("replacement: {x:?} not in the node map\n {what}")) };
                ensure!(g.contains_node(*y) && r.replacement.get_optype(x) == g.get_optype(*y), "replacement: {x:?} to {y:?}\n {what}");
            }
        }
        _ => {}
    }
    Ok(())
}
fn one(req: &Req, h: &Hugr, before: &[crate::interp::Beh], ins: &[Vec<crate::sem::V>], d: &str, cov: &mut Cov) -> Res {
    let mut g = h.clone();
    let r = perform(req, &mut g);
    cov.step(1);
    let what = || format!("{}\n {d}\n {}", req.text(), canon(h));
    let Ok(Ok(done)) = r.apply else {
        if let Err(e) = r.apply {
            return bad(format!("{}: panics: {e}\n {}", req.name(), what()));
        }
        return Ok(());
    };
    cov.outcome(req.name());
    let w = what();
    frame(req, h, &g, &r.invalidated, &w)?;
    outcome(req, h, &g, &done, &w)?;
    if let Req::Repl(_) = req {
        ensure_eq!(canon(&g), canon(h), "replacement by an identical copy\n {w}");
    }
    same_meaning(req.name(), before, &g, ins, false, &w)?;
    cov.trace();
    Ok(())
}
pub fn run(r: &mut Runner) {
    r.assume("programs are compared by their results, panics and effects per channel on all inputs; programs that diverge or depend on unspecified behaviour are not compared");
    let deep = !r.quick();
    for f in standard(deep) {
        let Fam { name, mut g, .. } = f;
        if !deep {
            g.stmts = g.stmts.min(2);
        }
        r.family(name, &format!("every program of at most {} statements of the family; every rewrite at every node, port and block set, identity cuts at every pair of value inputs, replacement of every set of at most two siblings by copies", g.stmts), r.b(10.0, 300.0), move |c, cov| {
            let (h, main, d) = gen_valid(c, &g, cov)?;
            cov.state(canon(&h));
            let ins = inputs(&g.ins);
            let before = behaviours(&h, main, &ins, false);
            let mut h = h;
            // metadata everywhere
            for n in h.nodes().collect::<Vec<_>>() {
                use hugr_core::hugr::hugrmut::HugrMut;
                h.set_metadata(n, "id", format!("{n:?}"));
            }
            for q in simple_requests(&h) {
                one(&q, &h, &before, &ins, &d, cov)?;
            }
            let vi = value_inputs(&h);
            for (x, (n, p, t)) in vi.iter().enumerate() {
                let par = h.get_parent(*n).unwrap();
                for k in [0, 2, 5] {
                    one(&Req::Cut(par, vec![(*n, *p)], k), &h, &before, &ins, &d, cov)?;
                }
                if let Some(up) = h.get_parent(par) {
                    one(&Req::Cut(up, vec![(*n, *p)], 0), &h, &before, &ins, &d, cov)?;
                }
                let _ = t;
                for (n2, p2, _) in &vi[x + 1..] {
                    one(&Req::Cut(par, vec![(*n, *p), (*n2, *p2)], 1), &h, &before, &ins, &d, cov)?;
                }
            }
            // replacement of siblings by copies
            for par in h.nodes() {
                let ch: Vec<Node> = h.children(par).collect();
                for x in 0..ch.len() {
                    for y in x..ch.len() {
                        let s = if x == y { vec![ch[x]] } else { vec![ch[x], ch[y]] };
                        if let Some(rp) = identical_replacement(&h, &s) {
                            // the copies have no metadata: removed with the originals
                            let mut h2 = h.clone();
                            for n in &s {
                                use hugr_core::hugr::hugrmut::HugrMut;
                                h2.remove_metadata(*n, "id");
                            }
                            if h2.entry_descendants().any(|n| n == h2.entrypoint() && s.contains(&n)) {
                                continue;
                            }
                            one(&Req::Repl(rp), &h2, &before, &ins, &d, cov)?;
                        }
                    }
                }
            }
            let _ = h.num_nodes();
            Ok(())
        });
    }
}
