//! C13: checking a rewrite predicts its outcome; failure changes nothing.
use crate::explore::*;
use crate::families::*;
use crate::patch::*;
use crate::prog::*;
use crate::ensure;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::replace::{NewEdgeKind, NewEdgeSpec, Replacement};
use hugr_core::ops::{DFG, OpType, Value};
use hugr_core::{Hugr, HugrView, Node};
use std::collections::HashMap;

fn one(req: &Req, h: &Hugr, d: &str, cov: &mut Cov) -> Res {
    let mut g = h.clone();
    let r = perform(req, &mut g);
    let what = || format!("{}\n {d}", req.text());
    cov.step(1);
    let v = match r.verify {
        Ok(v) => v,
        Err(e) => return bad(format!("{}: verify panics: {e}\n {}", req.name(), what())),
    };
    let a = match r.apply {
        Ok(a) => a,
        Err(e) => return bad(format!("{}: apply panics (verify: {v:?}): {e}\n {}", req.name(), what())),
    };
    match (&v, &a) {
        (Ok(()), Ok(_)) => cov.outcome("applied"),
        (Err(x), Err(y)) => {
            cov.outcome("refused");
            ensure!(x == y, "{}: verify and apply report different errors: {x}; {y}\n {}", req.name(), what());
        }
        (Ok(()), Err(e)) => return bad(format!("{}: verify accepts but apply fails: {e}\n {}", req.name(), what())),
        (Err(e), Ok(_)) => return bad(format!("{}: verify refuses but apply succeeds: {e}\n {}", req.name(), what())),
    }
    if a.is_err() && r.unchanged {
        ensure!(g == *h, "{}: failed but the HUGR changed\n {}", req.name(), what());
    }
    cov.trace();
    Ok(())
}
/// main: in -> Not(a) -> DFG(d){Not(n)} -> out, with a constant and its load.
struct Base {
    h: Hugr,
    nodes: Vec<Node>,
    names: Vec<&'static str>,
}
fn base() -> Base {
    let mut h = Hugr::new();
    let (f, i, o) = func(&mut h, "main", pbool(), hugr_core::Visibility::Public);
    let a = add(&mut h, f, logic("Not"));
    let d = add(&mut h, f, DFG { signature: pbool() });
    let (di, dо) = region_io(&mut h, d, vec![b()], vec![b()]);
    let n = add(&mut h, d, logic("Not"));
    h.connect(i, 0, a, 0);
    h.connect(a, 0, d, 0);
    h.connect(di, 0, n, 0);
    h.connect(n, 0, dо, 0);
    h.connect(d, 0, o, 0);
    let l = load(&mut h, f, f, Value::true_val());
    let k = h.static_source(l.0).unwrap();
    order(&mut h, a, d);
    let m = h.module_root();
    // a node that is no longer there
    let gone = add(&mut h, f, logic("Not"));
    h.remove_node(gone);
    h.validate().unwrap();
    Base { nodes: vec![m, f, i, o, a, d, n, l.0, k, gone], names: vec!["module", "main", "in", "out", "a", "d", "n", "load", "const", "gone"], h }
}
/// Replacement graphs: (graph, its nodes below the entrypoint and the entrypoint)
fn repls() -> Vec<(Hugr, Vec<Node>)> {
    let mut v = vec![];
    for root in 0..3 {
        let sig = pbool();
        let op: OpType = match root {
            0 => hugr_core::ops::FuncDefn::new("x", sig).into(),
            1 => DFG { signature: sig }.into(),
            _ => hugr_core::ops::Module::new().into(),
        };
        let mut h = Hugr::new_with_entrypoint(op).unwrap();
        let e = h.entrypoint();
        let mut ns = vec![e];
        if root < 2 {
            let x = add(&mut h, e, logic("Not"));
            let y = add(&mut h, e, DFG { signature: pbool() });
            ns.extend([x, y]);
            if root == 1 {
                // a node outside the entrypoint
                let m = h.module_root();
                let (z, _, _) = func(&mut h, "z", pbool(), hugr_core::Visibility::Public);
                let _ = m;
                ns.push(z);
            }
        }
        v.push((h, ns));
    }
    v
}
const KINDS: usize = 7;
fn kind(k: usize) -> NewEdgeKind {
    let v = |s: usize, t: usize| NewEdgeKind::Value { src_pos: s.into(), tgt_pos: t.into() };
    match k {
        0 => v(0, 0),
        1 => NewEdgeKind::Order,
        2 => v(1, 0),
        3 => v(0, 1),
        4 => NewEdgeKind::Static { src_pos: 0.into(), tgt_pos: 0.into() },
        5 => NewEdgeKind::ControlFlow { src_pos: 0.into() },
        _ => v(7, 7),
    }
}
pub fn run(r: &mut Runner) {
    r.assume("rewrites name nodes of the HUGR they are applied to; removed nodes are only named where the rewrite documents an error for them (constant removal, cuts, edges of replacements)");
    let deep = !r.quick();
    for f in standard(deep) {
        let Fam { name, mut g, .. } = f;
        if !deep {
            g.stmts = g.stmts.min(2);
        }
        r.family(name, &format!("every program of at most {} statements of the family; every one-node request on every node, port and block set, cuts at every value input", g.stmts), r.b(8.0, 300.0), move |c, cov| {
            let (h, _, d) = gen_valid(c, &g, cov)?;
            cov.state(canon(&h));
            for q in simple_requests(&h) {
                one(&q, &h, &d, cov)?;
            }
            for e in h.nodes().filter(|n| h.get_optype(*n).is_container()).collect::<Vec<_>>() {
                use hugr_core::ops::OpTrait;
                if hugr_core::ops::OpTag::Const == h.get_optype(e).tag() {
                    continue;
                }
                let mut x = h.clone();
                x.set_entrypoint(e);
                for n in h.nodes() {
                    let q = match h.get_optype(n) {
                        OpType::DFG(_) => Req::Dfg(n),
                        OpType::Call(_) => Req::Call(n),
                        OpType::TailLoop(_) => Req::Peel(n),
                        OpType::DataflowBlock(_) => Req::Outline(vec![n]),
                        _ => continue,
                    };
                    one(&q, &x, &d, cov)?;
                }
            }
            for (n, p, _) in value_inputs(&h) {
                let par = h.get_parent(n).unwrap();
                for k in 0..6 {
                    one(&Req::Cut(par, vec![(n, p)], k), &h, &d, cov)?;
                }
            }
            Ok(())
        });
    }
    r.family("cut", "one program; every parent node, every one or two targets (any port of any node), six graphs to insert", r.b(30.0, 60.0), |c, cov| {
        let bs = base();
        let par = *c.pick(&bs.nodes);
        let k = c.choose(6);
        let n = c.choose(3);
        let t: Vec<(Node, usize)> = (0..n).map(|_| (*c.pick(&bs.nodes), c.choose(3))).collect();
        let d = format!("{} cut in {par:?} at {t:?} by {k}", bs.names.len());
        cov.describe(|| d.clone());
        cov.state(&d);
        let q = Req::Cut(par, t, k);
        one(&q, &bs.h, &format!("nodes {:?} = {:?}", bs.nodes, bs.names), cov)
    });
    r.family("gone", "constant removal of a node that is no longer there", 5.0, |c, cov| {
        let bs = base();
        let g = *bs.nodes.last().unwrap();
        let q = if c.flag() { Req::Load(g) } else { Req::Const(g) };
        cov.state(q.text());
        one(&q, &bs.h, "removed node", cov)
    });
    for (name, edges) in [("replace", 1), ("replace-2", 2)] {
        r.family(name, &format!("one program; every set of at most two removed nodes (or one twice), three replacement graphs, every adoption, at most {edges} new edges of every kind between any nodes"), r.b(40.0, 300.0), move |c, cov| {
            let mut bs = base();
            // the entrypoint: module, main, or the block
            let e = *c.pick(&[bs.nodes[0], bs.nodes[1], bs.nodes[5]]);
            bs.h.set_entrypoint(e);
            let removable = &bs.nodes[..9];
            let nrem = c.choose(3);
            let mut removal: Vec<Node> = vec![];
            for _ in 0..nrem {
                removal.push(*c.pick(removable));
            }
            let rs = repls();
            let ri = c.choose(rs.len());
            let (repl, rn) = rs[ri].clone();
            let mut adoptions = HashMap::new();
            let ad = c.choose(if edges == 1 { 3 } else { 2 });
            for _ in 0..ad {
                adoptions.insert(*c.pick(&rn), *c.pick(if edges == 1 { removable } else { &removable[4..7] }));
            }
            let (mut mu_inp, mut mu_out, mut mu_new) = (vec![], vec![], vec![]);
            let n = if edges == 1 { c.choose(2) } else { 2 };
            // pairs of edges: only of plausible kinds and ends
            let (host, kinds): (&[Node], usize) = if edges == 1 { (&bs.nodes, KINDS) } else { (&bs.nodes[2..6], 2) };
            for _ in 0..n {
                match c.choose(3) {
                    0 => mu_inp.push(NewEdgeSpec { src: *c.pick(host), tgt: *c.pick(&rn), kind: kind(c.choose(kinds)) }),
                    1 => mu_out.push(NewEdgeSpec { src: *c.pick(&rn), tgt: *c.pick(host), kind: kind(c.choose(kinds)) }),
                    _ => mu_new.push(NewEdgeSpec { src: *c.pick(host), tgt: *c.pick(host), kind: kind(c.choose(kinds)) }),
                }
            }
            let rp = Replacement { removal, replacement: repl, adoptions, mu_inp, mu_out, mu_new };
            let q = Req::Repl(rp);
            cov.describe(|| q.text());
            cov.state(c.choices());
            one(&q, &bs.h, &format!("nodes {:?} = {:?}", bs.nodes, bs.names), cov)
        });
    }
}
