//! C10: optimisation passes preserve meaning and validity.
use crate::explore::*;
use crate::families::*;
use crate::interp::{Beh, find_fn, inputs};
use crate::prog::*;
use crate::sem::V;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops::Value;
use hugr_core::{Hugr, HugrView, IncomingPort, Node};
use hugr_passes::const_fold::ConstantFoldPass;
use hugr_passes::inline_dfgs::InlineDFGsPass;
use hugr_passes::non_local::LocalizeEdges;
use hugr_passes::untuple::UntupleRecursive;
use hugr_passes::{ComposablePass, DeadCodeElimPass, RemoveDeadFuncsPass, UntuplePass, force_order, inline_acyclic};

type P = (&'static str, fn(&mut Hugr) -> Result<(), String>);

fn s<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}
fn main_of(h: &Hugr) -> Node {
    find_fn(h, "main").unwrap()
}
fn fold(h: &mut Hugr, f: impl Fn(ConstantFoldPass) -> ConstantFoldPass) -> Result<(), String> {
    let fns: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
    let mut p = f(ConstantFoldPass::default());
    for n in fns {
        p = p.with_inputs(n, Vec::<(IncomingPort, Value)>::new());
    }
    p.run(h).map_err(s)
}
/// Passes that keep behaviour under demand-driven execution.
pub const PASSES: &[P] = &[
    ("constant folding", |h| fold(h, |p| p)),
    ("constant folding (entry main)", |h| {
        let m = main_of(h);
        h.set_entrypoint(m);
        ConstantFoldPass::default().run(h).map_err(s)
    }),
    ("constant folding (only main live)", |h| {
        let m = main_of(h);
        ConstantFoldPass::default().with_inputs(m, Vec::<(IncomingPort, Value)>::new()).run(h).map_err(s)
    }),
    ("constant folding (terminating)", |h| fold(h, |p| p.allow_increase_termination())),
    ("dead code elimination", |h| {
        let m = main_of(h);
        DeadCodeElimPass::default().with_entry_points([m]).run(h).map_err(s)
    }),
    ("dead code elimination (entry main)", |h| {
        let m = main_of(h);
        h.set_entrypoint(m);
        DeadCodeElimPass::default().run(h).map_err(s)
    }),
    ("inline dataflow blocks", |h| InlineDFGsPass.run(h).map_err(s)),
    ("inline functions", |h| inline_acyclic(h, |_, _| true).map_err(s)),
    ("inline some functions", |h| {
        let skip: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_call()).step_by(2).collect();
        inline_acyclic(h, |_, n| !skip.contains(&n)).map_err(s)
    }),
    ("untuple", |h| UntuplePass::new(UntupleRecursive::Recursive).run(h).map(|_| ()).map_err(s)),
    ("untuple (main region)", |h| {
        let m = main_of(h);
        UntuplePass::new(UntupleRecursive::NonRecursive).set_parent(m).run(h).map(|_| ()).map_err(s)
    }),
    ("remove dead functions", |h| {
        let m = main_of(h);
        RemoveDeadFuncsPass::default().with_module_entry_points([m]).run(h).map_err(s)
    }),
    ("localise edges", |h| LocalizeEdges.run(h).map_err(s)),
    ("pipeline", |h| {
        fold(h, |p| p)?;
        InlineDFGsPass.run(h).map_err(s)?;
        inline_acyclic(h, |_, _| true).map_err(s)?;
        InlineDFGsPass.run(h).map_err(s)?;
        fold(h, |p| p)?;
        LocalizeEdges.run(h).map_err(s)?;
        UntuplePass::new(UntupleRecursive::Recursive).run(h).map(|_| ()).map_err(s)?;
        let m = main_of(h);
        RemoveDeadFuncsPass::default().with_module_entry_points([m]).run(h).map_err(s)
    }),
];
fn rank_rev(_: &Hugr, n: Node) -> i64 {
    -(hugr_core::NodeIndex::index(n) as i64)
}
/// Passes that fix more order: compared executing every operation.
const STRICT: &[P] = &[
    ("force order", |h| {
        let m = h.module_root();
        force_order(h, m, |_, _| 0).map_err(s)
    }),
    ("force order (reversed ranks)", |h| {
        let m = h.module_root();
        force_order(h, m, rank_rev).map_err(s)
    }),
    ("force order, then inline", |h| {
        let m = h.module_root();
        force_order(h, m, rank_rev).map_err(s)?;
        InlineDFGsPass.run(h).map_err(s)
    }),
];

pub fn run(r: &mut Runner) {
    r.assume("operations with effects are connected to their region's Output by order edges; an operation from which Output cannot be reached need not be executed (order forcing is compared executing every operation)");
    let deep = !r.quick();
    let count_only = std::env::var("HX_COUNT").is_ok();
    for f in standard(deep) {
        let Fam { name, bound, g } = f;
        r.family(name, &format!("{bound}; each through {} pass configurations and all bool inputs", PASSES.len() + STRICT.len() + 2), r.b(40.0, 300.0), move |c, cov| {
            let (h, main, d) = gen_valid(c, &g, cov)?;
            cov.state(canon(&h));
            if count_only {
                return Ok(());
            }
            let ins = inputs(&g.ins);
            let before = behaviours(&h, main, &ins, false);
            for b in &before {
                cov.outcome(match &b.out {
                    Ok(_) => "value",
                    Err(crate::interp::Stop::Panic) => "panic",
                    Err(crate::interp::Stop::Fuel) => "divergence",
                    Err(_) => "unspecified",
                });
            }
            // the other functions, as far as they can be called with bools
            let others: Vec<(Node, String)> = h
                .children(h.module_root())
                .filter_map(|n| Some((n, h.get_optype(n).as_func_defn()?)))
                .filter(|(n, f)| *n != main && *f.signature() == pbool().into())
                .map(|(n, f)| (n, f.func_name().clone()))
                .collect();
            let bools = inputs(&[b()]);
            let others: Vec<(String, Vec<Beh>)> = others.into_iter().map(|(n, f)| (f, behaviours(&h, n, &bools, false))).collect();
            for (n, p) in PASSES {
                if let Some(g2) = one(n, p, &h, &before, &ins, false, &d)? {
                    if !n.contains("main") && *n != "pipeline" && *n != "dead code elimination" {
                        for (f, before) in &others {
                            crate::ensure!(*n == "remove dead functions" || find_fn(&g2, f).is_some(), "{n}: function {f} disappeared\n {d}");
                            if find_fn(&g2, f).is_some() {
                                same_meaning_fn(n, before, &g2, f, &bools, false, &d)?;
                            }
                        }
                    }
                }
                cov.step(1);
                cov.trace();
            }
            let before = behaviours(&h, main, &ins, true);
            for (n, p) in STRICT {
                one(n, p, &h, &before, &ins, true, &d)?;
                cov.step(1);
                cov.trace();
            }
            // folding for known inputs: must agree on those inputs
            let before = behaviours(&h, main, &ins, false);
            for (k, i) in ins.iter().enumerate() {
                let mut g2 = h.clone();
                let vals: Vec<(IncomingPort, Value)> =
                    i.iter().zip(&g.ins).enumerate().filter_map(|(p, (v, t))| Some((IncomingPort::from(p), v.to_const(t)?))).collect();
                let m = main_of(&g2);
                match guard(|| ConstantFoldPass::default().with_inputs(m, vals).run(&mut g2)) {
                    Ok(Ok(())) => {}
                    x => return bad(format!("folding with inputs fails: {x:?}\n {d}")),
                }
                same_meaning("folding with inputs", &before[k..k + 1], &g2, std::slice::from_ref(i), false, &d)?;
                cov.trace();
            }
            Ok(())
        });
    }
}
fn one(n: &str, p: &fn(&mut Hugr) -> Result<(), String>, h: &Hugr, before: &[crate::interp::Beh], ins: &[Vec<V>], strict: bool, d: &str) -> Result<Option<Hugr>, Fail> {
    let mut g = h.clone();
    match guard(|| p(&mut g)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return bad(format!("{n}: fails: {e}\n {d}")),
        // known: tuple operations with order edges (an existing test requires the panic)
        Err(e) if e.contains("UnsupportedEdgeKind") && e.contains("untuple.rs") => return bad_key("untuple-panic:order-edge", format!("{n}: panics: {e}\n {d}")),
        Err(e) => return bad(format!("{n}: panics: {e}\n {d}")),
    }
    if g == *h {
        return Ok(None); // nothing changed
    }
    same_meaning(n, before, &g, ins, strict, d)?;
    Ok(Some(g))
}
