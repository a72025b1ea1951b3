//! Families of generated programs shared by several checks.
use crate::explore::*;
use crate::prog::*;
use crate::{ensure, interp};
use hugr_core::extension::prelude::{MakeTuple, Noop, UnpackTuple};
use hugr_core::ops::{OpType, Tag, Value};
use hugr_core::std_extensions::arithmetic::int_types::ConstInt;
use hugr_core::{HugrView, Hugr};

pub fn tag_op(t: usize) -> OpType {
    Tag::new(t, vec![vec![].into(), vec![b()].into()]).into()
}
pub fn tuple_op() -> OpType {
    MakeTuple::new(vec![b(), b()].into()).into()
}
pub fn untuple_op() -> OpType {
    UnpackTuple::new(vec![b(), b()].into()).into()
}
pub fn tf() -> Vec<Value> {
    vec![Value::true_val(), Value::false_val()]
}
pub fn i8v(n: u64) -> Value {
    ConstInt::new_u(3, n).unwrap().into()
}

/// (name, what is enumerated, generator settings)
pub struct Fam {
    pub name: &'static str,
    pub bound: String,
    pub g: Gcfg,
}

/// The standard families. `deep` makes each one statement larger.
pub fn standard(deep: bool) -> Vec<Fam> {
    // the larger alternative of each pair is used only for deep runs
    fn sel<T>(deep: bool, small: T, large: T) -> T {
        if deep { large } else { small }
    }
    let mut v = vec![];
    let mut add = |name, what: &str, g: Gcfg| {
        let bound = format!("every program of at most {} statements, nesting depth {}: {what}", g.stmts, g.depth);
        v.push(Fam { name, bound, g });
    };
    add("straight", "straight-line bool and tuple code with dead values", Gcfg {
        stmts: sel(deep, 3, 4),
        free_out: true,
        leaves: vec![logic("Not"), logic("And"), test_op("opq"), tuple_op(), untuple_op(), Noop::new(b()).into()],
        consts: vec![Value::true_val()],
        const_at: 2,
        ..Default::default()
    });
    add("nest", "nested dataflow regions and conditionals with local and non-local reads", Gcfg {
        stmts: sel(deep, 2, 3),
        depth: 2,
        nonlocal: true,
        leaves: vec![logic("Not"), test_op("opq")],
        consts: vec![Value::true_val()],
        ctrs: vec![Ctr::Dfg, Ctr::CondB],
        ..Default::default()
    });
    add("nest-and", "nested regions with two-input operations and dead values", Gcfg {
        stmts: 2,
        depth: 2,
        nonlocal: true,
        free_out: deep,
        ins: vec![b(), b()],
        outs: sel(deep, vec![b()], vec![b(), b()]),
        leaves: sel(deep, vec![logic("And")], vec![logic("And"), tuple_op(), untuple_op()]),
        consts: sel(deep, vec![], vec![Value::false_val()]),
        const_at: 2,
        ctrs: vec![Ctr::Dfg, Ctr::CondB],
        ..Default::default()
    });
    add("loop", "tail loops", Gcfg {
        stmts: sel(deep, 2, 3),
        depth: 2,
        nonlocal: true,
        leaves: vec![logic("Not"), test_op("opq")],
        consts: tf(),
        ctrs: vec![Ctr::Loop, Ctr::LoopV],
        ..Default::default()
    });
    add("loop-mix", "loops, conditionals and dataflow blocks", Gcfg {
        stmts: sel(deep, 2, 3),
        depth: 2,
        nonlocal: true,
        free_out: true,
        leaves: vec![logic("Not")],
        consts: tf(),
        ctrs: vec![Ctr::Loop, Ctr::LoopV, Ctr::CondB, Ctr::Dfg],
        ..Default::default()
    });
    add("cfg", "control-flow graphs of up to two blocks, with reads of dominating blocks and outer values", Gcfg {
        stmts: 2,
        depth: 1,
        nonlocal: true,
        free_out: false,
        leaves: sel(deep, vec![logic("Not")], vec![logic("Not"), test_op("opq")]),
        consts: sel(deep, vec![], tf()),
        ctrs: vec![Ctr::Cfg],
        shapes: sel(deep, vec![shapes(1, true)[0].clone(), vec![vec![1, EXIT], vec![0]], vec![vec![1], vec![0, EXIT]], vec![vec![1, 0], vec![EXIT]]], [shapes(1, true), shapes(2, true)].concat()),
        ..Default::default()
    });
    add("cfg3", "control-flow graphs of three blocks", Gcfg {
        stmts: sel(deep, 1, 2),
        depth: 1,
        nonlocal: false,
        free_out: true,
        leaves: vec![logic("Not")],
        consts: vec![],
        ctrs: vec![Ctr::Cfg],
        shapes: shapes(3, true),
        ..Default::default()
    });
    add("call", "calls, function values and indirect calls of five functions (defined, external, opaque, recursive)", Gcfg {
        stmts: sel(deep, 2, 3),
        depth: 1,
        nonlocal: true,
        leaves: vec![logic("Not")],
        consts: vec![Value::true_val()],
        ctrs: vec![Ctr::Call, Ctr::LoadFn, Ctr::CallInd, Ctr::CondB],
        funcs: vec!["decl", "not", "true", "rec", "id"],
        ..Default::default()
    });
    add("effects", "operations and calls with effects, ordered by order edges", Gcfg {
        stmts: sel(deep, 2, 3),
        depth: 1,
        nonlocal: true,
        free_out: true,
        leaves: vec![logic("Not")],
        consts: vec![Value::true_val()],
        effs: vec![test_op("put_a"), test_op("get_a"), test_op("eff_b")],
        ctrs: vec![Ctr::Dfg, Ctr::CondB, Ctr::Call],
        funcs: vec!["eff", "twice"],
        ..Default::default()
    });
    add("nest3", "nested dataflow regions (one conditional kind) with non-local reads", Gcfg {
        stmts: 3,
        depth: 2,
        nonlocal: true,
        leaves: vec![logic("Not")],
        ctrs: vec![Ctr::Dfg, Ctr::CondB],
        args: sel(deep, 1, 2),
        ..Default::default()
    });
    add("loop3", "loops around dataflow blocks and operations", Gcfg {
        stmts: 3,
        depth: 2,
        nonlocal: true,
        leaves: vec![logic("Not")],
        ctrs: vec![Ctr::Loop, Ctr::Dfg],
        args: sel(deep, 1, 2),
        ..Default::default()
    });
    add("call3", "calls of defined and polymorphic functions and function values", Gcfg {
        stmts: 3,
        nonlocal: true,
        leaves: vec![logic("Not")],
        ctrs: vec![Ctr::Call, Ctr::LoadFn, Ctr::CallInd, Ctr::Dfg],
        funcs: sel(deep, vec!["decl", "id"], vec!["decl", "not", "id"]),
        ..Default::default()
    });
    add("effects3", "operations and calls with effects inside and around dataflow blocks", Gcfg {
        stmts: 3,
        nonlocal: true,
        free_out: deep,
        effs: vec![test_op("put_a"), test_op("get_a")],
        ctrs: vec![Ctr::Dfg, Ctr::Call],
        funcs: vec!["eff", "twice"],
        ..Default::default()
    });
    add("linear", "a linear token threaded through operations and regions", Gcfg {
        stmts: sel(deep, 3, 4),
        depth: 1,
        nonlocal: true,
        free_out: true,
        ins: vec![q(), b()],
        outs: vec![q(), b()],
        leaves: vec![test_op("q0"), test_op("qb"), test_op("qm"), test_op("qnew"), test_op("qdel"), test_op("qq")],
        ctrs: vec![Ctr::Dfg, Ctr::CondB, Ctr::Loop],
        args: 0,
        ..Default::default()
    });
    add("sum", "sum values: tags, conditionals on them, tuples", Gcfg {
        stmts: sel(deep, 3, 4),
        depth: 1,
        nonlocal: true,
        leaves: vec![tag_op(0), tag_op(1), logic("Not"), tuple_op(), untuple_op()],
        consts: vec![Value::true_val()],
        ctrs: vec![Ctr::CondS, Ctr::CondB],
        ..Default::default()
    });
    add("int", "integer arithmetic and comparison", Gcfg {
        stmts: sel(deep, 3, 4),
        depth: 1,
        free_out: true,
        ins: vec![b(), int8()],
        outs: vec![int8(), b()],
        leaves: vec![int_op("iadd", 3), int_op("idiv_u", 3), int_op("ilt_s", 3), test_op("opqi")],
        consts: vec![i8v(0), i8v(255)],
        const_at: 1,
        ..Default::default()
    });
    v
}

/// Builds one program of a family, validates it, and returns it with its main function.
pub fn gen_valid(c: &mut Chooser, g: &Gcfg, cov: &mut Cov) -> Result<(Hugr, hugr_core::Node, String), Fail> {
    let p = Gen::program(c, g.clone())?;
    let d = p.describe();
    cov.describe(|| d.clone());
    match guard(|| p.h.validate()) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return bad(format!("generated program is rejected by validation: {e}\n {d}")),
        Err(e) => return bad(format!("validation panics: {e}\n {d}")),
    }
    Ok((p.h, p.main, d))
}
/// All behaviours of `main`.
pub fn behaviours(h: &Hugr, f: hugr_core::Node, ins: &[Vec<crate::sem::V>], strict: bool) -> Vec<interp::Beh> {
    ins.iter().map(|i| interp::run_mode(h, f, i, strict)).collect()
}
/// The transformed program is valid and behaves as the original.
pub fn same_meaning(what: &str, before: &[interp::Beh], h: &Hugr, ins: &[Vec<crate::sem::V>], strict: bool, desc: &str) -> Res {
    match guard(|| h.validate()) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return bad(format!("{what}: result is invalid: {e}\n {desc}")),
        Err(e) => return bad(format!("{what}: validation of the result panics: {e}\n {desc}")),
    }
    same_meaning_fn(what, before, h, "main", ins, strict, desc)
}
/// As [`same_meaning`], of some function.
pub fn same_meaning_fn(what: &str, before: &[interp::Beh], h: &Hugr, fname: &str, ins: &[Vec<crate::sem::V>], strict: bool, desc: &str) -> Res {
    let Some(f) = interp::find_fn(h, fname) else { return bad(format!("{what}: {fname} disappeared\n {desc}")) };
    for (k, i) in ins.iter().enumerate() {
        if matches!(before[k].out, Err(interp::Stop::Fuel | interp::Stop::Unspecified)) {
            continue;
        }
        let z = interp::run_fuel(h, f, i, strict, 10 * interp::FUEL);
        if let Err(e) = interp::refines(&before[k], &z) {
            return bad(format!("{what}: {fname}: {e}\n on {i:?}\n {desc}\n result:\n{}", canon(h)));
        }
    }
    ensure!(true, "");
    Ok(())
}
