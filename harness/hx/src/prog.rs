//! Exhaustive generator of small programs, written against the raw graph-editing
//! interface (no builders), so that every decision is visible to the explorer.
use crate::explore::{Chooser, Fail};
use hugr_core::extension::prelude::{bool_t, qb_t};
use hugr_core::extension::{Extension, ExtensionRegistry, SignatureFunc};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::ops::{self, OpTrait, OpType, Value, handle::NodeHandle};
use hugr_core::std_extensions::arithmetic::int_types::INT_TYPES;
use hugr_core::types::{PolyFuncType, Signature, SumType, Type, TypeArg, TypeBound, TypeRow, type_param::TypeParam};
use hugr_core::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Visibility};
use std::sync::{Arc, LazyLock};

/// Test extension: operations unknown to every pass.
/// `eff_<chan>`/`put_<chan>`/`get_<chan>` have effects on a channel, `q<k>` act on a
/// linear token, `opq` is an opaque boolean negation.
pub static TEST_EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc("vp.test".try_into().unwrap(), semver::Version::new(0, 1, 0), |e, w| {
        let b = bool_t();
        let q = qb_t();
        let mut op = |n: &str, i: Vec<Type>, o: Vec<Type>| {
            e.add_op(n.into(), n.to_string(), SignatureFunc::from(PolyFuncType::from(Signature::new(i, o))), w).unwrap();
        };
        for c in ["a", "b"] {
            op(&format!("eff_{c}"), vec![], vec![]);
            op(&format!("put_{c}"), vec![b.clone()], vec![]);
            op(&format!("get_{c}"), vec![], vec![b.clone()]);
        }
        op("opq", vec![b.clone()], vec![b.clone()]);
        op("opq2", vec![b.clone(), b.clone()], vec![b.clone(), b.clone()]);
        op("src", vec![], vec![b.clone()]);
        for k in 0..2 {
            op(&format!("q{k}"), vec![q.clone()], vec![q.clone()]);
        }
        op("qb", vec![q.clone(), b.clone()], vec![q.clone()]);
        op("qm", vec![q.clone()], vec![q.clone(), b.clone()]);
        op("qq", vec![q.clone(), q.clone()], vec![q.clone(), q.clone()]);
        op("qnew", vec![], vec![q.clone()]);
        op("qdel", vec![q.clone()], vec![]);
        op("opqi", vec![INT_TYPES[3].clone()], vec![INT_TYPES[3].clone()]);
        // an effect naming the place it occurs at, and a choice from outside the program
        let mark = PolyFuncType::new([TypeParam::max_nat_type()], Signature::new(vec![b.clone()], vec![b.clone()]));
        e.add_op("mark".into(), "mark".into(), SignatureFunc::from(mark), w).unwrap();
        let sel = PolyFuncType::new([TypeParam::RuntimeType(TypeBound::Linear)], Signature::new(vec![b.clone()], vec![Type::new_var_use(0, TypeBound::Linear)]));
        e.add_op("sel".into(), "sel".into(), SignatureFunc::from(sel), w).unwrap();
    })
});
pub fn test_op(name: &str) -> OpType {
    TEST_EXT.instantiate_extension_op(name, []).unwrap().into()
}
pub fn mark(k: u64) -> OpType {
    TEST_EXT.instantiate_extension_op("mark", [k.into()]).unwrap().into()
}
/// An operation `B -> t` choosing the variant of the sum `t`.
pub fn sel(t: Type) -> OpType {
    TEST_EXT.instantiate_extension_op("sel", [t.into()]).unwrap().into()
}
pub fn b() -> Type {
    bool_t()
}
pub fn q() -> Type {
    qb_t()
}
pub fn int8() -> Type {
    INT_TYPES[3].clone()
}
pub fn logic(n: &str) -> OpType {
    hugr_core::std_extensions::logic::EXTENSION.instantiate_extension_op(n, []).unwrap().into()
}
pub fn prelude_op(n: &str, args: Vec<TypeArg>) -> OpType {
    hugr_core::extension::prelude::PRELUDE.instantiate_extension_op(n, args).unwrap().into()
}
pub fn int_op(n: &str, lw: u8) -> OpType {
    hugr_core::std_extensions::arithmetic::int_ops::EXTENSION.instantiate_extension_op(n, [(lw as u64).into()]).unwrap().into()
}
pub fn tuple_t(v: Vec<Type>) -> Type {
    Type::new_tuple(v)
}
/// `[] | [Bool]`
pub fn opt_t() -> SumType {
    SumType::new([vec![], vec![b()]])
}
/// Every extension used by generated programs.
pub fn registry() -> ExtensionRegistry {
    let mut r = hugr_core::std_extensions::std_reg();
    r.register_updated(TEST_EXT.clone());
    r
}

pub type W = (Node, usize);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ctr {
    /// nested dataflow region (bool result; with/without a bool argument)
    Dfg,
    /// conditional on a bool, optionally passing a bool
    CondB,
    /// conditional on `[] | [Bool]`
    CondS,
    /// tail loop carrying a bool: the body gives a bool predicate (true = stop)
    Loop,
    /// tail loop whose continue/break variants carry a bool: `Sum([B],[B])`
    LoopV,
    /// control-flow graph carrying a bool; shapes from `Gcfg::shapes`
    Cfg,
    /// call one of `Gcfg::funcs` (of signature B -> B)
    Call,
    /// load one of the functions as a value
    LoadFn,
    /// call a function value
    CallInd,
}

/// A block shape: successors of each block (indices; `usize::MAX` is the exit).
pub type Shape = Vec<Vec<usize>>;
pub const EXIT: usize = usize::MAX;

#[derive(Clone)]
pub struct Gcfg {
    pub ins: Vec<Type>,
    pub outs: Vec<Type>,
    /// total number of statements (containers included)
    pub stmts: usize,
    /// nesting depth allowed for containers
    pub depth: usize,
    pub leaves: Vec<OpType>,
    /// constants to load
    pub consts: Vec<Value>,
    /// where constants are placed: 1 = same region, 2 = also module
    pub const_at: usize,
    pub ctrs: Vec<Ctr>,
    /// operations with effects (order-chained)
    pub effs: Vec<OpType>,
    /// may nested regions read values of enclosing regions directly?
    pub nonlocal: bool,
    /// the result of a region may be any value, not only those of the last statement
    pub free_out: bool,
    pub shapes: Vec<Shape>,
    /// names of library functions callable (see `Gen::lib`)
    pub funcs: Vec<&'static str>,
    /// statements must use exactly `stmts` (no smaller programs)
    pub exact: bool,
    /// containers take a bool argument: 0 never, 1 always, 2 choice
    pub args: usize,
}
impl Default for Gcfg {
    fn default() -> Self {
        Gcfg {
            ins: vec![b()],
            outs: vec![b()],
            stmts: 3,
            depth: 1,
            leaves: vec![],
            consts: vec![],
            const_at: 1,
            ctrs: vec![],
            effs: vec![],
            nonlocal: false,
            free_out: false,
            shapes: vec![],
            funcs: vec![],
            exact: false,
            args: 2,
        }
    }
}

#[derive(Clone)]
pub struct FnInfo {
    pub name: &'static str,
    pub node: Node,
    pub poly: PolyFuncType,
    pub args: Vec<TypeArg>,
}

/// A region under construction.
pub struct R {
    pub parent: Node,
    pub inp: Node,
    pub out: Node,
    pub pool: Vec<(W, Type)>,
    /// index in `pool` of the first value made in this region by a statement
    own: usize,
    /// first pool index of the results of the last statement
    last: usize,
    /// linear tokens waiting to be consumed
    pub lin: Vec<W>,
    /// last effect per channel
    last_eff: Vec<(char, Node)>,
    pub depth: usize,
}

pub struct Gen<'a> {
    pub h: Hugr,
    pub c: &'a mut Chooser,
    pub g: Gcfg,
    pub left: usize,
    pub fns: Vec<FnInfo>,
    pub main: Node,
    pub log: Vec<String>,
}

pub fn pbool() -> Signature {
    Signature::new(vec![b()], vec![b()])
}

// ---- raw construction helpers -------------------------------------------------
pub fn add(h: &mut Hugr, parent: Node, op: impl Into<OpType>) -> Node {
    h.add_node_with_parent(parent, op.into())
}
pub fn region_io(h: &mut Hugr, parent: Node, ins: impl Into<TypeRow>, outs: impl Into<TypeRow>) -> (Node, Node) {
    let i = add(h, parent, ops::Input { types: ins.into() });
    let o = add(h, parent, ops::Output { types: outs.into() });
    (i, o)
}
/// Connects a value, adding the order edge a non-local edge requires.
pub fn wire(h: &mut Hugr, src: W, dst: Node, port: usize) {
    let (sp, dp) = (h.get_parent(src.0).unwrap(), h.get_parent(dst).unwrap());
    if sp != dp {
        // ancestor of dst that is a sibling of src
        let mut a = dp;
        loop {
            let Some(p) = h.get_parent(a) else { break };
            if p == sp {
                order(h, src.0, a);
                break;
            }
            a = p;
        }
    }
    h.connect(src.0, OutgoingPort::from(src.1), dst, IncomingPort::from(port));
}
/// Adds an order edge if there is none.
pub fn order(h: &mut Hugr, a: Node, z: Node) {
    let (Some(op), Some(ip)) = (h.get_optype(a).other_output_port(), h.get_optype(z).other_input_port()) else { return };
    if !h.linked_inputs(a, op).any(|(n, p)| n == z && p == ip) {
        h.connect(a, op, z, ip);
    }
}
pub fn load(h: &mut Hugr, const_parent: Node, parent: Node, v: Value) -> W {
    let t = v.get_type();
    let k = add(h, const_parent, ops::Const::new(v));
    let l = add(h, parent, ops::LoadConstant { datatype: t });
    h.connect(k, 0, l, 0);
    (l, 0)
}
pub fn call_node(h: &mut Hugr, parent: Node, f: &FnInfo) -> Node {
    let op: OpType = ops::Call::try_new(f.poly.clone(), f.args.clone()).unwrap().into();
    let p = op.static_input_port().unwrap();
    let c = add(h, parent, op);
    h.connect(f.node, 0, c, p);
    c
}
pub fn load_fn(h: &mut Hugr, parent: Node, f: &FnInfo) -> W {
    let op: OpType = ops::LoadFunction::try_new(f.poly.clone(), f.args.clone()).unwrap().into();
    let p = op.static_input_port().unwrap();
    let c = add(h, parent, op);
    h.connect(f.node, 0, c, p);
    (c, 0)
}
pub fn func(h: &mut Hugr, name: &str, sig: impl Into<PolyFuncType>, vis: Visibility) -> (Node, Node, Node) {
    let sig: PolyFuncType = sig.into();
    let m = h.module_root();
    let (i, o) = (sig.body().input().clone(), sig.body().output().clone());
    let f = add(h, m, ops::FuncDefn::new_vis(name, sig, vis));
    let (i, o) = region_io(h, f, i, o);
    (f, i, o)
}

impl<'a> Gen<'a> {
    /// A module with the library functions and a public function `main` with an
    /// enumerated body. The entrypoint stays the module root.
    pub fn program(c: &'a mut Chooser, g: Gcfg) -> Result<Gen<'a>, Fail> {
        let mut s = Gen::start(c, g);
        s.main_body()?;
        Ok(s)
    }
    pub fn start(c: &'a mut Chooser, g: Gcfg) -> Gen<'a> {
        let mut h = Hugr::new();
        h.use_extensions(registry().iter().cloned());
        let left = g.stmts;
        let m = h.module_root();
        let mut s = Gen { h, c, left, fns: vec![], main: m, log: vec![], g };
        for f in s.g.funcs.clone() {
            s.lib(f);
        }
        s
    }
    pub fn main_body(&mut self) -> Result<(), Fail> {
        let (ins, outs) = (self.g.ins.clone(), self.g.outs.clone());
        let (f, i, o) = func(&mut self.h, "main", Signature::new(ins.clone(), outs.clone()), Visibility::Public);
        self.main = f;
        let mut r = self.region(f, i, o, &ins, None);
        self.stmts(&mut r)?;
        let w = self.results(&mut r, &outs)?;
        self.finish(&mut r, w)?;
        if self.g.exact && self.left > 0 {
            return Err(Fail::Skip);
        }
        Ok(())
    }
    pub fn describe(&self) -> String {
        self.log.join("; ")
    }

    /// Adds a library function.
    pub fn lib(&mut self, name: &'static str) {
        let h = &mut self.h;
        let m = h.module_root();
        let sig = pbool();
        let mut args = vec![];
        let (node, poly): (Node, PolyFuncType) = match name {
            "decl" => (add(h, m, ops::FuncDecl::new("decl", sig.clone())), sig.into()),
            "not" => {
                let (f, i, o) = func(h, name, sig.clone(), Visibility::Private);
                let n = add(h, f, logic("Not"));
                wire(h, (i, 0), n, 0);
                wire(h, (n, 0), o, 0);
                (f, sig.into())
            }
            "true" => {
                let (f, _, o) = func(h, name, sig.clone(), Visibility::Private);
                let w = load(h, f, f, Value::true_val());
                wire(h, w, o, 0);
                (f, sig.into())
            }
            "eff" => {
                // put its argument on channel a
                let (f, i, o) = func(h, name, sig.clone(), Visibility::Private);
                let n = add(h, f, test_op("put_a"));
                wire(h, (i, 0), n, 0);
                order(h, i, n);
                order(h, n, o);
                wire(h, (i, 0), o, 0);
                (f, sig.into())
            }
            "opq" => {
                let (f, i, o) = func(h, name, sig.clone(), Visibility::Private);
                let n = add(h, f, test_op("opq"));
                wire(h, (i, 0), n, 0);
                wire(h, (n, 0), o, 0);
                (f, sig.into())
            }
            // calls the previous library function twice
            "twice" => {
                let inner = self.fns.last().unwrap().clone();
                let (f, i, o) = func(h, name, sig.clone(), Visibility::Private);
                let x = call_node(h, f, &inner);
                let y = call_node(h, f, &inner);
                wire(h, (i, 0), x, 0);
                wire(h, (x, 0), y, 0);
                order(h, i, x);
                order(h, x, y);
                order(h, y, o);
                wire(h, (y, 0), o, 0);
                (f, sig.into())
            }
            // if b then rec(false) else true
            "rec" => {
                let (f, i, o) = func(h, name, sig.clone(), Visibility::Private);
                let me = FnInfo { name, node: f, poly: sig.clone().into(), args: vec![] };
                let cd = add(h, f, ops::Conditional { sum_rows: vec![vec![].into(), vec![].into()], other_inputs: vec![].into(), outputs: vec![b()].into() });
                wire(h, (i, 0), cd, 0);
                for k in 0..2 {
                    let cs = add(h, cd, ops::Case { signature: Signature::new(vec![], vec![b()]) });
                    let (_, co) = region_io(h, cs, vec![], vec![b()]);
                    let w = load(h, cs, cs, Value::from_bool(k == 0));
                    if k == 0 {
                        wire(h, w, co, 0);
                    } else {
                        let cl = call_node(h, cs, &me);
                        wire(h, w, cl, 0);
                        wire(h, (cl, 0), co, 0);
                    }
                }
                wire(h, (cd, 0), o, 0);
                (f, sig.into())
            }
            // polymorphic identity, instantiated at Bool
            "id" => {
                let t = Type::new_var_use(0, TypeBound::Linear);
                let poly = PolyFuncType::new([TypeBound::Linear.into()], Signature::new(vec![t.clone()], vec![t]));
                let (f, i, o) = func(h, name, poly.clone(), Visibility::Private);
                wire(h, (i, 0), o, 0);
                args = vec![b().into()];
                (f, poly)
            }
            _ => panic!("HARNESS: no library function {name}"),
        };
        self.fns.push(FnInfo { name, node, poly, args });
    }

    /// Opens a region whose Input/Output nodes exist already.
    pub fn region(&mut self, parent: Node, inp: Node, out: Node, ins: &[Type], outer: Option<&R>) -> R {
        let mut pool = vec![];
        if let (true, Some(o)) = (self.g.nonlocal, outer) {
            pool.extend(o.pool.iter().cloned());
        }
        let mut lin = vec![];
        for (k, t) in ins.iter().enumerate() {
            if t.copyable() {
                pool.push(((inp, k), t.clone()));
            } else {
                lin.push((inp, k));
            }
        }
        let n = pool.len();
        R { parent, inp, out, pool, own: n, last: n, lin, last_eff: vec![], depth: outer.map_or(0, |o| o.depth + 1) }
    }
    fn new_region(&mut self, parent: Node, ins: &[Type], outs: &[Type], outer: &R) -> R {
        let (i, o) = region_io(&mut self.h, parent, ins.to_vec(), outs.to_vec());
        self.region(parent, i, o, ins, Some(outer))
    }
    /// Picks a value of the type from the pool.
    pub fn pick(&mut self, r: &R, t: &Type) -> Result<W, Fail> {
        let c: Vec<W> = r.pool.iter().filter(|x| x.1 == *t).map(|x| x.0).collect();
        if c.is_empty() {
            return Err(Fail::Skip);
        }
        Ok(c[self.c.choose(c.len())])
    }
    fn results(&mut self, r: &mut R, outs: &[Type]) -> Result<Vec<W>, Fail> {
        let mut ws = vec![];
        let (mut used_last, has_last) = (false, r.last < r.pool.len() && r.last >= r.own);
        for t in outs {
            if !t.copyable() {
                if r.lin.is_empty() {
                    return Err(Fail::Skip);
                }
                let k = self.c.choose(r.lin.len());
                ws.push(r.lin.remove(k));
                continue;
            }
            let w = self.pick(r, t)?;
            used_last |= r.pool[r.last.min(r.pool.len())..].iter().any(|x| x.0 == w);
            ws.push(w);
        }
        if !self.g.free_out && has_last && !used_last {
            return Err(Fail::Skip);
        }
        if !r.lin.is_empty() {
            return Err(Fail::Skip);
        }
        Ok(ws)
    }
    /// Wires the outputs and closes the effect chains.
    pub fn finish(&mut self, r: &mut R, outs: Vec<W>) -> Result<(), Fail> {
        for (k, w) in outs.into_iter().enumerate() {
            wire(&mut self.h, w, r.out, k);
        }
        for (_, n) in &r.last_eff {
            order(&mut self.h, *n, r.out);
        }
        Ok(())
    }
    /// Chains a node that has (or may have) effects on the channel.
    fn effect(&mut self, r: &mut R, n: Node, ch: char) {
        match r.last_eff.iter().position(|x| x.0 == ch) {
            Some(k) => {
                let p = r.last_eff[k].1;
                if p != n {
                    order(&mut self.h, p, n);
                }
                r.last_eff[k].1 = n;
            }
            None => {
                order(&mut self.h, r.inp, n);
                r.last_eff.push((ch, n));
            }
        }
    }
    fn has_effects(&self, n: Node) -> bool {
        let eff = |x: Node| match self.h.get_optype(x) {
            OpType::ExtensionOp(e) => {
                let s = e.def().name();
                s.starts_with("eff_") || s.starts_with("put_") || s.starts_with("get_")
            }
            OpType::Call(_) => true,
            OpType::CallIndirect(_) => true,
            _ => false,
        };
        self.h.descendants(n).any(eff)
    }
    fn close_ctr(&mut self, r: &mut R, n: Node) {
        if self.has_effects(n) && !self.g.effs.is_empty() {
            for ch in ['a', 'b'] {
                self.effect(r, n, ch);
            }
        }
        let op = self.h.get_optype(n).clone();
        r.last = r.pool.len();
        if let Some(s) = op.dataflow_signature() {
            for (k, t) in s.output().iter().enumerate() {
                if t.copyable() {
                    r.pool.push(((n, k), t.clone()));
                } else {
                    r.lin.push((n, k));
                }
            }
        }
    }
    fn opt_arg(&mut self, r: &R) -> Result<Option<W>, Fail> {
        let take = match self.g.args {
            0 => false,
            1 => true,
            _ => self.c.flag(),
        };
        if take { Ok(Some(self.pick(r, &b())?)) } else { Ok(None) }
    }

    /// Enumerates the statements of a region.
    pub fn stmts(&mut self, r: &mut R) -> Result<(), Fail> {
        while self.left > 0 {
            // enabled alternatives: stop | consts | leaves | effects | containers
            let has = |t: &Type, n: usize| {
                if t.copyable() { r.pool.iter().any(|x| x.1 == *t) } else { r.lin.len() >= n }
            };
            let ok = |op: &OpType| {
                let s = op.dataflow_signature().unwrap();
                let nl = s.input().iter().filter(|t| !t.copyable()).count();
                s.input().iter().all(|t| has(t, nl))
            };
            enum A {
                Stop,
                C(usize),
                L(OpType),
                E(OpType),
                K(Ctr),
            }
            let mut alts = vec![A::Stop];
            alts.extend((0..self.g.consts.len()).map(A::C));
            alts.extend(self.g.leaves.iter().filter(|o| ok(o)).cloned().map(A::L));
            alts.extend(self.g.effs.iter().filter(|o| ok(o)).cloned().map(A::E));
            for k in &self.g.ctrs {
                let e = match k {
                    Ctr::Call | Ctr::CondB | Ctr::Cfg | Ctr::LoopV => has(&b(), 0),
                    Ctr::CondS => has(&opt_t().into(), 0),
                    Ctr::CallInd => has(&fn_t(), 0),
                    _ => true,
                };
                let nest = !matches!(k, Ctr::Call | Ctr::LoadFn | Ctr::CallInd);
                if e && (!nest || r.depth < self.g.depth) {
                    alts.push(A::K(*k));
                }
            }
            let a = self.c.choose(alts.len());
            let a = alts.swap_remove(a);
            if let A::Stop = a {
                return Ok(());
            }
            self.left -= 1;
            match a {
                A::Stop => unreachable!(),
                A::C(k) => {
                    let v = self.g.consts[k].clone();
                    let at = if self.c.choose(self.g.const_at) == 0 { r.parent } else { self.h.module_root() };
                    let t = v.get_type();
                    self.log.push(format!("d{} const#{k}", r.depth));
                    let w = load(&mut self.h, at, r.parent, v);
                    r.last = r.pool.len();
                    r.pool.push((w, t));
                }
                A::L(op) => self.leaf(r, op, None)?,
                A::E(op) => {
                    let ch = match &op {
                        OpType::ExtensionOp(e) => e.def().name().chars().last(),
                        _ => None,
                    };
                    self.leaf(r, op, ch)?
                }
                A::K(k) => self.ctr(r, k)?,
            }
        }
        Ok(())
    }
    fn leaf(&mut self, r: &mut R, op: OpType, ch: Option<char>) -> Result<(), Fail> {
        let s = op.dataflow_signature().unwrap().into_owned();
        let mut ins = vec![];
        for t in s.input().iter() {
            if t.copyable() {
                ins.push(self.pick(r, t)?);
            } else {
                let k = self.c.choose(r.lin.len());
                ins.push(r.lin.remove(k));
            }
        }
        self.log.push(format!("d{} {}{ins:?}", r.depth, op));
        let n = add(&mut self.h, r.parent, op);
        for (k, w) in ins.into_iter().enumerate() {
            wire(&mut self.h, w, n, k);
        }
        if let Some(ch) = ch {
            self.effect(r, n, ch);
        }
        r.last = r.pool.len();
        for (k, t) in s.output().iter().enumerate() {
            if t.copyable() {
                r.pool.push(((n, k), t.clone()));
            } else {
                r.lin.push((n, k));
            }
        }
        Ok(())
    }
    /// Passes one linear token through a container?
    fn lin_arg(&mut self, r: &mut R) -> Vec<W> {
        if !r.lin.is_empty() && self.c.flag() { vec![r.lin.remove(0)] } else { vec![] }
    }
    fn ctr(&mut self, r: &mut R, k: Ctr) -> Result<(), Fail> {
        match k {
            Ctr::Dfg => {
                let a = self.opt_arg(r)?;
                let l = self.lin_arg(r);
                let mut ins: Vec<Type> = a.iter().map(|_| b()).collect();
                let mut outs = vec![b()];
                ins.extend(l.iter().map(|_| q()));
                outs.extend(l.iter().map(|_| q()));
                self.log.push(format!("d{} dfg({a:?},{l:?}) {{", r.depth));
                let n = add(&mut self.h, r.parent, ops::DFG { signature: Signature::new(ins.clone(), outs.clone()) });
                for (k, w) in a.iter().chain(&l).enumerate() {
                    wire(&mut self.h, *w, n, k);
                }
                let mut i = self.new_region(n, &ins, &outs, r);
                self.stmts(&mut i)?;
                let w = self.results(&mut i, &outs)?;
                self.log.push(format!("}} -> {w:?}"));
                self.finish(&mut i, w)?;
                self.close_ctr(r, n);
            }
            Ctr::CondB | Ctr::CondS => {
                let st: SumType = if k == Ctr::CondB { SumType::new_unary(2) } else { opt_t() };
                let p = self.pick(r, &st.clone().into())?;
                let a = self.opt_arg(r)?;
                let l = self.lin_arg(r);
                let mut oi: Vec<Type> = a.iter().map(|_| b()).collect();
                let mut outs = vec![b()];
                oi.extend(l.iter().map(|_| q()));
                outs.extend(l.iter().map(|_| q()));
                let rows: Vec<TypeRow> = if k == Ctr::CondB { vec![vec![].into(), vec![].into()] } else { vec![vec![].into(), vec![b()].into()] };
                self.log.push(format!("d{} cond({p:?},{a:?},{l:?})", r.depth));
                let n = add(&mut self.h, r.parent, ops::Conditional { sum_rows: rows.clone(), other_inputs: oi.clone().into(), outputs: outs.clone().into() });
                wire(&mut self.h, p, n, 0);
                for (k, w) in a.iter().chain(&l).enumerate() {
                    wire(&mut self.h, *w, n, k + 1);
                }
                for (t, row) in rows.iter().enumerate() {
                    let mut ins: Vec<Type> = row.iter().cloned().collect();
                    ins.extend(oi.iter().cloned());
                    self.log.push(format!("case {t} {{"));
                    let cs = add(&mut self.h, n, ops::Case { signature: Signature::new(ins.clone(), outs.clone()) });
                    let mut i = self.new_region(cs, &ins, &outs, r);
                    self.stmts(&mut i)?;
                    let w = self.results(&mut i, &outs)?;
                    self.log.push(format!("}} -> {w:?}"));
                    self.finish(&mut i, w)?;
                }
                self.close_ctr(r, n);
            }
            Ctr::Loop => {
                let a = self.opt_arg(r)?;
                let l = self.lin_arg(r);
                let mut rest: Vec<Type> = a.iter().map(|_| b()).collect();
                rest.extend(l.iter().map(|_| q()));
                self.log.push(format!("d{} loop({a:?},{l:?}) {{", r.depth));
                let n = add(&mut self.h, r.parent, ops::TailLoop { just_inputs: vec![].into(), just_outputs: vec![].into(), rest: rest.clone().into() });
                for (k, w) in a.iter().chain(&l).enumerate() {
                    wire(&mut self.h, *w, n, k);
                }
                let mut outs = vec![b()];
                outs.extend(rest.iter().cloned());
                let mut i = self.new_region(n, &rest, &outs, r);
                self.stmts(&mut i)?;
                let w = self.results(&mut i, &outs)?;
                self.log.push(format!("}} -> {w:?}"));
                self.finish(&mut i, w)?;
                self.close_ctr(r, n);
            }
            Ctr::LoopV => {
                // continue [B] | break [B]
                let a = self.pick(r, &b())?;
                let l = self.lin_arg(r);
                let rest: Vec<Type> = l.iter().map(|_| q()).collect();
                let st = SumType::new([vec![b()], vec![b()]]);
                self.log.push(format!("d{} loopv({a:?},{l:?}) {{", r.depth));
                let n = add(&mut self.h, r.parent, ops::TailLoop { just_inputs: vec![b()].into(), just_outputs: vec![b()].into(), rest: rest.clone().into() });
                for (k, w) in [a].iter().chain(&l).enumerate() {
                    wire(&mut self.h, *w, n, k);
                }
                let mut ins = vec![b()];
                ins.extend(rest.iter().cloned());
                let mut outs: Vec<Type> = vec![st.clone().into()];
                outs.extend(rest.iter().cloned());
                let mut i = self.new_region(n, &ins, &outs, r);
                self.stmts(&mut i)?;
                // predicate: conditional on a bool choosing continue/break with a value, or a fixed tag
                let v = self.pick(&i, &b())?;
                let kind = self.c.choose(3);
                let pw = if kind < 2 {
                    let t = add(&mut self.h, n, ops::Tag::new(kind, vec![vec![b()].into(), vec![b()].into()]));
                    wire(&mut self.h, v, t, 0);
                    (t, 0)
                } else {
                    let p = self.pick(&i, &b())?;
                    let cd = add(&mut self.h, n, ops::Conditional { sum_rows: vec![vec![].into(), vec![].into()], other_inputs: vec![b()].into(), outputs: vec![st.clone().into()].into() });
                    wire(&mut self.h, p, cd, 0);
                    wire(&mut self.h, v, cd, 1);
                    for k in 0..2 {
                        let cs = add(&mut self.h, cd, ops::Case { signature: Signature::new(vec![b()], vec![st.clone().into()]) });
                        let (ci, co) = region_io(&mut self.h, cs, vec![b()], vec![Type::from(st.clone())]);
                        let t = add(&mut self.h, cs, ops::Tag::new(k, vec![vec![b()].into(), vec![b()].into()]));
                        wire(&mut self.h, (ci, 0), t, 0);
                        wire(&mut self.h, (t, 0), co, 0);
                    }
                    self.log.push(format!("if {p:?} break"));
                    (cd, 0)
                };
                let mut w = vec![pw];
                w.append(&mut i.lin);
                self.log.push(format!("}} {} {v:?}", ["continue", "break", "either"][kind]));
                if w.len() != outs.len() {
                    return Err(Fail::Skip);
                }
                self.finish(&mut i, w)?;
                self.close_ctr(r, n);
            }
            Ctr::Cfg => {
                let a = self.pick(r, &b())?;
                let k = self.c.choose(self.g.shapes.len());
                let sh = self.g.shapes[k].clone();
                self.log.push(format!("d{} cfg {sh:?}({a:?})", r.depth));
                let n = add(&mut self.h, r.parent, ops::CFG { signature: pbool() });
                wire(&mut self.h, a, n, 0);
                self.cfg_blocks(n, &sh, r)?;
                self.close_ctr(r, n);
            }
            Ctr::Call => {
                let k = self.c.choose(self.fns.len());
                let f = self.fns[k].clone();
                let a = self.pick(r, &b())?;
                self.log.push(format!("d{} call {}({a:?})", r.depth, f.name));
                let n = call_node(&mut self.h, r.parent, &f);
                wire(&mut self.h, a, n, 0);
                self.close_ctr(r, n);
            }
            Ctr::LoadFn => {
                let k = self.c.choose(self.fns.len());
                let f = self.fns[k].clone();
                self.log.push(format!("d{} loadfn {}", r.depth, f.name));
                let w = load_fn(&mut self.h, r.parent, &f);
                r.last = r.pool.len();
                r.pool.push((w, fn_t()));
            }
            Ctr::CallInd => {
                let f = self.pick(r, &fn_t())?;
                let a = self.pick(r, &b())?;
                self.log.push(format!("d{} callind {f:?}({a:?})", r.depth));
                let n = add(&mut self.h, r.parent, ops::CallIndirect { signature: pbool() });
                wire(&mut self.h, f, n, 0);
                wire(&mut self.h, a, n, 1);
                self.close_ctr(r, n);
            }
        }
        Ok(())
    }
    /// The blocks of a control-flow graph carrying one bool; the predicate of a block with
    /// two successors is any bool, that of a block with one is a unit constant.
    pub fn cfg_blocks(&mut self, n: Node, sh: &Shape, r: &R) -> Result<(), Fail> {
        let mut blocks = vec![];
        let mut ex = None;
        for (k, succ) in sh.iter().enumerate() {
            let bn = add(&mut self.h, n, ops::DataflowBlock { inputs: vec![b()].into(), other_outputs: vec![b()].into(), sum_rows: vec![TypeRow::new(); succ.len()] });
            blocks.push(bn);
            if k == 0 {
                ex = Some(add(&mut self.h, n, ops::ExitBlock { cfg_outputs: vec![b()].into() }));
            }
        }
        // block 0 dominates every reachable block: its values may be used there
        let mut dom: Option<Vec<(W, Type)>> = None;
        for (k, succ) in sh.iter().enumerate() {
            let pt: Type = SumType::new_unary(succ.len() as u8).into();
            let outs = vec![pt.clone(), b()];
            self.log.push(format!("block {k} {{"));
            let mut i = self.new_region(blocks[k], &[b()], &outs, r);
            if let (Some(d), true) = (&dom, self.g.nonlocal) {
                let at = i.own - 1;
                i.pool.splice(at..at, d.iter().cloned());
                i.own += d.len();
                i.last = i.own;
            }
            self.stmts(&mut i)?;
            let p = if succ.len() == 2 {
                self.pick(&i, &b())?
            } else {
                load(&mut self.h, blocks[k], blocks[k], Value::unary_unit_sum())
            };
            let v = self.pick(&i, &b())?;
            if !self.g.free_out && i.last >= i.own && i.last < i.pool.len() && i.pool[i.last..].iter().all(|x| x.0 != p && x.0 != v) {
                return Err(Fail::Skip);
            }
            self.log.push(format!("}} br {p:?} with {v:?}"));
            if k == 0 {
                let outer = i.own - 1;
                dom = Some(i.pool[outer..].to_vec());
            }
            self.finish(&mut i, vec![p, v])?;
        }
        for (k, succ) in sh.iter().enumerate() {
            for (j, s) in succ.iter().enumerate() {
                let t = if *s == EXIT { ex.unwrap() } else { blocks[*s] };
                self.h.connect(blocks[k], j, t, 0);
            }
        }
        Ok(())
    }
}
pub fn fn_t() -> Type {
    Type::new_function(pbool())
}

/// All graphs of `n` blocks with 1..=2 successors each in which every block is reachable
/// from block 0 (the entry) and, if `to_exit`, can reach the exit.
pub fn shapes(n: usize, to_exit: bool) -> Vec<Shape> {
    let tg: Vec<usize> = (0..n).chain([EXIT]).collect();
    let mut opts: Vec<Vec<usize>> = tg.iter().map(|t| vec![*t]).collect();
    for a in &tg {
        for z in &tg {
            opts.push(vec![*a, *z]);
        }
    }
    let mut out = vec![];
    let mut idx = vec![0; n];
    loop {
        let s: Shape = idx.iter().map(|i| opts[*i].clone()).collect();
        let reach = |from: usize| {
            let mut seen = vec![false; n];
            let mut ex = false;
            let mut st = vec![from];
            while let Some(x) = st.pop() {
                if x == EXIT {
                    ex = true;
                } else if !seen[x] {
                    seen[x] = true;
                    st.extend(&s[x]);
                }
            }
            (seen, ex)
        };
        if reach(0).0.iter().all(|x| *x) && (!to_exit || (0..n).all(|k| reach(k).1)) {
            out.push(s);
        }
        let mut k = 0;
        loop {
            if k == n {
                return out;
            }
            idx[k] += 1;
            if idx[k] < opts.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
    }
}

/// A canonical rendering of a HUGR, independent of node indices: operations in
/// hierarchy order with their edges (by position). Metadata included.
pub fn canon(h: &Hugr) -> String {
    use std::collections::HashMap;
    let mut ix: HashMap<Node, usize> = HashMap::new();
    let order: Vec<Node> = h.descendants(h.module_root()).collect();
    // depth-first order by children
    fn dfs(h: &Hugr, n: Node, v: &mut Vec<Node>) {
        v.push(n);
        for c in h.children(n) {
            dfs(h, c, v);
        }
    }
    let mut v = vec![];
    dfs(h, h.module_root(), &mut v);
    debug_assert_eq!(v.len(), order.len());
    for (k, n) in v.iter().enumerate() {
        ix.insert(*n, k);
    }
    let mut s = String::new();
    use std::fmt::Write;
    for n in &v {
        let _ = write!(s, "{}<{:?} {} [{}]", ix[n], h.get_parent(*n).map(|p| ix[&p]), op_text(h.get_optype(*n)), h.num_inputs(*n));
        for p in h.node_outputs(*n) {
            let mut t: Vec<(usize, usize)> = h.linked_inputs(*n, p).map(|(m, q)| (ix[&m], q.index())).collect();
            t.sort();
            if !t.is_empty() {
                let _ = write!(s, " {}>{t:?}", p.index());
            }
        }
        let md: std::collections::BTreeMap<_, _> = h.node_metadata_map(*n).iter().collect();
        if !md.is_empty() {
            let _ = write!(s, " #{md:?}");
        }
        s.push('\n');
    }
    let _ = write!(s, "entry {:?}", ix.get(&h.entrypoint()));
    s
}
pub fn op_text(o: &OpType) -> String {
    match o {
        OpType::ExtensionOp(e) => format!("{}.{}<{:?}>", e.def().extension_id(), e.def().name(), e.args()),
        OpType::Const(c) => format!("Const({:?})", c.value()),
        o => format!("{o:?}"),
    }
}
pub fn dir_ports(h: &Hugr, n: Node) -> (usize, usize) {
    (h.num_ports(n, Direction::Incoming), h.num_ports(n, Direction::Outgoing))
}
pub fn node_of<N: NodeHandle>(n: N) -> Node {
    n.node()
}
#[allow(dead_code)]
fn _t(h: &Hugr) -> &Hugr {
    let _ = h.module_root();
    h
}
