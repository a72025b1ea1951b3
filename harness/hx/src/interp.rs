//! Reference interpreter of HUGR programs.
//!
//! Demand-driven mode: in each dataflow region exactly the nodes from which the Output
//! node can be reached along value or order edges are executed. Strict mode: every node.
use crate::sem::{Ev, FnV, V, eval_op, sum_row};
use hugr_core::ops::{OpTrait, OpType, Value};
use hugr_core::types::{EdgeKind, Term, Type, TypeArg, TypeEnum};
use hugr_core::{Hugr, HugrView, IncomingPort, Node, PortIndex};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Stop {
    Panic,
    Fuel,
    Unspecified,
    /// a choice is needed that the tape does not hold; the number of alternatives
    Tape(usize),
    /// the program is outside the interpreter's knowledge, or ill-formed
    Stuck(String),
}
pub type Out = Result<Vec<V>, Stop>;

#[derive(Default)]
pub struct Ctx {
    pub fuel: u64,
    pub strict: bool,
    pub trace: BTreeMap<char, Vec<String>>,
    pub unordered: bool,
    /// values seen on each (call path-insensitive) wire, when recording
    pub record: Option<HashMap<(Node, usize), Vec<V>>>,
    /// blocks executed (control-flow), in order
    pub blocks: Vec<Node>,
    /// regions executed
    pub regions: HashSet<Node>,
    /// which of (continue, break) each loop did
    pub loops: HashMap<Node, (bool, bool)>,
    /// choices made by `sel` operations
    pub tape: Vec<usize>,
    pub tape_at: usize,
}
pub struct Interp<'h, 'c> {
    pub h: &'h Hugr,
    pub x: &'c mut Ctx,
    frames: Vec<HashMap<(Node, usize), V>>,
    args: Vec<TypeArg>,
    orders: HashMap<Node, Rc<(Vec<Node>, HashMap<Node, HashSet<Node>>)>>,
    top: bool,
}

/// Result of one execution.
#[derive(Clone, PartialEq, Debug)]
pub struct Beh {
    pub out: Out,
    pub trace: BTreeMap<char, Vec<String>>,
    pub unordered: bool,
}
/// Steps granted to a program; a transformed program gets ten times as many.
pub const FUEL: u64 = 500;

pub fn run(h: &Hugr, f: Node, ins: &[V]) -> Beh {
    run_mode(h, f, ins, false)
}
pub fn run_mode(h: &Hugr, f: Node, ins: &[V], strict: bool) -> Beh {
    run_fuel(h, f, ins, strict, FUEL)
}
pub fn run_fuel(h: &Hugr, f: Node, ins: &[V], strict: bool, fuel: u64) -> Beh {
    let mut x = Ctx { fuel, strict, ..Default::default() };
    let out = Interp::new(h, &mut x).node_region(f, ins.to_vec());
    Beh { out, trace: x.trace, unordered: x.unordered }
}
/// Does `z` (after a transformation) behave as `a` (before) allows?
pub fn refines(a: &Beh, z: &Beh) -> Result<(), String> {
    match (&a.out, &z.out) {
        (Err(Stop::Fuel | Stop::Unspecified), _) => return Ok(()),
        (Err(Stop::Stuck(s)), _) => return Err(format!("HARNESS: original program stuck: {s}")),
        (Err(Stop::Panic), Err(Stop::Panic)) => return Ok(()),
        (Ok(x), Ok(y)) if x == y => {}
        (x, y) => return Err(format!("results differ: before {x:?}, after {y:?}")),
    }
    if a.trace != z.trace && !a.unordered {
        return Err(format!("effects differ: before {:?}, after {:?}", a.trace, z.trace));
    }
    if z.unordered && !a.unordered {
        return Err("operations with effects on the same channel are no longer ordered".into());
    }
    Ok(())
}
/// A function of the module by name.
pub fn find_fn(h: &Hugr, name: &str) -> Option<Node> {
    h.children(h.module_root()).find(|n| matches!(h.get_optype(*n), OpType::FuncDefn(d) if d.func_name() == name))
}
/// All boolean input vectors (linear tokens get distinct values).
pub fn inputs(tys: &[Type]) -> Vec<Vec<V>> {
    let mut acc = vec![vec![]];
    for (k, t) in tys.iter().enumerate() {
        let dom = domain(t, k);
        acc = acc.into_iter().flat_map(|p: Vec<V>| dom.iter().map(move |d| { let mut p = p.clone(); p.push(d.clone()); p })).collect();
    }
    acc
}
/// A small domain of values of a type.
pub fn domain(t: &Type, k: usize) -> Vec<V> {
    match t.as_type_enum() {
        TypeEnum::Sum(s) => {
            let mut out = vec![];
            for tag in 0..s.num_variants() {
                let Some(row) = sum_row(s, tag) else { continue };
                for f in inputs(&row) {
                    out.push(V::Sum(tag, f));
                }
            }
            out
        }
        TypeEnum::Extension(c) if c.name() == "int" => {
            let Term::BoundedNat(w) = c.args()[0] else { return vec![] };
            let m = if w == 6 { u64::MAX } else { (1u64 << (1 << w)) - 1 };
            let mut v = vec![0, 1, m];
            v.dedup();
            v.sort();
            v.dedup();
            v.into_iter().map(|x| V::Int(w as u8, x)).collect()
        }
        TypeEnum::Extension(c) if c.name() == "qubit" => vec![V::Tok(1000 + k as u64)],
        TypeEnum::Extension(c) if c.name() == "usize" => vec![V::Usize(0), V::Usize(3)],
        TypeEnum::Extension(c) if c.name() == "float64" => vec![V::f(0.0), V::f(1.5)],
        TypeEnum::Extension(c) if c.name() == "array" || c.name() == "borrow_array" || c.name() == "value_array" => {
            let Term::BoundedNat(n) = c.args()[0] else { return vec![] };
            let Term::Runtime(e) = &c.args()[1] else { return vec![] };
            inputs(&vec![e.clone(); n as usize]).into_iter().map(V::arr).collect()
        }
        TypeEnum::Extension(_) => vec![V::Tok(2000 + k as u64)],
        _ => vec![],
    }
}
fn mix(a: u64, z: u64) -> u64 {
    (a.wrapping_mul(0x9E3779B97F4A7C15) ^ z.wrapping_add(0xD1B54A32D192ED03)).rotate_left(23).wrapping_mul(0xBF58476D1CE4E5B9)
}
fn hash_v(v: &V) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{v:?}").hash(&mut h);
    h.finish()
}
fn parity(x: u64) -> bool {
    (x >> 40) & 1 == 1
}

impl<'h, 'c> Interp<'h, 'c> {
    pub fn new(h: &'h Hugr, x: &'c mut Ctx) -> Self {
        Interp { h, x, frames: vec![], args: vec![], orders: HashMap::new(), top: true }
    }
    fn tick(&mut self) -> Result<(), Stop> {
        if self.x.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.x.fuel -= 1;
        Ok(())
    }
    fn stuck<T>(&self, m: impl Into<String>) -> Result<T, Stop> {
        Err(Stop::Stuck(m.into()))
    }
    /// Runs the region of a container (function, DFG, case, ...) as a closed program.
    pub fn node_region(&mut self, n: Node, ins: Vec<V>) -> Out {
        match self.h.get_optype(n) {
            OpType::CFG(_) => self.cfg(n, ins),
            OpType::Conditional(_) => self.cond(n, ins),
            OpType::TailLoop(_) => self.tail_loop(n, ins),
            _ => self.region(n, ins).map(|x| x.0),
        }
    }
    fn call(&mut self, f: Node, args: Vec<TypeArg>, ins: Vec<V>) -> Out {
        self.tick()?;
        match self.h.get_optype(f) {
            OpType::FuncDefn(_) => {
                let fr = std::mem::take(&mut self.frames);
                if self.x.record.is_none() || !self.top {
                    // fall through
                }
                let old = std::mem::replace(&mut self.args, args);
                let r = self.region(f, ins).map(|x| x.0);
                self.frames = fr;
                self.args = old;
                r
            }
            OpType::FuncDecl(d) => {
                // an external function: some fixed function of its arguments
                let mut hsh = d.func_name().bytes().fold(7, |a, c| mix(a, c as u64));
                for v in &ins {
                    hsh = mix(hsh, hash_v(v));
                }
                let sig = d.signature().body();
                let mut outs = vec![];
                for (k, t) in sig.output().iter().enumerate() {
                    let t = if args.is_empty() { t.clone() } else { crate::subst::ty(t, &args) };
                    let dom = domain(&t, k);
                    if dom.is_empty() {
                        return self.stuck("external result type");
                    }
                    let v = dom[(mix(hsh, k as u64) >> 33) as usize % dom.len()].clone();
                    outs.push(match v {
                        V::Tok(_) => V::Tok(mix(hsh, k as u64)),
                        v => v,
                    });
                }
                Ok(outs)
            }
            o => self.stuck(format!("call of {o:?}")),
        }
    }
    fn call_value(&mut self, f: &V, ins: Vec<V>) -> Out {
        self.tick()?;
        match f {
            V::Func(FnV::Node(n, a)) => self.call(*n, a.clone(), ins),
            V::Func(FnV::Hugr(g)) => {
                let top = self.top;
                let rec = self.x.record.take();
                let g = g.clone();
                let r = {
                    let mut i = Interp::new(&g, self.x);
                    i.top = false;
                    i.node_region(g.entrypoint(), ins)
                };
                self.x.record = rec;
                self.top = top;
                r
            }
            v => self.stuck(format!("call of value {v:?}")),
        }
    }
    fn lookup(&self, n: Node, p: usize) -> Option<V> {
        self.frames.iter().rev().find_map(|f| f.get(&(n, p)).cloned())
    }
    fn set(&mut self, n: Node, p: usize, v: V) {
        if let Some(r) = &mut self.x.record {
            let e = r.entry((n, p)).or_default();
            if !e.contains(&v) {
                e.push(v.clone());
            }
        }
        self.frames.last_mut().unwrap().insert((n, p), v);
    }
    fn input(&self, n: Node, p: usize) -> Result<V, Stop> {
        let Some((m, q)) = self.h.single_linked_output(n, IncomingPort::from(p)) else {
            return self.stuck(format!("input {p} of {n} is not connected"));
        };
        match self.lookup(m, q.index()) {
            Some(v) => Ok(v),
            None => self.stuck(format!("{n} ({}) reads {m} ({}) port {} before it has a value", self.h.get_optype(n), self.h.get_optype(m), q.index())),
        }
    }
    /// Execution order of a region, and reachability between its nodes.
    fn order(&mut self, parent: Node) -> Result<Rc<(Vec<Node>, HashMap<Node, HashSet<Node>>)>, Stop> {
        if let Some(o) = self.orders.get(&parent) {
            return Ok(o.clone());
        }
        let kids: Vec<Node> = self.h.children(parent).collect();
        let set: HashSet<Node> = kids.iter().copied().collect();
        let mut preds: HashMap<Node, Vec<Node>> = HashMap::new();
        for n in &kids {
            let mut v = vec![];
            for p in self.h.node_inputs(*n) {
                for (m, q) in self.h.linked_outputs(*n, p) {
                    if set.contains(&m) && matches!(self.h.get_optype(m).port_kind(q), Some(EdgeKind::Value(_) | EdgeKind::StateOrder)) {
                        v.push(m);
                    }
                }
            }
            preds.insert(*n, v);
        }
        let mut need: HashSet<Node> = HashSet::new();
        if self.x.strict {
            need.extend(kids.iter());
        } else {
            let Some([_, out]) = self.h.get_io(parent) else { return self.stuck("no io") };
            let mut st = vec![out];
            while let Some(n) = st.pop() {
                if need.insert(n) {
                    st.extend(preds[&n].iter());
                }
            }
        }
        // topological, lowest index first
        let mut done: HashMap<Node, HashSet<Node>> = HashMap::new();
        let mut out = vec![];
        let mut todo: Vec<Node> = kids.iter().copied().filter(|n| need.contains(n)).collect();
        while !todo.is_empty() {
            let Some(k) = todo.iter().position(|n| preds[n].iter().all(|m| done.contains_key(m))) else {
                return self.stuck(format!("cycle among {todo:?}"));
            };
            let n = todo.remove(k);
            let mut before: HashSet<Node> = preds[&n].iter().copied().collect();
            for m in &preds[&n] {
                before.extend(done[m].iter().copied());
            }
            done.insert(n, before);
            out.push(n);
        }
        let r = Rc::new((out, done));
        self.orders.insert(parent, r.clone());
        Ok(r)
    }
    fn region(&mut self, parent: Node, ins: Vec<V>) -> Result<(Vec<V>, HashMap<(Node, usize), V>), Stop> {
        self.tick()?;
        if self.x.record.is_some() {
            self.x.regions.insert(parent);
        }
        let ord = self.order(parent)?;
        let Some([inp, outp]) = self.h.get_io(parent) else { return self.stuck("no io") };
        self.frames.push(HashMap::new());
        for (k, v) in ins.into_iter().enumerate() {
            self.set(inp, k, v);
        }
        let r = self.exec(&ord, inp, outp);
        let f = self.frames.pop().unwrap();
        Ok((r?, f))
    }
    fn exec(&mut self, ord: &(Vec<Node>, HashMap<Node, HashSet<Node>>), inp: Node, outp: Node) -> Out {
        let mut touched: BTreeMap<char, Node> = BTreeMap::new();
        for &n in &ord.0 {
            if n == inp {
                continue;
            }
            if n == outp {
                continue;
            }
            let before: Vec<(char, usize)> = self.x.trace.iter().map(|(c, t)| (*c, t.len())).collect();
            self.node(n)?;
            for (c, t) in &self.x.trace {
                let was = before.iter().find(|x| x.0 == *c).map_or(0, |x| x.1);
                if t.len() > was {
                    if let Some(p) = touched.insert(*c, n) {
                        if !ord.1[&n].contains(&p) {
                            self.x.unordered = true;
                        }
                    }
                }
            }
        }
        let k = self.h.get_optype(outp).dataflow_signature().map_or(0, |s| s.input_count());
        (0..k).map(|p| self.input(outp, p)).collect()
    }
    fn node(&mut self, n: Node) -> Result<(), Stop> {
        self.tick()?;
        let op = self.h.get_optype(n);
        if matches!(op, OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_)) {
            return Ok(());
        }
        let outs = match op {
            OpType::LoadConstant(_) => {
                let Some((k, _)) = self.h.single_linked_output(n, IncomingPort::from(0)) else { return self.stuck("LoadConstant without constant") };
                let OpType::Const(c) = self.h.get_optype(k) else { return self.stuck("LoadConstant of a non-constant") };
                vec![const_v(c.value()).ok_or(Stop::Stuck(format!("constant {:?}", c.value())))?]
            }
            OpType::LoadFunction(l) => {
                let p = op.static_input_port().unwrap();
                let Some((f, _)) = self.h.single_linked_output(n, p) else { return self.stuck("LoadFunction without function") };
                vec![V::Func(FnV::Node(f, self.inst(&l.type_args)))]
            }
            _ => {
                let Some(sig) = op.dataflow_signature() else { return self.stuck(format!("cannot execute {op}")) };
                let ins: Vec<V> = (0..sig.input_count()).map(|p| self.input(n, p)).collect::<Result<_, _>>()?;
                match op {
                    OpType::DFG(_) => self.region(n, ins)?.0,
                    OpType::Conditional(_) => self.cond(n, ins)?,
                    OpType::TailLoop(_) => self.tail_loop(n, ins)?,
                    OpType::CFG(_) => self.cfg(n, ins)?,
                    OpType::Call(c) => {
                        let p = op.static_input_port().unwrap();
                        let Some((f, _)) = self.h.single_linked_output(n, p) else { return self.stuck("Call without function") };
                        let a = self.inst(&c.type_args);
                        self.call(f, a, ins)?
                    }
                    OpType::CallIndirect(_) => {
                        let mut it = ins.into_iter();
                        let f = it.next().unwrap();
                        self.call_value(&f, it.collect())?
                    }
                    _ => self.leaf(op, ins)?,
                }
            }
        };
        let want = op.dataflow_signature().map_or(0, |s| s.output_count());
        if outs.len() != want {
            return self.stuck(format!("{op} gave {} results for {want} ports", outs.len()));
        }
        for (k, v) in outs.into_iter().enumerate() {
            self.set(n, k, v);
        }
        Ok(())
    }
    fn inst(&self, a: &[TypeArg]) -> Vec<TypeArg> {
        if self.args.is_empty() {
            return a.to_vec();
        }
        a.iter().map(|t| crate::subst::term(t, &self.args)).collect()
    }
    fn cond(&mut self, n: Node, mut ins: Vec<V>) -> Out {
        let V::Sum(tag, vals) = ins.remove(0) else { return self.stuck("conditional on a non-sum") };
        let Some(case) = self.h.children(n).nth(tag) else { return self.stuck("no such case") };
        let args = vals.into_iter().chain(ins).collect();
        Ok(self.region(case, args)?.0)
    }
    fn tail_loop(&mut self, n: Node, ins: Vec<V>) -> Out {
        let OpType::TailLoop(t) = self.h.get_optype(n) else { unreachable!() };
        let _ = t;
        let mut cur = ins;
        loop {
            self.tick()?;
            let mut out = self.region(n, cur)?.0;
            let V::Sum(tag, vals) = out.remove(0) else { return self.stuck("loop predicate is not a sum") };
            let vals: Vec<V> = vals.into_iter().chain(out).collect();
            if self.x.record.is_some() {
                let e = self.x.loops.entry(n).or_default();
                *(if tag == 1 { &mut e.1 } else { &mut e.0 }) = true;
            }
            if tag == 1 {
                return Ok(vals);
            }
            cur = vals;
        }
    }
    fn cfg(&mut self, n: Node, ins: Vec<V>) -> Out {
        self.frames.push(HashMap::new());
        let r = self.cfg_loop(n, ins);
        self.frames.pop();
        r
    }
    fn cfg_loop(&mut self, n: Node, ins: Vec<V>) -> Out {
        let mut cur = ins;
        let Some(mut blk) = self.h.children(n).next() else { return self.stuck("empty CFG") };
        loop {
            self.tick()?;
            match self.h.get_optype(blk) {
                OpType::ExitBlock(_) => {
                    if self.x.record.is_some() {
                        self.x.regions.insert(blk);
                    }
                    return Ok(cur);
                }
                OpType::DataflowBlock(_) => {}
                o => return self.stuck(format!("block is {o}")),
            }
            if self.x.record.is_some() || self.top {
                self.x.blocks.push(blk);
            }
            let (mut out, fr) = self.region(blk, cur)?;
            self.frames.last_mut().unwrap().extend(fr);
            let V::Sum(tag, vals) = out.remove(0) else { return self.stuck("branch predicate is not a sum") };
            let Some((next, _)) = self.h.linked_inputs(blk, hugr_core::OutgoingPort::from(tag)).next() else { return self.stuck("no such successor") };
            cur = vals.into_iter().chain(out).collect();
            blk = next;
        }
    }
    fn event(&mut self, c: char, e: String) -> usize {
        let t = self.x.trace.entry(c).or_default();
        t.push(e);
        t.len()
    }
    fn leaf(&mut self, op: &OpType, ins: Vec<V>) -> Out {
        if let OpType::ExtensionOp(e) = op {
            if &**e.def().extension_id() == "vp.test" {
                let name = e.def().name().to_string();
                let ch = name.chars().last().unwrap();
                return Ok(match name.as_str() {
                    "eff_a" | "eff_b" => {
                        self.event(ch, "eff".into());
                        vec![]
                    }
                    "put_a" | "put_b" => {
                        self.event(ch, format!("put {:?}", ins[0]));
                        vec![]
                    }
                    "get_a" | "get_b" => {
                        let k = self.event(ch, "get".into());
                        vec![V::bool(k % 2 == 1)]
                    }
                    "opq" => vec![V::bool(!ins[0].as_bool().ok_or(Stop::Stuck("opq".into()))?)],
                    "opqi" => ins,
                    "opq2" => vec![ins[1].clone(), ins[0].clone()],
                    "src" => vec![V::bool(true)],
                    "mark" => {
                        let k = self.inst(e.args())[0].as_nat().unwrap_or(99);
                        self.event('m', format!("mark {k} {ins:?}"));
                        vec![ins[0].clone()]
                    }
                    "sel" => {
                        let t = match &e.args()[0] { Term::Runtime(t) => t.clone(), _ => return self.stuck("sel") };
                        let TypeEnum::Sum(s) = t.as_type_enum() else { return self.stuck("sel of no sum") };
                        let n = s.num_variants();
                        let k = if n == 1 { 0 } else {
                            let Some(k) = self.x.tape.get(self.x.tape_at) else { return Err(Stop::Tape(n)) };
                            self.x.tape_at += 1;
                            *k
                        };
                        if n > 1 {
                            self.event('m', format!("sel {k}/{n}"));
                        }
                        let row = sum_row(s, k).unwrap_or_default();
                        vec![V::Sum(k, row.iter().map(|_| ins[0].clone()).collect())]
                    }
                    "qnew" => vec![V::Tok(77)],
                    "qdel" => vec![],
                    _ => {
                        let mut hsh = name.bytes().fold(11, |a, c| mix(a, c as u64));
                        for v in &ins {
                            hsh = mix(hsh, match v { V::Tok(t) => *t, v => hash_v(v) });
                        }
                        match name.as_str() {
                            "qm" => vec![V::Tok(hsh), V::bool(parity(hsh))],
                            "qq" => vec![V::Tok(hsh), V::Tok(mix(hsh, 1))],
                            _ => vec![V::Tok(hsh)],
                        }
                    }
                });
            }
        }
        let r = match op {
            OpType::ExtensionOp(e) if !self.args.is_empty() => crate::sem::eval_ext(e.def().extension_id(), e.def().name(), &self.inst(e.args()), &ins),
            op => eval_op(op, &ins),
        };
        match r {
            Ev::Vals(v) => Ok(v),
            Ev::Panic => Err(Stop::Panic),
            Ev::Unspecified(_) => Err(Stop::Unspecified),
            Ev::Repeat(f, n) => {
                let mut out = vec![];
                for _ in 0..n {
                    let mut r = self.call_value(&f, vec![])?;
                    out.push(r.remove(0));
                }
                Ok(vec![V::arr(out)])
            }
            Ev::Scan(a, f, acc) => {
                let mut acc = acc;
                let mut out = vec![];
                for x in a {
                    let Some(x) = x else { return Err(Stop::Panic) };
                    let mut i = vec![x];
                    i.extend(acc);
                    let mut r = self.call_value(&f, i)?;
                    out.push(r.remove(0));
                    acc = r;
                }
                let mut v = vec![V::arr(out)];
                v.extend(acc);
                Ok(v)
            }
            Ev::Unknown => self.stuck(format!("unknown operation {op} on {ins:?}")),
        }
    }
}
pub fn const_v(v: &Value) -> Option<V> {
    V::of_const(v)
}
