//! C16: the text, tree, table and binary forms of the model language agree.
use crate::explore::*;
use crate::{ensure, ensure_eq};
use bumpalo::Bump;
use hugr_model::v0::ast::{Module, Node, Operation, Package, Param, Region, SeqPart, Symbol, Term};
use hugr_model::v0::{LinkName, Literal, RegionKind, SymbolName, VarName, Visibility, binary, table};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use std::sync::Arc;

fn sym(s: &str) -> SymbolName {
    SymbolName::new(s)
}
fn var(s: &str) -> VarName {
    VarName::new(s)
}
fn link(s: &str) -> LinkName {
    LinkName::new(s)
}
fn app(s: &str, args: Vec<Term>) -> Term {
    Term::Apply(sym(s), args.into())
}
fn t(s: &str) -> Term {
    app(s, vec![])
}
fn module(nodes: Vec<Node>, meta: Vec<Term>) -> Module {
    Module { root: Region { kind: RegionKind::Module, children: nodes.into(), meta: meta.into(), ..Default::default() } }
}

// ---- exact comparison (floats by their bits) and normal forms --------------------------------

/// Walks a tree; every part may be rewritten.
trait Walk {
    fn term(&mut self, t: &Term) -> Term {
        walk_term(self, t)
    }
    fn links(&mut self, l: &[LinkName]) -> Box<[LinkName]> {
        l.into()
    }
    fn closed(&mut self, r: &Region) -> Region {
        walk_region(self, r)
    }
}
fn walk_parts<W: Walk + ?Sized>(w: &mut W, ps: &[SeqPart]) -> Vec<SeqPart> {
    ps.iter()
        .map(|p| match p {
            SeqPart::Item(t) => SeqPart::Item(w.term(t)),
            SeqPart::Splice(t) => SeqPart::Splice(w.term(t)),
        })
        .collect()
}
fn walk_term<W: Walk + ?Sized>(w: &mut W, t: &Term) -> Term {
    match t {
        Term::Apply(s, args) => Term::Apply(s.clone(), args.iter().map(|a| w.term(a)).collect()),
        Term::List(ps) => Term::List(walk_parts(w, ps).into()),
        Term::Tuple(ps) => Term::Tuple(walk_parts(w, ps).into()),
        Term::Func(r) => Term::Func(Arc::new(w.closed(r))),
        t => t.clone(),
    }
}
fn walk_terms<W: Walk + ?Sized>(w: &mut W, ts: &[Term]) -> Box<[Term]> {
    ts.iter().map(|t| w.term(t)).collect()
}
fn walk_symbol<W: Walk + ?Sized>(w: &mut W, s: &Symbol) -> Box<Symbol> {
    Box::new(Symbol {
        visibility: s.visibility.clone(),
        name: s.name.clone(),
        params: s.params.iter().map(|p| Param { name: p.name.clone(), r#type: w.term(&p.r#type) }).collect(),
        constraints: walk_terms(w, &s.constraints),
        signature: w.term(&s.signature),
    })
}
fn walk_node<W: Walk + ?Sized>(w: &mut W, n: &Node) -> Node {
    let inputs = w.links(&n.inputs);
    let outputs = w.links(&n.outputs);
    let mut closed = false;
    let operation = match &n.operation {
        Operation::DefineFunc(s) => {
            closed = true;
            Operation::DefineFunc(walk_symbol(w, s))
        }
        Operation::DeclareFunc(s) => Operation::DeclareFunc(walk_symbol(w, s)),
        Operation::DeclareAlias(s) => Operation::DeclareAlias(walk_symbol(w, s)),
        Operation::DeclareConstructor(s) => Operation::DeclareConstructor(walk_symbol(w, s)),
        Operation::DeclareOperation(s) => Operation::DeclareOperation(walk_symbol(w, s)),
        Operation::DefineAlias(s, t) => Operation::DefineAlias(walk_symbol(w, s), w.term(t)),
        Operation::Custom(t) => Operation::Custom(w.term(t)),
        o => o.clone(),
    };
    Node {
        operation,
        inputs,
        outputs,
        regions: n.regions.iter().map(|r| if closed { w.closed(r) } else { walk_region(w, r) }).collect(),
        meta: walk_terms(w, &n.meta),
        signature: n.signature.as_ref().map(|t| w.term(t)),
    }
}
fn walk_region<W: Walk + ?Sized>(w: &mut W, r: &Region) -> Region {
    Region {
        kind: r.kind,
        sources: w.links(&r.sources),
        targets: w.links(&r.targets),
        children: r.children.iter().map(|n| walk_node(w, n)).collect(),
        meta: walk_terms(w, &r.meta),
        signature: r.signature.as_ref().map(|t| w.term(t)),
    }
}

/// Lists spliced into lists and tuples spliced into tuples become one.
struct Flat;
impl Walk for Flat {
    fn term(&mut self, t: &Term) -> Term {
        fn flat(ps: Vec<SeqPart>, list: bool) -> Vec<SeqPart> {
            ps.into_iter()
                .flat_map(|p| match (&p, list) {
                    (SeqPart::Splice(Term::List(q)), true) | (SeqPart::Splice(Term::Tuple(q)), false) => q.to_vec(),
                    _ => vec![p],
                })
                .collect()
        }
        match t {
            Term::List(ps) => Term::List(flat(walk_parts(self, ps), true).into()),
            Term::Tuple(ps) => Term::Tuple(flat(walk_parts(self, ps), false).into()),
            t => walk_term(self, t),
        }
    }
}
/// Links named in order of their first use in their scope.
struct Links(Vec<BTreeMap<String, usize>>);
impl Walk for Links {
    fn links(&mut self, l: &[LinkName]) -> Box<[LinkName]> {
        let m = self.0.last_mut().unwrap();
        l.iter()
            .map(|x| {
                let n = m.len();
                link(&m.entry(x.as_ref().to_string()).or_insert(n).to_string())
            })
            .collect()
    }
    fn closed(&mut self, r: &Region) -> Region {
        self.0.push(BTreeMap::new());
        let r = walk_region(self, r);
        self.0.pop();
        r
    }
}
fn flat(m: &Module) -> Module {
    Module { root: walk_region(&mut Flat, &m.root) }
}
fn canon(m: &Module) -> Module {
    Module { root: Links(vec![]).closed(&m.root) }
}
/// A description that tells everything apart.
fn show(x: &impl std::fmt::Debug) -> String {
    format!("{x:?}")
}

// ---- reference: scopes ------------------------------------------------------------------------

/// What resolution has to find: the first kind of error, or the symbols that need an import.
struct Scopes {
    syms: Vec<BTreeSet<String>>,
    vars: Vec<BTreeSet<String>>,
    imports: BTreeSet<String>,
    bad: Option<&'static str>,
}
impl Scopes {
    fn fail(&mut self, e: &'static str) {
        self.bad.get_or_insert(e);
    }
    fn terms(&mut self, ts: &[Term]) {
        for t in ts {
            self.term(t);
        }
    }
    fn term(&mut self, t: &Term) {
        match t {
            Term::Wildcard | Term::Literal(_) => {}
            Term::Var(v) => {
                // only the variables of the innermost symbol are visible
                if !self.vars.last().is_some_and(|s| s.contains(v.as_ref() as &str)) {
                    self.fail("unknown var");
                }
            }
            Term::Apply(s, args) => {
                let s: &str = s.as_ref();
                if !self.syms.iter().any(|f| f.contains(s)) {
                    self.imports.insert(s.to_string());
                }
                self.terms(args);
            }
            Term::List(ps) | Term::Tuple(ps) => {
                for p in ps.iter() {
                    match p {
                        SeqPart::Item(t) | SeqPart::Splice(t) => self.term(t),
                    }
                }
            }
            Term::Func(r) => self.region(r),
        }
    }
    fn symbol(&mut self, s: &Symbol) {
        for p in &s.params {
            self.term(&p.r#type);
            if !self.vars.last_mut().unwrap().insert(p.name.as_ref().to_string()) {
                self.fail("duplicate var");
            }
        }
        self.terms(&s.constraints);
        self.term(&s.signature);
    }
    fn nodes(&mut self, ns: &[Node]) {
        for n in ns {
            if let Some(s) = n.operation.symbol_name() {
                if !self.syms.last_mut().unwrap().insert(s.as_ref().to_string()) {
                    self.fail("duplicate symbol");
                }
            }
        }
        for n in ns {
            let scoped = n.operation.symbol().is_some();
            if scoped {
                self.vars.push(BTreeSet::new());
            }
            if let Some(s) = n.operation.symbol() {
                self.symbol(s);
            }
            match &n.operation {
                Operation::DefineAlias(_, t) | Operation::Custom(t) => self.term(t),
                _ => {}
            }
            self.terms(&n.meta);
            for r in &n.regions {
                self.region(r);
            }
            if let Some(t) = &n.signature {
                self.term(t);
            }
            if scoped {
                self.vars.pop();
            }
        }
    }
    fn region(&mut self, r: &Region) {
        self.terms(&r.meta);
        if let Some(t) = &r.signature {
            self.term(t);
        }
        self.syms.push(BTreeSet::new());
        self.nodes(&r.children);
        self.syms.pop();
    }
    fn of(m: &Module) -> Scopes {
        let mut s = Scopes { syms: vec![BTreeSet::new()], vars: vec![], imports: BTreeSet::new(), bad: None };
        s.nodes(&m.root.children);
        s.terms(&m.root.meta);
        s
    }
}

// ---- the check --------------------------------------------------------------------------------

fn check_text(p: &Package, cov: &mut Cov) -> Res {
    let text = p.to_string();
    cov.step(1);
    match Package::from_str(&text) {
        Ok(q) => {
            let want = Package { modules: p.modules.iter().map(flat).collect() };
            ensure!(show(&q) == show(&want), "the text reads as {} instead of {} | text {text}", show(&q), show(&want));
            ensure_eq!(q.to_string(), text, "printing again | {}", show(&want));
        }
        Err(e) => return bad(format!("the printed text is refused: {} | text {text} | {}", e.to_string().replace('\n', " "), show(p))),
    }
    Ok(())
}

fn check_tables(p: &Package, cov: &mut Cov) -> Res {
    let bump = Bump::new();
    let scopes: Vec<Scopes> = p.modules.iter().map(Scopes::of).collect();
    let want_bad = scopes.iter().find_map(|s| s.bad);
    cov.step(1);
    let tab = match (p.resolve(&bump), want_bad) {
        (Ok(t), None) => t,
        (Err(_), Some(e)) => {
            cov.outcome(e);
            return Ok(());
        }
        (Ok(_), Some(e)) => return bad(format!("a module with an {e} resolves | {p}")),
        (Err(e), None) => return bad(format!("a well-scoped module does not resolve: {e} | {p}")),
    };
    cov.outcome("resolved");
    let Some(back) = tab.as_ast() else { return bad(format!("the table has no tree | {p}")) };
    ensure_eq!(back.modules.len(), p.modules.len(), "number of modules | {p}");
    for ((m, b), s) in p.modules.iter().zip(&back.modules).zip(&scopes) {
        // imports for the symbols that are not defined follow the nodes, in any order
        let n = m.root.children.len();
        ensure!(b.root.children.len() >= n, "nodes lost | {p}");
        let mut got = BTreeSet::new();
        for x in &b.root.children[n..] {
            let Operation::Import(name) = &x.operation else { return bad(format!("a node appeared: {x} | {p}")) };
            ensure!(show(x) == show(&Node { operation: Operation::Import(name.clone()), ..Default::default() }), "an import with contents: {x} | {p}");
            ensure!(got.insert(name.as_ref().to_string()), "imported twice: {x} | {p}");
        }
        ensure_eq!(got, s.imports, "symbols imported | {p}");
        let mut b2 = b.clone();
        b2.root.children = b.root.children[..n].into();
        let (x, y) = (show(&canon(&b2)), show(&canon(m)));
        ensure!(x == y, "the tree of the table differs: {x} instead of {y} | {p}");
    }
    // the numbers of links and ports of each closed region
    for m in &tab.modules {
        for (i, r) in m.regions.iter().enumerate() {
            let Some(scope) = &r.scope else { continue };
            let mut all: Vec<u32> = vec![];
            fn of(m: &table::Module, r: &table::Region, all: &mut Vec<u32>) {
                all.extend(r.sources.iter().chain(r.targets).map(|l| l.0));
                for n in r.children {
                    let n = &m.nodes[n.0 as usize];
                    all.extend(n.inputs.iter().chain(n.outputs).map(|l| l.0));
                    for r in n.regions {
                        let r = &m.regions[r.0 as usize];
                        if r.scope.is_none() {
                            of(m, r, all);
                        }
                    }
                }
            }
            of(m, r, &mut all);
            ensure_eq!(scope.ports as usize, all.len(), "ports of region {i} | {p}");
            let set: BTreeSet<u32> = all.into_iter().collect();
            ensure!(set == (0..scope.links).collect(), "links of region {i}: {set:?} of {} | {p}", scope.links);
        }
    }
    // the binary form
    let bytes = binary::write_to_vec(&tab);
    let b2 = Bump::new();
    let again = match binary::read_from_slice(&bytes, &b2) {
        Ok(x) => x,
        Err(e) => return bad(format!("the binary form is refused: {e} | {p}")),
    };
    ensure!(again == tab, "the binary form reads as another table | {p}");
    let Some(back2) = again.as_ast() else { return bad(format!("the binary form has no tree | {p}")) };
    ensure!(show(&back2) == show(&back), "the binary form reads as {} instead of {} | {p}", show(&back2), show(&back));
    ensure_eq!(binary::write_to_vec(&again), bytes, "writing the binary form again | {p}");
    // the tree of the table is as good as the original
    let b3 = Bump::new();
    match back.resolve(&b3) {
        Ok(t) => match t.as_ast() {
            Some(b) => ensure!(show(&b) == show(&back), "resolving again gives {} instead of {} | {p}", show(&b), show(&back)),
            None => return bad(format!("the second table has no tree | {p}")),
        },
        Err(e) => return bad(format!("the tree of the table does not resolve: {e} | {p}")),
    }
    check_text(&back, cov)
}

fn check(p: &Package, cov: &mut Cov) -> Res {
    cov.state(&p.to_string());
    cov.describe(|| p.to_string());
    check_text(p, cov)?;
    check_tables(p, cov)?;
    cov.trace();
    Ok(())
}
fn check_module(m: Module, cov: &mut Cov) -> Res {
    check(&Package { modules: vec![m.clone()] }, cov)?;
    // a module on its own
    let text = m.to_string();
    match Module::from_str(&text) {
        Ok(q) => ensure!(show(&q) == show(&flat(&m)), "the text of the module reads as {} | text {text}", show(&q)),
        Err(e) => return bad(format!("the text of a module is refused: {} | text {text}", e.to_string().replace('\n', " "))),
    }
    Ok(())
}

// ---- generators -------------------------------------------------------------------------------

const NAMES: &[&str] = &[
    "a", "_", "a.b", "x-y", "_x", "-", "-a.b", "_.x", "a1.b2.c3", "A_", "importfoo", "import.foo", "tuplex", "tuple.x", "tuple-x", "metafoo", "meta_", "bytesx", "bytes.b",
    "signature1", "publicfoo", "private_x", "public.x", "dfgx", "dfg.x", "cfg-", "block.b", "modx", "mod.x", "listx", "list.x", "condx", "cond.x", "tail-loopx", "tail-loop.x",
    "define-funcx", "declare-func.x", "define-alias-x", "declare-ctr_", "declare-operation1", "hugrx", "hugr.x", "fnx", "fn.x", "paramx", "param.x", "wherex", "where.x", "e5", "inf", "nan",
];
fn literals() -> Vec<Literal> {
    let mut v: Vec<Literal> = [0u64, 1, 9, 10, u32::MAX as u64, u64::MAX].map(Literal::Nat).to_vec();
    for f in [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 1e16, 1e15, 123456789.125, 1e-5, 1e-7, 2.5e-8] {
        v.push(Literal::Float(f.into()));
    }
    for s in ["", "a", "a b", "\"", "\\", "\\n", "\n", "\r\n", "\t", "\\u{41}", "é", "😀", "\u{0}", "\u{7f}", "\u{2028}", ";", "; x\n", "(", "]", "\\\"", "a\\", "\u{b}"] {
        v.push(Literal::Str(s.into()));
    }
    for n in 0..8usize {
        v.push(Literal::Bytes((0..n).map(|i| (i * 37 + 250) as u8).collect::<Vec<_>>().into()));
    }
    v
}

struct G<'a> {
    c: &'a mut Chooser,
    syms: &'static [&'static str],
    vars: &'static [&'static str],
}
impl G<'_> {
    fn part(&mut self, d: usize) -> SeqPart {
        let s = self.c.flag();
        let t = self.term(d);
        if s { SeqPart::Splice(t) } else { SeqPart::Item(t) }
    }
    fn term(&mut self, d: usize) -> Term {
        let nl = 3;
        let leaf = 1 + self.vars.len() + self.syms.len() + nl;
        let i = self.c.choose(if d == 0 { leaf } else { leaf + 7 });
        if i == 0 {
            return Term::Wildcard;
        }
        let mut k = i - 1;
        if k < self.vars.len() {
            return Term::Var(var(self.vars[k]));
        }
        k -= self.vars.len();
        if k < self.syms.len() {
            return t(self.syms[k]);
        }
        k -= self.syms.len();
        if k < nl {
            return Term::Literal([Literal::Nat(7), Literal::Str("s\n".into()), Literal::Float((-0.0).into())][k].clone());
        }
        match k - nl {
            0 => app(self.syms[0], vec![self.term(d - 1)]),
            1 => app(self.syms[self.syms.len() - 1], vec![self.term(d - 1), self.term(0)]),
            2 => Term::List(vec![].into()),
            3 => Term::List(vec![self.part(d - 1), self.part(0)].into()),
            4 => Term::Tuple(vec![self.part(d - 1)].into()),
            5 => Term::Tuple(vec![self.part(0), self.part(d - 1)].into()),
            _ => {
                let x = self.term(d - 1);
                Term::Func(Arc::new(Region {
                    kind: RegionKind::DataFlow,
                    sources: [link("p")].into(),
                    targets: [link("p")].into(),
                    children: [Node { operation: Operation::Custom(x), ..Default::default() }].into(),
                    ..Default::default()
                }))
            }
        }
    }
}

fn symbol(name: &str, params: Vec<(&str, Term)>, cons: Vec<Term>, sig: Term) -> Box<Symbol> {
    Box::new(Symbol {
        visibility: None,
        name: sym(name),
        params: params.into_iter().map(|(n, t)| Param { name: var(n), r#type: t }).collect(),
        constraints: cons.into(),
        signature: sig,
    })
}

/// A term at every place where a term can be, within the scope of a variable `x`.
fn placed(c: &mut Chooser, x: Term) -> Module {
    let k = c.choose(16);
    let d = |op| Node { operation: op, ..Default::default() };
    let inner = |n: Node| {
        let r = Region { children: [n].into(), ..Default::default() };
        Node { operation: Operation::DefineFunc(symbol("f", vec![("x", t("core.type"))], vec![], t("core.fn"))), regions: [r].into(), ..Default::default() }
    };
    let p = || vec![("x", t("core.type"))];
    match k {
        0 => module(vec![d(Operation::DeclareFunc(symbol("f", p(), vec![], x)))], vec![]),
        1 => module(vec![d(Operation::DeclareOperation(symbol("f", p(), vec![x.clone(), x], t("a"))))], vec![]),
        2 => module(vec![d(Operation::DeclareConstructor(symbol("f", vec![("x", t("core.type")), ("y", x)], vec![], Term::Var(var("y")))))], vec![]),
        3 => module(vec![d(Operation::DefineAlias(symbol("f", p(), vec![], t("core.type")), x))], vec![]),
        4 => module(vec![d(Operation::DeclareAlias(symbol("f", p(), vec![x], t("core.type"))))], vec![]),
        5 => module(vec![inner(d(Operation::Custom(x)))], vec![]),
        6 => module(vec![inner(Node { operation: Operation::Custom(x), inputs: [link("0")].into(), ..Default::default() })], vec![]),
        7 => module(vec![inner(Node { operation: Operation::Dfg, signature: Some(x.clone()), meta: [x].into(), ..Default::default() })], vec![]),
        8 => module(vec![inner(Node { operation: Operation::Custom(t("a")), signature: Some(x), outputs: [link("0"), link("1")].into(), ..Default::default() })], vec![]),
        9 => module(
            vec![inner(Node {
                operation: Operation::TailLoop,
                regions: [Region { signature: Some(x.clone()), meta: [x.clone(), x].into(), targets: [link("0")].into(), ..Default::default() }].into(),
                ..Default::default()
            })],
            vec![],
        ),
        10 => module(vec![], vec![x]),
        11 => module(vec![d(Operation::Custom(x.clone())), d(Operation::Import(sym("a")))], vec![t("z"), x]),
        12 => module(vec![inner(Node { operation: Operation::Custom(x.clone()), meta: [x.clone()].into(), regions: [Region { kind: RegionKind::ControlFlow, children: [d(Operation::Custom(x))].into(), ..Default::default() }].into(), ..Default::default() })], vec![]),
        13 => module(vec![d(Operation::Custom(Term::List(vec![SeqPart::Splice(x.clone()), SeqPart::Item(x)].into())))], vec![]),
        14 => module(vec![d(Operation::Custom(Term::Tuple(vec![SeqPart::Item(x.clone()), SeqPart::Splice(x)].into())))], vec![]),
        _ => module(
            vec![Node { operation: Operation::DefineFunc(symbol("g", vec![("x", t("a"))], vec![x.clone()], x.clone())), meta: [x.clone()].into(), regions: [Region { meta: [x].into(), ..Default::default() }].into(), ..Default::default() }],
            vec![],
        ),
    }
}

fn named(c: &mut Chooser, cov: &mut Cov) -> Res {
    let n = *c.pick(NAMES);
    let vis = [None, Some(Visibility::Public), Some(Visibility::Private)][c.choose(3)].clone();
    let k = c.choose(14);
    let mut s = symbol(n, vec![], vec![], t("a"));
    s.visibility = vis.clone();
    let d = |op| Node { operation: op, ..Default::default() };
    let m = match k {
        0 => module(vec![d(Operation::DeclareFunc(s))], vec![]),
        1 => module(vec![d(Operation::DeclareConstructor(s)), d(Operation::Custom(t(n)))], vec![]),
        2 => module(vec![d(Operation::DeclareAlias(s)), d(Operation::Custom(app(n, vec![t(n)])))], vec![]),
        3 => module(vec![d(Operation::DefineAlias(s, t(n)))], vec![t(n)]),
        4 => module(vec![Node { operation: Operation::DefineFunc(s), regions: [Region { children: [d(Operation::Custom(t(n)))].into(), ..Default::default() }].into(), ..Default::default() }], vec![]),
        5 => module(vec![d(Operation::Import(sym(n))), Node { operation: Operation::Custom(t(n)), outputs: [link(n.split('.').next().unwrap())].into(), ..Default::default() }], vec![]),
        // each operation followed by a symbol; symbols without visibility
        _ if vis.is_some() => return Err(Fail::Skip),
        6 => module(vec![Node { operation: Operation::Custom(t(n)), signature: Some(t(n)), meta: [t(n)].into(), ..Default::default() }], vec![app(n, vec![Term::Literal(Literal::Str("QQ==".into()))])]),
        7 => module(vec![d(Operation::Custom(t(n))), d(Operation::Custom(t(n)))], vec![t(n)]),
        8 => module(vec![Node { operation: Operation::Custom(t(n)), regions: [Region { kind: RegionKind::ControlFlow, children: [d(Operation::Custom(t(n)))].into(), ..Default::default() }].into(), ..Default::default() }], vec![]),
        9 => module(vec![d(Operation::Custom(app(n, vec![Term::List(vec![].into()), t(n), Term::Wildcard])))], vec![]),
        10 => module(vec![d(Operation::DeclareFunc(symbol("f", vec![(n.split('.').next().unwrap(), t(n))], vec![t(n)], t(n))))], vec![]),
        11 => module(vec![d(Operation::DeclareFunc(symbol("f", vec![], vec![], app(n, vec![t("a")]))))], vec![]),
        12 => module(vec![d(Operation::Custom(Term::List(vec![SeqPart::Splice(t(n)), SeqPart::Item(t(n)), SeqPart::Splice(Term::Wildcard)].into())))], vec![Term::Tuple(vec![SeqPart::Item(t(n))].into())]),
        _ => module(vec![Node { operation: Operation::Dfg, inputs: [link(n.split('.').next().unwrap())].into(), regions: [Region { kind: RegionKind::Module, children: [d(Operation::Custom(t(n)))].into(), ..Default::default() }].into(), ..Default::default() }], vec![]),
    };
    // a name on its own
    ensure!(SymbolName::from_str(n).is_ok_and(|x| x == sym(n)), "a symbol name is refused: {n}");
    ensure!(Term::from_str(n).is_ok_and(|x| x == if n == "_" { Term::Wildcard } else { t(n) }), "a symbol is not a term: {n}");
    check_module(m, cov)
}

fn lits(c: &mut Chooser, cov: &mut Cov) -> Res {
    let ls = literals();
    let a = ls[c.choose(ls.len())].clone();
    let b = ls[c.choose(ls.len())].clone();
    for l in [&a, &b] {
        match Literal::from_str(&l.to_string()) {
            Ok(x) => ensure!(show(&x) == show(l), "a literal {l:?} reads as {x:?} | {l}"),
            Err(_) => return bad(format!("a literal is refused: {l:?} | {l}")),
        }
    }
    let x = Term::List(vec![SeqPart::Item(a.clone().into()), SeqPart::Item(b.clone().into())].into());
    check_module(module(vec![Node { operation: Operation::Custom(app("f", vec![a.clone().into(), b.into()])), ..Default::default() }], vec![x, a.into()]), cov)
}

fn chars(c: &mut Chooser, cov: &mut Cov) -> Res {
    // every character below U+0250 and chosen others, alone and before another
    let all: Vec<char> = (0..0x250u32).filter_map(char::from_u32).chain(['\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{200b}', '\u{feff}', '\u{2029}']).collect();
    let a = all[c.choose(all.len())];
    let s = match c.choose(5) {
        0 => a.to_string(),
        1 => format!("{a}{a}"),
        2 => format!("\\{a}"),
        3 => format!("{a}u{{41}}"),
        _ => format!("{a}\""),
    };
    check_module(module(vec![Node { operation: Operation::Custom(app("f", vec![Literal::Str(s.as_str().into()).into()])), ..Default::default() }], vec![]), cov)
}

/// Modules of nested regions with definitions, uses and links of few names.
fn scopes(c: &mut Chooser, cov: &mut Cov, max: usize) -> Res {
    fn nodes(c: &mut Chooser, depth: usize, left: &mut usize) -> Vec<Node> {
        let mut v = vec![];
        while *left > 0 && c.flag() {
            *left -= 1;
            let s = ["a", "b"];
            let l = ["p", "q"];
            let mk = |op| Node { operation: op, ..Default::default() };
            let n = match c.choose(if depth > 0 { 9 } else { 6 }) {
                0 => mk(Operation::DeclareFunc(symbol(s[c.choose(2)], vec![("x", t("b")), ([("y"), ("x")][c.choose(2)], Term::Var(var("x")))], vec![], Term::Var(var("y"))))),
                1 => mk(Operation::Import(sym(s[c.choose(2)]))),
                2 => Node { operation: Operation::Custom(t(s[c.choose(2)])), inputs: [link(l[c.choose(2)])].into(), outputs: [link(l[c.choose(2)])].into(), ..Default::default() },
                3 => Node { operation: Operation::Custom(Term::Var(var("x"))), meta: [t(s[c.choose(2)])].into(), ..Default::default() },
                4 => Node { operation: Operation::Custom(t("a")), signature: Some(app("b", vec![t("a")])), ..Default::default() },
                5 => mk(Operation::DefineAlias(symbol(s[c.choose(2)], vec![("y", t("a"))], vec![Term::Var(var("y"))], t("a")), Term::Var(var(["x", "y"][c.choose(2)])))),
                6 => {
                    let k = c.choose(2);
                    let r = region(c, depth - 1, left);
                    Node { operation: Operation::DefineFunc(symbol(s[k], vec![("x", t("a"))], vec![], t("b"))), regions: [r].into(), ..Default::default() }
                }
                7 => {
                    let r = region(c, depth - 1, left);
                    Node { operation: Operation::Dfg, inputs: [link(l[c.choose(2)])].into(), regions: [r].into(), ..Default::default() }
                }
                _ => {
                    let r = region(c, depth - 1, left);
                    Node { operation: Operation::Custom(Term::Func(Arc::new(r))), outputs: [link("p")].into(), ..Default::default() }
                }
            };
            v.push(n);
        }
        v
    }
    fn region(c: &mut Chooser, depth: usize, left: &mut usize) -> Region {
        let sources = match c.choose(3) {
            0 => vec![],
            1 => vec![link("p")],
            _ => vec![link("q"), link("p")],
        };
        let meta = if c.flag() { vec![t("a")] } else { vec![] };
        Region { sources: sources.into(), children: nodes(c, depth, left).into(), meta: meta.into(), ..Default::default() }
    }
    let mut left = max;
    let ns = nodes(c, 2, &mut left);
    let meta = if c.flag() { vec![t("a")] } else { vec![] };
    check_module(module(ns, meta), cov)
}

/// Every combination of the parts of nodes and regions.
fn parts(c: &mut Chooser, cov: &mut Cov) -> Res {
    fn links(c: &mut Chooser) -> Box<[LinkName]> {
        [vec![], vec![link("p")], vec![link("p"), link("p")], vec![link("-"), link("0"), link("")]][c.choose(4)].clone().into()
    }
    let op = [Operation::Dfg, Operation::Cfg, Operation::Block, Operation::TailLoop, Operation::Conditional, Operation::Custom(t("a")), Operation::Custom(app("a", vec![t("b")])), Operation::Custom(Term::List(vec![].into()))][c.choose(8)].clone();
    let (i, o) = (links(c), links(c));
    let sig = if c.flag() { Some(app("core.fn", vec![t("a"), Term::List(vec![].into())])) } else { None };
    let meta: Box<[Term]> = [vec![], vec![t("m")], vec![app("m", vec![t("a")]), Term::Wildcard]][c.choose(3)].clone().into();
    let nr = c.choose(3);
    let regions: Vec<Region> = (0..nr)
        .map(|k| {
            let kind = [RegionKind::DataFlow, RegionKind::ControlFlow, RegionKind::Module][if k == 0 { c.choose(3) } else { 0 }];
            let (s, e) = (links(c), if k == 0 { links(c) } else { Default::default() });
            let children: Vec<Node> = [vec![], vec![Node { operation: Operation::Custom(t("c")), ..Default::default() }, Node { operation: Operation::Cfg, ..Default::default() }]][c.choose(2)].clone();
            Region { kind, sources: s, targets: e, children: children.into(), meta: if c.flag() { meta.clone() } else { Default::default() }, signature: if c.flag() { Some(Term::Wildcard) } else { None } }
        })
        .collect();
    check_module(module(vec![Node { operation: op, inputs: i, outputs: o, regions: regions.into(), meta, signature: sig }], vec![]), cov)
}

/// Packages of several modules, and texts broken over many lines.
fn packages(c: &mut Chooser, cov: &mut Cov) -> Res {
    let long = "l".repeat(c.choose(4) * 30 + 1);
    let wide = |n: usize| -> Vec<Term> { (0..n).map(|i| app(&long, vec![t("a"), Literal::Nat(i as u64).into(), Literal::Str(long.as_str().into()).into()])).collect() };
    let kinds: Vec<Module> = vec![
        module(vec![], vec![]),
        module(vec![Node { operation: Operation::DeclareFunc(symbol(&long, vec![("x", t("a"))], wide(2), t("b"))), ..Default::default() }], wide(1)),
        module(vec![Node { operation: Operation::Custom(app(&long, wide(3))), inputs: (0..5).map(|i| link(&format!("{long}{i}"))).collect(), signature: Some(t("a")), ..Default::default() }], vec![]),
        module(vec![], vec![Term::List(wide(2).into_iter().map(SeqPart::Splice).collect()), Term::Tuple(wide(1).into_iter().map(SeqPart::Item).collect())]),
    ];
    let n = c.choose(4);
    let modules = (0..n).map(|_| kinds[c.choose(kinds.len())].clone()).collect();
    check(&Package { modules }, cov)
}

// ---- texts ------------------------------------------------------------------------------------

/// The grammar of the text form, read token by token.
struct Rd<'a> {
    toks: &'a [String],
    at: usize,
}
const RESERVED: &[&str] = &[
    "mod", "hugr", "bytes", "tuple", "list", "meta", "signature", "public", "private", "dfg", "cfg", "block", "define-func", "declare-func", "declare-operation", "declare-ctr", "declare-alias", "tail-loop", "cond", "import", "...",
];
type Rr<T> = Result<T, ()>;
impl Rd<'_> {
    fn peek(&self) -> &str {
        self.toks.get(self.at).map_or("", |s| s)
    }
    fn peek2(&self) -> &str {
        self.toks.get(self.at + 1).map_or("", |s| s)
    }
    fn next(&mut self) -> &str {
        self.at += 1;
        self.toks.get(self.at - 1).map_or("", |s| s)
    }
    fn eat(&mut self, s: &str) -> Rr<()> {
        if self.next() == s { Ok(()) } else { Err(()) }
    }
    fn is_name(s: &str) -> bool {
        let ident = |p: &str| {
            let mut cs = p.chars();
            cs.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_' || c == '-') && cs.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
        };
        !RESERVED.contains(&s) && s.split('.').all(ident)
    }
    fn name(&mut self) -> Rr<SymbolName> {
        let s = self.next().to_string();
        if Self::is_name(&s) { Ok(sym(&s)) } else { Err(()) }
    }
    /// Either alternative, the first one first.
    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> Rr<T>) -> Option<T> {
        let at = self.at;
        match f(self) {
            Ok(x) => Some(x),
            Err(()) => {
                self.at = at;
                None
            }
        }
    }
    fn lit(s: &str) -> Option<Literal> {
        if let Some(s) = s.strip_prefix('"') {
            return Some(Literal::Str(s.strip_suffix('"')?.into()));
        }
        if s.chars().next().is_some_and(|c| c.is_ascii_digit() || c == '+') || (s.starts_with('-') && s[1..].chars().next().is_some_and(|c| c.is_ascii_digit())) {
            return match s.contains('.') {
                true => s.parse::<f64>().ok().map(|f| Literal::Float(f.into())),
                false => s.parse().ok().map(Literal::Nat),
            };
        }
        None
    }
    fn parts(&mut self, end: &str) -> Rr<Vec<SeqPart>> {
        let mut v = vec![];
        while self.peek() != end {
            let t = self.term()?;
            v.push(if self.peek() == "..." {
                self.next();
                SeqPart::Splice(t)
            } else {
                SeqPart::Item(t)
            });
        }
        self.next();
        Ok(v)
    }
    fn term(&mut self) -> Rr<Term> {
        let s = self.next().to_string();
        if s == "_" {
            return Ok(Term::Wildcard);
        }
        if let Some(v) = s.strip_prefix('?') {
            return if v.is_empty() { Err(()) } else { Ok(Term::Var(var(v))) };
        }
        if s == "[" {
            return Ok(Term::List(self.parts("]")?.into()));
        }
        if let Some(l) = Self::lit(&s) {
            return Ok(Term::Literal(l));
        }
        if s != "(" {
            return if Self::is_name(&s) { Ok(t(&s)) } else { Err(()) };
        }
        match self.peek() {
            "bytes" => {
                self.next();
                let b = self.next();
                let b = b.strip_prefix('"').and_then(|s| s.strip_suffix('"')).ok_or(())?;
                // the palette has one valid text only
                let v: &[u8] = match b {
                    "" => &[],
                    "QUI=" => b"AB",
                    _ => return Err(()),
                };
                self.eat(")")?;
                Ok(Term::Literal(Literal::Bytes(v.into())))
            }
            "tuple" => {
                self.next();
                Ok(Term::Tuple(self.parts(")")?.into()))
            }
            "fn" if self.peek2() == "(" => {
                let r = self.attempt(|r| {
                    r.next();
                    let x = r.region()?;
                    r.eat(")")?;
                    Ok(Term::Func(Arc::new(x)))
                });
                match r {
                    Some(x) => Ok(x),
                    None => self.apply(),
                }
            }
            _ => self.apply(),
        }
    }
    fn apply(&mut self) -> Rr<Term> {
        let n = self.name()?;
        let mut args = vec![];
        while self.peek() != ")" {
            args.push(self.term()?);
        }
        self.next();
        Ok(Term::Apply(n, args.into()))
    }
    fn ports(&mut self) -> Rr<(Box<[LinkName]>, Box<[LinkName]>)> {
        fn one(r: &mut Rd) -> Rr<Box<[LinkName]>> {
            r.eat("[")?;
            let mut v = vec![];
            while r.peek() != "]" {
                v.push(link(r.next().strip_prefix('%').ok_or(())?));
            }
            r.next();
            Ok(v.into())
        }
        let at = self.at;
        let r = one(self).and_then(|a| Ok((a, one(self)?)));
        Ok(r.unwrap_or_else(|_| {
            self.at = at;
            Default::default()
        }))
    }
    fn keyed(&mut self, k: &str) -> Option<Term> {
        if self.peek() == "(" && self.peek2() == k {
            return self.attempt(|r| {
                r.at += 2;
                let t = r.term()?;
                r.eat(")")?;
                Ok(t)
            });
        }
        None
    }
    fn many<T>(&mut self, f: impl Fn(&mut Self) -> Option<T>) -> Vec<T> {
        let mut v = vec![];
        while let Some(x) = f(self) {
            v.push(x);
        }
        v
    }
    fn symbol(&mut self) -> Rr<Box<Symbol>> {
        let visibility = match self.peek() {
            "public" => Some(Visibility::Public),
            "private" => Some(Visibility::Private),
            _ => None,
        };
        if visibility.is_some() {
            self.next();
        }
        let name = self.name()?;
        let params = self.many(|r| {
            r.attempt(|r| {
                r.eat("(")?;
                r.eat("param")?;
                let n = var(r.next().strip_prefix('?').filter(|s| !s.is_empty()).ok_or(())?);
                let t = r.term()?;
                r.eat(")")?;
                Ok(Param { name: n, r#type: t })
            })
        });
        let constraints = self.many(|r| r.keyed("where"));
        let signature = self.term()?;
        Ok(Box::new(Symbol { visibility, name, params: params.into(), constraints: constraints.into(), signature }))
    }
    fn region(&mut self) -> Rr<Region> {
        self.eat("(")?;
        let kind = match self.next() {
            "dfg" => RegionKind::DataFlow,
            "cfg" => RegionKind::ControlFlow,
            "mod" => RegionKind::Module,
            _ => return Err(()),
        };
        let (sources, targets) = self.ports()?;
        let signature = self.keyed("signature");
        let meta = self.many(|r| r.keyed("meta"));
        let children = self.many(|r| r.attempt(|r| r.node()));
        self.eat(")")?;
        Ok(Region { kind, sources, targets, children: children.into(), meta: meta.into(), signature })
    }
    fn node(&mut self) -> Rr<Node> {
        let special = self.attempt(|r| {
            r.eat("(")?;
            let k = r.next().to_string();
            let (op, body) = match k.as_str() {
                "dfg" => (Operation::Dfg, true),
                "cfg" => (Operation::Cfg, true),
                "block" => (Operation::Block, true),
                "tail-loop" => (Operation::TailLoop, true),
                "cond" => (Operation::Conditional, true),
                "import" => (Operation::Import(r.name()?), false),
                "define-func" => (Operation::DefineFunc(r.symbol()?), false),
                "declare-func" => (Operation::DeclareFunc(r.symbol()?), false),
                "declare-alias" => (Operation::DeclareAlias(r.symbol()?), false),
                "declare-ctr" => (Operation::DeclareConstructor(r.symbol()?), false),
                "declare-operation" => (Operation::DeclareOperation(r.symbol()?), false),
                "define-alias" => {
                    let s = r.symbol()?;
                    (Operation::DefineAlias(s, r.term()?), false)
                }
                _ => return Err(()),
            };
            let regions = body || k == "define-func";
            r.rest(op, body, regions)
        });
        match special {
            Some(n) => Ok(n),
            None => {
                self.eat("(")?;
                let op = Operation::Custom(self.term()?);
                self.rest(op, true, true)
            }
        }
    }
    fn rest(&mut self, operation: Operation, body: bool, regions: bool) -> Rr<Node> {
        let (inputs, outputs) = if body { self.ports()? } else { Default::default() };
        let signature = if body { self.keyed("signature") } else { None };
        let meta = self.many(|r| r.keyed("meta"));
        let rs = if regions { self.many(|r| r.attempt(|r| r.region())) } else { vec![] };
        self.eat(")")?;
        Ok(Node { operation, inputs, outputs, regions: rs.into(), meta: meta.into(), signature })
    }
    fn package(&mut self) -> Rr<Package> {
        for s in ["(", "hugr", "0", ")"] {
            self.eat(s)?;
        }
        let mut modules = vec![];
        while self.at < self.toks.len() {
            for s in ["(", "mod", ")"] {
                self.eat(s)?;
            }
            let meta = self.many(|r| r.keyed("meta"));
            let children = self.many(|r| r.attempt(|r| r.node()));
            modules.push(module(children, meta));
        }
        Ok(Package { modules })
    }
}

/// A text made of tokens: read the same by the library and the reference.
fn tokens(toks: &[String], cov: &mut Cov) -> Res {
    let text = toks.join(" ");
    cov.state(&text);
    cov.describe(|| text.clone());
    cov.step(1);
    let want = Rd { toks, at: 0 }.package();
    let got = Package::from_str(&text);
    match (got, want) {
        (Err(_), Err(())) => cov.outcome("refused"),
        (Ok(a), Ok(b)) => {
            cov.outcome("accepted");
            ensure!(show(&a) == show(&b), "read as {} instead of {} | text {text}", show(&a), show(&b));
            check_text(&a, cov)?;
            check_tables(&a, cov)?;
            cov.trace();
        }
        (Ok(a), Err(())) => return bad(format!("a text outside the grammar is accepted as {} | text {text}", show(&a))),
        (Err(e), Ok(_)) => return bad(format!("a text of the grammar is refused: {} | text {text}", e.to_string().replace('\n', " "))),
    }
    Ok(())
}

const TEXTS: [&str; 4] = [
    "( hugr 0 ) ( mod ) ( meta ( a.b \"s\" 1 ) ) ( import a.b ) ( define-func public f ( param ?x core.type ) ( where ( core.nonlinear ?x ) ) ( core.fn [ ?x ] [ ?x ] ) ( meta c ) ( dfg [ %0 ] [ %1 ] ( signature ( core.fn [ ?x ] [ ?x ] ) ) ( ( core.id ?x ) [ %0 ] [ %1 ] ( signature _ ) ( meta c ) ) ) )",
    "( hugr 0 ) ( mod ) ( define-alias private t ( param ?x nat ) core.type ( tuple ?x ... [ 1 2.5 ] ( bytes \"QUI=\" ) ) ) ( declare-ctr c core.type ) ( declare-operation o ( where t ) t )",
    "( hugr 0 ) ( mod ) ( cond [ %a ] [ ] ( dfg ( import x ) ) ( cfg [ ] [ %a ] ( block ( meta m ) ( dfg ) ) ) ) ( tail-loop ( meta _ ) ( dfg [ ] [ ] ) ) ( mod )",
    "( hugr 0 ) ( mod ) ( ( core.x ( fn ( dfg [ %0 ] [ %0 ] ( dfg ( mod ) ) ) ) ) ) ( ( core.load_const ( fn ( dfg [ %0 ] [ %0 ] ( f ) ) ) ) [ ] [ %3 ] )",
];
const EXTRA: &[&str] = &[
    "(", ")", "[", "]", "()", "mod", "hugr", "0", "meta", "signature", "import", "tuple", "fn", "bytes", "list", "dfg", "cfg", "block", "cond", "tail-loop", "define-func", "declare-func", "define-alias", "declare-alias", "declare-ctr", "declare-operation", "public", "private", "param", "where", "...", "_", "?x", "?", "%0", "%", "a", "a.b", "importx", "tuple.x", "metax", "publicx", "\"s\"", "\"\"", "1", "1.5", "-1.5", "+1.5", "99999999999999999999", "-1", "_.x", "-", "a.", ".a", "a.1", "\"", "#", "é", ";", "\u{0}",
];

fn split(s: &str) -> Vec<String> {
    s.split_whitespace().map(String::from).collect()
}

fn mutate(c: &mut Chooser, cov: &mut Cov) -> Res {
    let base = split(TEXTS[c.choose(TEXTS.len())]);
    let i = c.choose(base.len());
    let mut v = base.clone();
    match c.choose(5) {
        0 => drop(v.remove(i)),
        1 => v.insert(i, base[i].clone()),
        2 => {
            if i + 1 == base.len() {
                return Err(Fail::Skip);
            }
            v.swap(i, i + 1);
        }
        3 => v[i] = EXTRA[c.choose(EXTRA.len())].to_string(),
        _ => v.insert(i, EXTRA[c.choose(EXTRA.len())].to_string()),
    }
    // tokens that the reference reader does not know are never valid
    if v.iter().any(|s| ["()", "\"", "#", ";", "é", "\u{0}"].contains(&s.as_str())) {
        let text = v.join(" ");
        cov.state(&text);
        cov.describe(|| text.clone());
        cov.step(1);
        if let Ok(p) = Package::from_str(&text) {
            // a comment or `( )` may be fine where it stands
            ensure!(v.iter().any(|s| s == ";" || s == "()" || s == "\""), "a text with a bad token is accepted | text {text}");
            check_text(&p, cov)?;
        }
        return Ok(());
    }
    tokens(&v, cov)
}

fn short(c: &mut Chooser, cov: &mut Cov, n: usize) -> Res {
    const P: &[&str] = &["(", ")", "[", "]", "meta", "dfg", "a", "?x", "%0", "tuple", "...", "_", "1", "signature", "import", "declare-func", "param", "fn"];
    let starts = [vec![], vec!["("], vec!["(", "a"], vec!["(", "dfg"], vec!["(", "declare-func"], vec!["(", "meta"], vec!["(", "("], vec!["(", "define-func", "f", "a", "(", "dfg"]];
    let s = c.choose(starts.len());
    let mut v: Vec<String> = split("( hugr 0 ) ( mod )");
    v.extend(starts[s].iter().map(|s| s.to_string()));
    let k = c.choose(n + 1);
    for _ in 0..k {
        v.push(P[c.choose(P.len())].to_string());
    }
    // close what is open, or leave it
    if c.flag() {
        let mut open = vec![];
        for x in &v {
            match x.as_str() {
                "(" => open.push(")"),
                "[" => open.push("]"),
                ")" | "]" => drop(open.pop()),
                _ => {}
            }
        }
        if open.is_empty() {
            return Err(Fail::Skip);
        }
        v.extend(open.into_iter().rev().map(String::from));
    }
    tokens(&v, cov)
}

/// Every character of the texts removed or replaced: an error, or a module that all forms agree on.
fn characters(c: &mut Chooser, cov: &mut Cov) -> Res {
    let base: Vec<char> = TEXTS[c.choose(TEXTS.len())].chars().collect();
    let i = c.choose(base.len());
    let mut v = base;
    match c.choose(3) {
        0 => drop(v.remove(i)),
        k => {
            let x = *c.pick(&['(', ')', '[', ']', ' ', '"', '\\', ';', '.', '?', '%', '_', '-', '+', 'a', '0', '\n', 'é', '\0', 'e', ':']);
            if k == 1 { v[i] = x } else { v.insert(i, x) }
        }
    }
    let text: String = v.into_iter().collect();
    cov.state(&text);
    cov.describe(|| text.clone());
    cov.step(1);
    if let Ok(p) = Package::from_str(&text) {
        cov.outcome("accepted");
        check_text(&p, cov)?;
        check_tables(&p, cov)?;
        cov.trace();
    } else {
        cov.outcome("refused");
    }
    Ok(())
}

/// Parts of the language on their own, followed by something.
fn trailing(c: &mut Chooser, cov: &mut Cov) -> Res {
    let (kind, text) = [
        ("term", "(a ?x [1 _])"), ("term", "a"), ("term", "_"), ("term", "?x"), ("node", "(a [%0] [])"), ("region", "(dfg)"), ("param", "(param ?x a)"), ("module", "(mod) (meta a)"), ("package", "(hugr 0) (mod)"),
        ("part", "a ..."), ("part", "[]"), ("literal", "12"), ("literal", "\"s\""), ("symbol", "public f (param ?x a) a"), ("symbol-name", "a.b"), ("var", "?x"), ("link", "%x"),
    ][c.choose(17)];
    let tail = *c.pick(&["", " ", "\n", " ; comment\n", " a", "(", ")", " ?y", " ]", "\"", " é", " ; comment", "\u{a0}"]);
    let s = format!("{text}{tail}");
    cov.state(&(kind, &s));
    cov.describe(|| format!("{kind}: {s:?}"));
    cov.step(1);
    fn one<T: FromStr + std::fmt::Display + std::fmt::Debug>(s: &str) -> Option<(String, String)> {
        T::from_str(s).ok().map(|x| (show(&x), x.to_string()))
    }
    let f = match kind {
        "term" => one::<Term>,
        "node" => one::<Node>,
        "region" => one::<Region>,
        "param" => one::<Param>,
        "module" => one::<Module>,
        "package" => one::<Package>,
        "part" => one::<SeqPart>,
        "literal" => one::<Literal>,
        "symbol" => one::<Symbol>,
        "symbol-name" => one::<SymbolName>,
        "var" => one::<VarName>,
        _ => one::<LinkName>,
    };
    let Some((d0, p0)) = f(text) else { return bad(format!("{kind} refused: {text}")) };
    let Some((d1, _)) = f(&p0) else { return bad(format!("{kind} printed and refused: {p0}")) };
    ensure_eq!(d1, d0, "{kind} printed and read | {text}");
    let good = tail.trim_matches(' ').trim_matches('\n').is_empty() || tail == " ; comment\n";
    match (f(&s), good) {
        (Some((d, _)), true) => ensure_eq!(d, d0, "{kind} | {s:?}"),
        // the text could be longer (`a` `[]`), but what was read must then not be the same
        (Some((d, _)), false) => ensure!(d != d0, "{kind}: what follows is ignored: {s:?}"),
        (None, true) => return bad(format!("{kind} refused with white space after it: {s:?}")),
        (None, false) => {}
    }
    Ok(())
}

/// Every byte of binary forms changed: an error, or a module or no module, but no crash.
fn bytes(c: &mut Chooser, cov: &mut Cov) -> Res {
    let p = Package::from_str(TEXTS[c.choose(TEXTS.len())]).map_err(|e| Fail::Bad { key: String::new(), msg: format!("HARNESS {e}") })?;
    let bump = Bump::new();
    let Ok(tab) = p.resolve(&bump) else { return Err(Fail::Skip) };
    let mut b = binary::write_to_vec(&tab);
    let i = c.choose(b.len());
    match c.choose(12) {
        0 => b.truncate(i),
        k @ 1..=8 => b[i] ^= 1 << (k - 1),
        9 => b[i] = 0xff,
        10 => drop(b.remove(i)),
        _ => b.insert(i, 0),
    }
    cov.state(&b);
    cov.describe(|| format!("{b:?}"));
    cov.step(1);
    let b2 = Bump::new();
    let Ok(t) = binary::read_from_slice(&b, &b2) else {
        cov.outcome("refused");
        return Ok(());
    };
    let b3 = Bump::new();
    let again = binary::write_to_vec(&t);
    if again.len() > 1 << 20 {
        // a list of very many empty items: beyond the reader's limit on its input
        cov.outcome("grown");
        return Ok(());
    }
    match binary::read_from_slice(&again, &b3) {
        Ok(x) => ensure!(x == t, "a table that was read is written and read as another"),
        Err(e) => return bad(format!("a table that was read is written and refused: {e:?}")),
    }
    let Some(ast) = t.as_ast() else {
        cov.outcome("no tree");
        return Ok(());
    };
    cov.outcome("tree");
    let _ = ast.to_string();
    let b4 = Bump::new();
    if let Ok(t2) = ast.resolve(&b4) {
        let Some(a2) = t2.as_ast() else { return bad("a resolved tree has no tree".to_string()) };
        let _ = a2.to_string();
        cov.trace();
    }
    Ok(())
}

pub fn run(r: &mut Runner) {
    let deep = !r.quick();
    r.assume("names are names of the grammar and not its words; nodes that introduce symbols or imports have no ports and no signature, declarations no regions (the text has no place for them); `invalid` nodes are placeholders outside the text form; floats are finite");
    r.family("names", "every name of a list with beginnings of all the grammar's words, as every kind of symbol and in every place, with every visibility", 60.0, named);
    r.family("literals", "every pair of literals of a list", 30.0, lits);
    r.family("characters of strings", "every character below U+0250 and some others, in five contexts", 30.0, chars);
    let d = if deep { 2 } else { 1 };
    r.family("terms", &format!("every term to depth {} in each of 16 places", d + 1), r.b(30.0, 400.0), move |c, cov| {
        let x = G { c, syms: &["a", "b.c"], vars: &["x"] }.term(d);
        let x = if c.flag() { Term::List(vec![SeqPart::Splice(x)].into()) } else { x };
        let m = placed(c, x);
        check_module(m, cov)
    });
    r.family("nested terms", "every term to depth three over one symbol, as an operation", r.b(15.0, 300.0), move |c, cov| {
        let x = G { c, syms: &["a"], vars: &[] }.term(if deep { 3 } else { 2 });
        check_module(module(vec![Node { operation: Operation::Custom(x), ..Default::default() }], vec![]), cov)
    });
    r.family("parts", "every combination of ports, signature, metadata and up to two regions of a node", r.b(20.0, 200.0), parts);
    let n = if deep { 4 } else { 3 };
    r.family("scopes", &format!("every module of at most {n} nodes nested up to two deep that define, import and use two symbols, two variables and two links"), r.b(40.0, 400.0), move |c, cov| scopes(c, cov, n));
    r.family("packages", "every package of up to three modules of four kinds, with short and long names", 30.0, packages);
    r.family("text tokens", "four texts with every token removed, doubled, swapped or replaced by, or preceded by, each of a list", 60.0, mutate);
    let k = if deep { 5 } else { 4 };
    r.family("short texts", &format!("every sequence of up to {k} tokens of 18 after each of eight beginnings, closed or not"), r.b(40.0, 600.0), move |c, cov| short(c, cov, k));
    r.family("text characters", "four texts with every character removed, replaced or preceded by each of 21", 60.0, characters);
    r.family("trailing", "every kind of text on its own followed by each of 13 tails", 10.0, trailing);
    r.family("binary bytes", "four binary modules with every byte changed, removed or doubled", 60.0, bytes);
}
