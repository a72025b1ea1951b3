//! C17: scoped tables of the model language against stacks of dictionaries.
use crate::explore::*;
use crate::{ensure, ensure_eq};
use hugr_model::v0::scope::{LinkTable, SymbolTable, VarTable};
use hugr_model::v0::table::{NodeId, RegionId, VarId};
use std::collections::BTreeMap;

const NAMES: [&str; 3] = ["a", "b", "c"];

pub fn run(r: &mut Runner) {
    r.assume("a node introduces at most one symbol while it is bound, and a region or node is open at most once at a time, as in the module format");
    let d = r.b(9, 10);
    r.family("symbols", &format!("every sequence of {d} enter(fresh or closed region)/exit/insert(3 names, fresh or released node)/clear on the symbol table; all lookups compared after every step"), r.b(60.0, 400.0), |c, cov| {
        let mut t = SymbolTable::new();
        // model: stack of (region, name -> node)
        let mut m: Vec<(u32, Vec<(&str, u32)>)> = vec![];
        let (mut next_r, mut next_n) = (0u32, 0u32);
        let mut closed: Vec<u32> = vec![];
        let mut freed: Vec<u32> = vec![];
        let mut log = vec![];
        for _ in 0..d {
            // stop, enter fresh, enter reused, exit, insert x3 (fresh node), insert with a released node, clear
            match c.choose(9) {
                0 => {
                    log.push("end".to_string());
                    break;
                }
                1 => {
                    if m.len() >= 4 {
                        return Err(Fail::Skip);
                    }
                    t.enter(RegionId(next_r));
                    m.push((next_r, vec![]));
                    log.push(format!("enter r{next_r}"));
                    next_r += 1;
                }
                2 => {
                    let Some(x) = closed.pop() else { return Err(Fail::Skip) };
                    if m.len() >= 4 {
                        return Err(Fail::Skip);
                    }
                    t.enter(RegionId(x));
                    m.push((x, vec![]));
                    log.push(format!("enter again r{x}"));
                }
                3 => {
                    let Some((x, b)) = m.pop() else { return Err(Fail::Skip) };
                    t.exit();
                    closed.push(x);
                    freed.extend(b.iter().map(|x| x.1));
                    log.push("exit".into());
                }
                k @ 4..=7 => {
                    if m.is_empty() {
                        return Err(Fail::Skip);
                    }
                    let (name, node) = if k == 7 {
                        let Some(n) = freed.pop() else { return Err(Fail::Skip) };
                        (NAMES[0], n)
                    } else {
                        next_n += 1;
                        (NAMES[k - 4], next_n - 1)
                    };
                    let got = t.insert(name, NodeId(node));
                    let top = &mut m.last_mut().unwrap().1;
                    let old = top.iter().find(|x| x.0 == name).map(|x| x.1);
                    log.push(format!("insert {name} n{node}"));
                    match (old, got) {
                        (None, Ok(())) => top.push((name, node)),
                        (Some(o), Err(e)) => {
                            ensure!(e.0 == name && e.1 == NodeId(node) && e.2 == NodeId(o), "duplicate error names the wrong symbol: {e:?} after {log:?}");
                            freed.push(node);
                        }
                        (o, g) => return bad(format!("insert: already bound in this scope {o:?} but got {:?} after {log:?}", g.is_ok())),
                    }
                }
                _ => {
                    t.clear();
                    log.push("clear".into());
                    for (x, b) in m.drain(..) {
                        closed.push(x);
                        freed.extend(b.iter().map(|x| x.1));
                    }
                }
            }
            cov.step(1);
            if !c.fresh() {
                continue;
            }
            cov.state(format!("{m:?}"));
            for n in NAMES {
                let want = m.iter().rev().find_map(|(_, b)| b.iter().find(|x| x.0 == n)).map(|x| x.1);
                ensure_eq!(t.resolve(n).ok().map(|x| x.0), want, "resolve {n} after {log:?}");
            }
            for node in 0..next_n {
                let want = m.iter().enumerate().any(|(d, (_, b))| {
                    b.iter().any(|(n, x)| *x == node && !m[d + 1..].iter().any(|(_, b)| b.iter().any(|(n2, _)| n2 == n)))
                });
                if t.is_visible(NodeId(node)) != want {
                    return bad(format!("is_visible(n) should be {want}; n{node} after {log:?}"));
                }
            }
            for reg in 0..next_r {
                let want = m.iter().position(|x| x.0 == reg).map(|x| x as u16);
                ensure_eq!(t.region_to_depth(RegionId(reg)), want, "region_to_depth r{reg} after {log:?}");
            }
            for dep in 0..6u16 {
                ensure_eq!(t.depth_to_region(dep).map(|x| x.0), m.get(dep as usize).map(|x| x.0), "depth_to_region {dep} after {log:?}");
            }
        }
        cov.trace();
        cov.describe(|| log.join("; "));
        Ok(())
    });
    let d = r.b(9, 11);
    r.family("links", &format!("every sequence of {d} enter(fresh or closed region)/exit/use_link(3 names)/clear on the link table"), r.b(60.0, 400.0), |c, cov| {
        let mut t: LinkTable<&str> = LinkTable::new();
        let mut m: Vec<(u32, Vec<&str>, u32)> = vec![];
        let mut next_r = 0u32;
        let mut closed = vec![];
        let mut log = vec![];
        for _ in 0..d {
            match c.choose(8) {
                0 => break,
                1 => {
                    t.enter(RegionId(next_r));
                    m.push((next_r, vec![], 0));
                    next_r += 1;
                    log.push("enter".into());
                }
                2 => {
                    let Some(x) = closed.pop() else { return Err(Fail::Skip) };
                    t.enter(RegionId(x));
                    m.push((x, vec![], 0));
                    log.push(format!("enter again r{x}"));
                }
                3 => {
                    let Some((x, l, p)) = m.pop() else { return Err(Fail::Skip) };
                    log.push("exit".into());
                    let got = t.exit();
                    ensure_eq!(got, (l.len() as u32, p), "exit reports (links, ports); {log:?}");
                    closed.push(x);
                }
                k @ 4..=6 => {
                    let n = NAMES[k - 4];
                    let Some(top) = m.last_mut() else { return Err(Fail::Skip) };
                    log.push(format!("use {n}"));
                    let got = t.use_link(n);
                    top.2 += 1;
                    let want = match top.1.iter().position(|x| *x == n) {
                        Some(i) => i,
                        None => {
                            top.1.push(n);
                            top.1.len() - 1
                        }
                    };
                    ensure_eq!(format!("{got:?}"), format!("{:?}", hugr_model::v0::table::LinkIndex::new(want)), "use_link {log:?}");
                }
                _ => {
                    t.clear();
                    log.push("clear".into());
                    closed.extend(m.drain(..).map(|x| x.0));
                }
            }
            cov.step(1);
            cov.state(format!("{m:?}"));
        }
        cov.trace();
        cov.describe(|| log.join("; "));
        Ok(())
    });
    r.family("vars", &format!("every sequence of {d} enter(fresh or closed node)/exit/insert(3 names)/clear on the variable table; all lookups compared after every step"), r.b(60.0, 400.0), |c, cov| {
        let mut t = VarTable::new();
        let mut m: Vec<(u32, Vec<&str>)> = vec![];
        let mut next = 0u32;
        let mut closed = vec![];
        let mut log = vec![];
        for _ in 0..d {
            match c.choose(8) {
                0 => break,
                1 => {
                    t.enter(NodeId(next));
                    m.push((next, vec![]));
                    next += 1;
                    log.push("enter".into());
                }
                2 => {
                    let Some(x) = closed.pop() else { return Err(Fail::Skip) };
                    t.enter(NodeId(x));
                    m.push((x, vec![]));
                    log.push(format!("enter again n{x}"));
                }
                3 => {
                    let Some((x, _)) = m.pop() else { return Err(Fail::Skip) };
                    log.push("exit".into());
                    t.exit();
                    closed.push(x);
                }
                k @ 4..=6 => {
                    let n = NAMES[k - 4];
                    let Some((node, vars)) = m.last_mut() else { return Err(Fail::Skip) };
                    log.push(format!("insert {n}"));
                    let got = t.insert(n);
                    if vars.contains(&n) {
                        ensure!(got.is_err(), "insert of a duplicate accepted {log:?}");
                    } else {
                        vars.push(n);
                        ensure!(got.as_ref().ok() == Some(&VarId(NodeId(*node), vars.len() as u16 - 1)), "insert returns the wrong variable {got:?} {log:?}");
                    }
                }
                _ => {
                    t.clear();
                    log.push("clear".into());
                    closed.extend(m.drain(..).map(|x| x.0));
                }
            }
            cov.step(1);
            if !c.fresh() {
                continue;
            }
            cov.state(format!("{m:?}"));
            for n in NAMES {
                let want = m.last().and_then(|(node, v)| v.iter().position(|x| *x == n).map(|i| VarId(NodeId(*node), i as u16)));
                ensure!(t.resolve(n).ok() == want, "resolve {n}: want {want:?} got {:?} after {log:?}", t.resolve(n));
            }
            for node in 0..next {
                for i in 0..4u16 {
                    let want = m.last().is_some_and(|(n, v)| *n == node && (i as usize) < v.len());
                    ensure!(t.is_visible(VarId(NodeId(node), i)) == want, "is_visible(n{node}, {i}) should be {want} after {log:?}");
                }
            }
        }
        cov.trace();
        cov.describe(|| log.join("; "));
        Ok(())
    });
    let _ = BTreeMap::<u8, u8>::new();
}
