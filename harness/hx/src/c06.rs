//! C06: envelope I/O under every placement of short transfers, interruptions and faults.
use crate::c04::{cfg, diff, has_exts, is_model, normal, packaged, rich, store, FORMATS};
use crate::explore::*;
use crate::prog::*;
use crate::{ensure, ensure_eq};
use hugr_core::envelope::{EnvelopeConfig, read_described_envelope, read_envelope, write_envelope};
use hugr_core::extension::ExtensionRegistry;
use hugr_core::package::Package;
use hugr_core::types::Signature;
use hugr_core::{Hugr, Visibility};
use std::io::{self, BufRead, Read, Write};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Dev {
    /// transfer one byte only
    Short,
    /// transfer half of what was asked
    Half,
    Interrupted,
    Hard(io::ErrorKind),
    /// a transfer of nothing (writing only)
    Zero,
}
const HARD: [io::ErrorKind; 4] = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe];
fn reading() -> Vec<Dev> {
    let mut v = vec![Dev::Short, Dev::Half, Dev::Interrupted];
    v.extend(HARD.map(Dev::Hard));
    v
}
fn writing() -> Vec<Dev> {
    let mut v = reading();
    v.push(Dev::Zero);
    v
}
#[derive(Clone, Debug, Hash)]
struct Plan {
    /// the most bytes one call transfers
    chunk: usize,
    /// deviations by call number
    at: Vec<(usize, Dev)>,
}
impl Plan {
    fn dev(&self, call: usize) -> Option<Dev> {
        self.at.iter().find(|(k, _)| *k == call).map(|x| x.1)
    }
}
struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    plan: Plan,
    calls: usize,
    hard: bool,
    /// what fill_buf has handed out and consume has not taken yet
    open: Option<usize>,
}
impl<'a> Source<'a> {
    fn new(data: &'a [u8], plan: &Plan) -> Self {
        Source { data, pos: 0, plan: plan.clone(), calls: 0, hard: false, open: None }
    }
    fn step(&mut self, want: usize) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        let n = want.min(self.data.len() - self.pos).min(self.plan.chunk);
        match self.plan.dev(k) {
            None => Ok(n),
            Some(Dev::Short) => Ok(n.min(1)),
            Some(Dev::Half) => Ok(n.div_ceil(2)),
            Some(Dev::Interrupted) => Err(io::ErrorKind::Interrupted.into()),
            Some(Dev::Hard(e)) => {
                self.hard = true;
                Err(io::Error::new(e, "injected"))
            }
            Some(Dev::Zero) => unreachable!(),
        }
    }
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = match self.open.take() {
            Some(n) => n.min(b.len()),
            None => self.step(b.len())?,
        };
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Source<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let n = match self.open {
            Some(n) if n > 0 => n,
            _ => self.step(usize::MAX)?,
        };
        self.open = Some(n);
        Ok(&self.data[self.pos..self.pos + n])
    }
    fn consume(&mut self, k: usize) {
        self.pos += k;
        self.open = self.open.map(|n| n - k).filter(|n| *n > 0);
    }
}
struct Sink {
    taken: Vec<u8>,
    /// how much of it was flushed
    flushed: usize,
    plan: Plan,
    calls: usize,
    hard: bool,
}
impl Sink {
    fn new(plan: &Plan) -> Self {
        Sink { taken: vec![], flushed: 0, plan: plan.clone(), calls: 0, hard: false }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        let n = b.len().min(self.plan.chunk);
        let n = match self.plan.dev(k) {
            None => n,
            Some(Dev::Short) => n.min(1),
            Some(Dev::Half) => n.div_ceil(2),
            Some(Dev::Interrupted) => return Err(io::ErrorKind::Interrupted.into()),
            Some(Dev::Hard(e)) => {
                self.hard = true;
                return Err(io::Error::new(e, "injected"));
            }
            Some(Dev::Zero) => {
                self.hard |= !b.is_empty();
                0
            }
        };
        self.taken.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let k = self.calls;
        self.calls += 1;
        match self.plan.dev(k) {
            None => {}
            // "interrupted" means try again: a caller that does not must fail
            Some(Dev::Interrupted) => return Err(io::ErrorKind::Interrupted.into()),
            Some(Dev::Hard(e)) => {
                self.hard = true;
                return Err(io::Error::new(e, "injected"));
            }
            Some(_) => {}
        }
        self.flushed = self.taken.len();
        Ok(())
    }
}

struct Case {
    name: String,
    p: Package,
    c: EnvelopeConfig,
    bytes: Vec<u8>,
    norm: String,
    model: bool,
}
fn pnormal(p: &Package, m: bool) -> String {
    let mut s: String = p.modules.iter().map(|h| normal(h, m) + "\n===\n").collect();
    for e in p.extensions.iter() {
        s += &serde_json::to_string(e.as_ref()).unwrap();
    }
    s
}
fn small() -> Hugr {
    let mut h = Hugr::new();
    let (m, i, o) = func(&mut h, "main", pbool(), Visibility::Public);
    let n = add(&mut h, m, logic("Not"));
    wire(&mut h, (i, 0), n, 0);
    wire(&mut h, (n, 0), o, 0);
    h
}
fn cases(deep: bool, reg: &ExtensionRegistry) -> Vec<Case> {
    let mut with = Package::new([Hugr::new()]);
    with.extensions = ExtensionRegistry::new(packaged());
    let mut pk = vec![("small", Package::from_hugr(small())), ("extensions", with), ("nothing", Package::new([])), ("two", Package::new([small(), Hugr::new()]))];
    if deep {
        pk.push(("rich", Package::from_hugr(rich(false, false))));
    }
    let mut v = vec![];
    for (n, p) in pk {
        for f in FORMATS {
            if n == "extensions" && !has_exts(f) {
                continue;
            }
            let zs: &[usize] = if deep { &[0, 1, 2, 20] } else { &[0, 1] };
            for z in zs {
                let c = cfg(f, *z);
                let bytes = store(&p, c).unwrap();
                let q = crate::c04::load_pkg(&bytes, reg).unwrap();
                v.push(Case { name: format!("{n} {f} zstd {z}"), norm: pnormal(&q, is_model(f)), p: p.clone(), c, bytes, model: is_model(f) });
            }
        }
    }
    v
}
/// The ways in.
const READERS: usize = 5;
/// Returns the package, how many calls were made, and whether a hard fault was delivered.
fn read_with(k: usize, b: &[u8], plan: &Plan, reg: &ExtensionRegistry) -> (Result<Package, String>, usize, bool) {
    let mut s = Source::new(b, plan);
    let r = guard(|| match k {
        0 => Package::load(&mut s, Some(reg)).map_err(|e| e.to_string()),
        1 => Package::load(io::BufReader::with_capacity(1, &mut s), Some(reg)).map_err(|e| e.to_string()),
        2 => read_envelope(io::BufReader::with_capacity(64, &mut s), reg).map(|x| x.1).map_err(|e| e.to_string()),
        3 => read_described_envelope(io::BufReader::new(&mut s), reg).map(|x| x.1).map_err(|e| e.to_string()),
        _ => Hugr::load(&mut s, Some(reg)).map(Package::from_hugr).map_err(|e| e.to_string()),
    });
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic {e}")),
    };
    (r, s.calls, s.hard)
}
/// The ways out.
const WRITERS: usize = 3;
fn write_with(k: usize, p: &Package, c: EnvelopeConfig, plan: &Plan) -> (Result<(), String>, Sink) {
    let mut s = Sink::new(plan);
    let r = guard(|| match k {
        0 => p.store(&mut s, c).map_err(|e| e.to_string()),
        1 => write_envelope(&mut s, p, c).map_err(|e| e.to_string()),
        _ => p.modules[0].store_with_exts(&mut s, c, &p.extensions).map_err(|e| e.to_string()),
    });
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic {e}")),
    };
    (r, s)
}
fn check_read(cs: &Case, k: usize, plan: &Plan, reg: &ExtensionRegistry, cov: &mut Cov) -> Res {
    let (r, calls, hard) = read_with(k, &cs.bytes, plan, reg);
    cov.step(calls as u64);
    let d = format!("{}: reader {k}, {plan:?}", cs.name);
    match r {
        Err(e) if e.starts_with("panic") => bad(format!("{d}: {e}")),
        Err(e) if !hard => bad_key("read-fails", format!("{d}: no fault was delivered, but reading fails: {e}")),
        Err(e) => {
            cov.outcome("fault reported");
            ensure!(!e.is_empty(), "{d}: no message");
            Ok(())
        }
        Ok(_) if hard => bad_key("read-fault-lost", format!("{d}: the stream reported a fault, but reading succeeds")),
        Ok(p) => {
            cov.outcome("read");
            let n = pnormal(&p, cs.model);
            ensure!(n == cs.norm, "{d}: another package\n {}", diff(&cs.norm, &n));
            Ok(())
        }
    }
}
fn check_write(cs: &Case, k: usize, plan: &Plan, reg: &ExtensionRegistry, cov: &mut Cov) -> Res {
    let (r, s) = write_with(k, &cs.p, cs.c, plan);
    cov.step(s.calls as u64);
    let d = format!("{}: writer {k}, {plan:?}", cs.name);
    ensure!(cs.bytes.starts_with(&s.taken), "{d}: what was written ({} bytes) does not start the envelope", s.taken.len());
    let flush_interrupted = plan.at.iter().any(|(i, v)| *v == Dev::Interrupted && *i + 1 >= s.calls);
    match r {
        Err(e) if e.starts_with("panic") => bad(format!("{d}: {e}")),
        Err(e) if !s.hard && !flush_interrupted => bad_key("write-fails", format!("{d}: no fault was delivered, but writing fails: {e}")),
        Err(_) => {
            cov.outcome("fault reported");
            Ok(())
        }
        Ok(()) if s.hard => bad_key("write-fault-lost", format!("{d}: the stream reported a fault, but storing succeeds with {} of {} bytes", s.taken.len(), cs.bytes.len())),
        Ok(()) => {
            cov.outcome("written");
            ensure_eq!(s.taken.len(), cs.bytes.len(), "{d}: bytes written");
            if s.flushed < s.taken.len() {
                return bad_key("not-flushed", format!("{d}: storing succeeds, but only {} of {} bytes were flushed", s.flushed, s.taken.len()));
            }
            ensure!(crate::c04::load_pkg(&s.taken, reg).is_ok(), "{d}: cannot be loaded");
            Ok(())
        }
    }
}
pub fn run(r: &mut Runner) {
    r.assume("a stream that reports a fault may be abandoned by its caller: what a second attempt on the same stream would give is not examined");
    r.assume("an interruption of flush may be passed on to the caller, as the standard library does");
    let reg = Arc::new(registry());
    let deep = !r.quick();
    let cs: Arc<Vec<Case>> = Arc::new(cases(deep, &reg));
    let whole = Plan { chunk: usize::MAX, at: vec![] };
    {
        let (cs, reg) = (cs.clone(), reg.clone());
        let max = if deep { 4096 } else { 256 };
        r.family("chunks", &format!("every envelope (four packages, five formats, compressed or not), every entry point, every constant transfer size up to {max}"), 60.0, move |c, cov| {
            let cs = c.pick(&cs);
            let k = c.choose(READERS + WRITERS);
            let plan = Plan { chunk: 1 + c.choose(max), at: vec![] };
            cov.state((&cs.name, k, plan.chunk));
            one(cs, k, &plan, &reg, cov)
        });
    }
    {
        let (cs, reg, whole) = (cs.clone(), reg.clone(), whole.clone());
        r.family("one", "every envelope, every entry point, largest transfers: one deviation of every kind at every call; also with transfers of at most 7 and 100 bytes", r.b(90.0, 300.0), move |c, cov| {
            let cs = c.pick(&cs);
            let k = c.choose(READERS + WRITERS);
            let chunk = *c.pick(&[usize::MAX, 100, 7]);
            let plan = Plan { chunk, ..whole.clone() };
            let n = calls(cs, k, &plan, &reg);
            let at = c.choose(n);
            let kinds = if k < READERS { reading() } else { writing() };
            let dev = *c.pick(&kinds);
            let plan = Plan { chunk, at: vec![(at, dev)] };
            cov.state((&cs.name, k, &plan));
            cov.describe(|| format!("{}: entry {k} {plan:?} of {n} calls", cs.name));
            one(cs, k, &plan, &reg, cov)
        });
    }
    {
        let (cs, reg, whole) = (cs.clone(), reg.clone(), whole.clone());
        let cap = if deep { 120 } else { 16 };
        r.family("two", &format!("every envelope, every entry point: two deviations of every pair of kinds at every pair of calls among the first and the last {cap} calls (transfers of at most 7 or 100 bytes, or unlimited)"), r.b(120.0, 900.0), move |c, cov| {
            let cs = c.pick(&cs);
            let k = c.choose(READERS + WRITERS);
            let chunk = *c.pick(&[usize::MAX, 100, 7]);
            let plan = Plan { chunk, ..whole.clone() };
            let n = calls(cs, k, &plan, &reg);
            let pos: Vec<usize> = (0..n).filter(|i| *i < cap || *i + cap >= n).collect();
            let a = c.choose(pos.len());
            let first = [Dev::Short, Dev::Half, Dev::Interrupted];
            let d1 = *c.pick(&first);
            // an extra call may follow a deviation
            let b = a + 1 + c.choose(pos.len() - a + 1);
            let b = pos.get(b).copied().unwrap_or(pos[pos.len() - 1] + 1 + b.saturating_sub(pos.len()));
            let kinds = if k < READERS { reading() } else { writing() };
            let d2 = *c.pick(&kinds);
            let plan = Plan { chunk, at: vec![(pos[a], d1), (b, d2)] };
            cov.state((&cs.name, k, &plan));
            one(cs, k, &plan, &reg, cov)
        });
    }
    {
        let (cs, reg) = (cs.clone(), reg.clone());
        r.family("persistent", "every envelope, every entry point: from every call on, every call deviates in the same way", 60.0, move |c, cov| {
            let cs = c.pick(&cs);
            let k = c.choose(READERS + WRITERS);
            let n = calls(cs, k, &Plan { chunk: 50, at: vec![] }, &reg);
            let from = c.choose(n);
            let kinds = if k < READERS { reading() } else { writing() };
            let dev = *c.pick(&kinds.into_iter().filter(|d| *d != Dev::Interrupted).collect::<Vec<_>>());
            let plan = Plan { chunk: 50, at: (from..from + 6 * n).map(|i| (i, dev)).collect() };
            cov.state((&cs.name, k, from, dev));
            one(cs, k, &plan, &reg, cov)
        });
    }
    {
        let reg = reg.clone();
        r.family("model", "the binary model reader and writer on their own: one deviation of every kind at every call, transfers of any size up to 64", 30.0, move |c, cov| {
            use hugr_model::v0::{binary, bumpalo::Bump};
            let bump = Bump::new();
            let hs = [small(), Hugr::new(), rich(false, false)];
            let h = c.pick(&hs);
            let pk = hugr_core::export::export_package([h], &reg, &bump);
            let bytes = binary::write_to_vec(&pk);
            let chunk = 1 + c.choose(64);
            let w = c.flag();
            let plan = Plan { chunk, at: vec![] };
            if w {
                let mut s = Sink::new(&plan);
                binary::write_to_writer(&pk, &mut s).map_err(|e| Fail::Bad { key: "".into(), msg: e.to_string() })?;
                ensure!(s.taken == bytes, "transfers of {chunk} bytes write something else");
                let at = c.choose(s.calls);
                let dev = *c.pick(&writing());
                let mut t = Sink::new(&Plan { chunk, at: vec![(at, dev)] });
                let r = guard(|| binary::write_to_writer(&pk, &mut t).map_err(|e| e.to_string()));
                cov.state((chunk, at, dev));
                ensure!(bytes.starts_with(&t.taken), "writes something else");
                match r {
                    Err(e) => bad(format!("panic {e}")),
                    Ok(x) => {
                        ensure_eq!(x.is_ok(), !t.hard, "chunk {chunk} {dev:?} at {at}");
                        ensure!(t.hard || t.taken == bytes, "incomplete");
                        Ok(())
                    }
                }
            } else {
                let mut s = Source::new(&bytes, &plan);
                let p = binary::read_from_reader(&mut s, &bump).map_err(|e| Fail::Bad { key: "".into(), msg: e.to_string() })?;
                ensure!(p == pk, "transfers of {chunk} bytes read something else");
                let at = c.choose(s.calls);
                let dev = *c.pick(&reading());
                let mut t = Source::new(&bytes, &Plan { chunk, at: vec![(at, dev)] });
                let b2 = Bump::new();
                let r = guard(|| binary::read_from_reader(&mut t, &b2).map_err(|e| e.to_string()));
                cov.state((chunk, at, dev));
                match r {
                    Err(e) => bad(format!("panic {e}")),
                    Ok(x) => {
                        if x.is_ok() == t.hard {
                            return bad_key("model-read", format!("chunk {chunk} {dev:?} at {at}: fault {} {:?}", t.hard, x.err()));
                        }
                        ensure!(x.map_or(true, |p| p == pk), "another package");
                        Ok(())
                    }
                }
            }
        });
    }
}
fn one(cs: &Case, k: usize, plan: &Plan, reg: &ExtensionRegistry, cov: &mut Cov) -> Res {
    if single_only(k) && cs.p.modules.len() != 1 {
        return Err(Fail::Skip);
    }
    if k < READERS {
        if k == 4 && !cs.p.extensions.iter().next().is_none() {
            return Err(Fail::Skip);
        }
        check_read(cs, k, plan, reg, cov)
    } else {
        check_write(cs, k - READERS, plan, reg, cov)
    }
}
fn single_only(k: usize) -> bool {
    k == 4 || k == READERS + 2
}
/// How many calls an undisturbed run makes.
fn calls(cs: &Case, k: usize, plan: &Plan, reg: &ExtensionRegistry) -> usize {
    if single_only(k) && cs.p.modules.len() != 1 {
        return 1;
    }
    if k < READERS { read_with(k, &cs.bytes, plan, reg).1 } else { write_with(k - READERS, &cs.p, cs.c, plan).1.calls }
}
