//! C05: damaged envelopes are reported, never crash, never read as garbage.
use crate::c04::{cfg, diff, has_exts, is_model, load_pkg, normal, packaged, rich, store, FORMATS};
use crate::explore::*;
use crate::prog::*;
use crate::ensure;
use hugr_core::envelope::{EnvelopeFormat, USED_EXTENSIONS_KEY};
use hugr_core::extension::{Extension, ExtensionRegistry};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops;
use hugr_core::package::Package;
use hugr_core::types::{PolyFuncType, Signature, Type, TypeBound};
use hugr_core::{Hugr, HugrView, Visibility};
use serde_json::{Value as J, json};
use std::sync::Arc;

/// Small packages covering every construct between them.
fn bases(small: bool) -> Vec<(&'static str, Package)> {
    let a = {
        let mut h = Hugr::new();
        let t = Type::new_var_use(0, TypeBound::Copyable);
        let sig = PolyFuncType::new([TypeBound::Copyable.into()], Signature::new(vec![t.clone()], vec![t]));
        let (f, i, o) = func(&mut h, "id", sig.clone(), Visibility::Private);
        wire(&mut h, (i, 0), o, 0);
        let (m, i, o) = func(&mut h, "main", pbool(), Visibility::Public);
        let l = load(&mut h, m, m, ops::Value::true_val());
        let a = add(&mut h, m, logic("And"));
        wire(&mut h, (i, 0), a, 0);
        wire(&mut h, l, a, 1);
        let c = add(&mut h, m, ops::Call::try_new(sig, vec![b().into()]).unwrap());
        wire(&mut h, (a, 0), c, 0);
        h.connect(f, 0, c, 1);
        wire(&mut h, (c, 0), o, 0);
        let e = add(&mut h, m, test_op("eff_a"));
        order(&mut h, a, e);
        order(&mut h, e, o);
        h.set_metadata(a, "k", json!({"a": [1, "x"]}));
        h.set_entrypoint(m);
        Package::from_hugr(h)
    };
    let pk = packaged();
    let mut x = Package::new([Hugr::new()]);
    x.extensions = ExtensionRegistry::new(pk);
    if small {
        vec![("calls", a), ("extensions", x)]
    } else {
        vec![("calls", a), ("extensions", x), ("rich", Package::from_hugr(rich(false, false)))]
    }
}
fn pnormal(p: &Package, m: bool) -> String {
    let mut s: String = p.modules.iter().map(|h| normal(h, m) + "\n===\n").collect();
    for e in p.extensions.iter() {
        s += &serde_json::to_string(e.as_ref()).unwrap();
    }
    s
}
/// A panic message without what varies from input to input or with the layout of the source.
fn site(e: &str) -> String {
    let m = e.split(" [at ").next().unwrap_or("").trim_start_matches("panic ");
    let file = e.rsplit("[at ").next().unwrap_or("").split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("");
    let m: String = m.chars().take(60).filter(|c| !c.is_ascii_digit()).collect();
    format!("{file}: {}", m.split(&['(', '"'][..]).next().unwrap_or("").trim())
}
/// Read arbitrary bytes. Whatever is returned must be usable. Returns the package.
pub fn probe(b: &[u8], reg: &ExtensionRegistry, d: &str, cov: &mut Cov) -> Result<Option<Package>, Fail> {
    let t = std::time::Instant::now();
    let r = load_pkg(b, reg);
    cov.step(1);
    let el = t.elapsed().as_secs_f64();
    let p = match r {
        Ok(p) => p,
        Err(e) if e.starts_with("panic") => {
            return bad_key(format!("panic {}", site(&e)), format!("reading panics: {e}\n {d}"));
        }
        Err(e) => {
            cov.outcome("rejected");
            ensure!(!e.is_empty(), "an error without a message\n {d}");
            if el > 20.0 {
                return bad_key("slow", format!("rejecting took {el} s\n {d}"));
            }
            return Ok(None);
        }
    };
    if el > 20.0 {
        return bad_key("slow", format!("reading took {el} s\n {d}"));
    }
    usable(&p, reg, d, cov)?;
    Ok(Some(p))
}
/// A package that was read can be queried, validated and stored.
fn usable(p: &Package, reg: &ExtensionRegistry, d: &str, cov: &mut Cov) -> Res {
    let panicked = |what: &str, e: String| {
        bad_key(format!("{what} {}", site(&e)), format!("{what} of a package that was read panics: {e}\n {d}"))
    };
    if let Err(e) = guard(|| query(p)) {
        return panicked("query", e);
    }
    match guard(|| p.validate()) {
        Err(e) => return panicked("validation", e),
        Ok(Err(_)) => {
            cov.outcome("read, not valid");
            // the JSON form can represent anything
            match store(p, cfg(EnvelopeFormat::PackageJson, 0)) {
                Err(e) if e.starts_with("panic") => return panicked("storing", e),
                _ => {}
            }
        }
        Ok(Ok(())) => {
            cov.outcome("read, valid");
            for f in [EnvelopeFormat::PackageJson, EnvelopeFormat::ModelWithExtensions] {
                let s = match store(p, cfg(f, 0)) {
                    Ok(s) => s,
                    Err(e) if e.starts_with("panic") => return panicked("storing", e),
                    Err(e) => return bad_key("store", format!("{f}: storing a valid package fails: {e}\n {d}")),
                };
                match load_pkg(&s, reg) {
                    Ok(_) => {}
                    Err(e) if e.starts_with("panic") => return panicked("reloading", e),
                    Err(e) if e.contains("recursion limit exceeded") => cov.outcome("deeper than JSON may be nested"),
                    Err(e) => return bad_key("reload", format!("{f}: a valid package that was stored again is rejected: {e}\n {d}")),
                }
            }
        }
    }
    Ok(())
}
fn query(p: &Package) -> usize {
    let mut k = 0;
    for h in &p.modules {
        k += normal(h, false).len();
        for n in h.nodes() {
            k += h.get_optype(n).to_string().len() + h.children(n).count() + h.all_neighbours(n).count() + h.get_parent(n).map_or(0, |_| 1);
            k += h.num_ports(n, hugr_core::Direction::Incoming);
            for p in h.all_node_ports(n) {
                k += h.linked_ports(n, p).count() + format!("{:?}", h.get_optype(n).port_kind(p)).len();
            }
        }
        k += h.entrypoint_optype().to_string().len() + h.mermaid_string().len().min(1) + h.descendants(h.entrypoint()).count();
    }
    k
}
fn palette() -> Vec<J> {
    vec![J::Null, json!(true), json!(0), json!(1), json!(2), json!(3), json!(255), json!(65535), json!(65536), json!(4294967295u64), json!(u64::MAX), json!(-1), json!(1.5), json!(""), json!("x"), json!("B"), json!([]), json!([0]), json!([[0, 0], [0, 0]]), json!({}), json!({"t": "I"}), json!({"s": "Unit", "size": 255, "t": "Sum"})]
}
/// The positions in a JSON value.
fn paths(j: &J, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match j {
        J::Array(v) => {
            for (k, x) in v.iter().enumerate() {
                at.push(k.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        J::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn get<'a>(j: &'a mut J, p: &[String]) -> &'a mut J {
    let mut x = j;
    for k in p {
        x = match x {
            J::Array(v) => &mut v[k.parse::<usize>().unwrap()],
            J::Object(m) => m.get_mut(k).unwrap(),
            _ => unreachable!(),
        };
    }
    x
}
/// Words of the model text: strings, brackets and atoms.
fn tokens(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '(' | ')' | '[' | ']' => v.push(c.to_string()),
            '"' => {
                let mut t = String::from('"');
                while let Some(c) = it.next() {
                    t.push(c);
                    match c {
                        '\\' => t.extend(it.next()),
                        '"' => break,
                        _ => {}
                    }
                }
                v.push(t);
            }
            c if c.is_whitespace() => {}
            c => {
                let mut t = String::from(c);
                while let Some(c) = it.peek() {
                    if c.is_whitespace() || "()[]\"".contains(*c) {
                        break;
                    }
                    t.push(*c);
                    it.next();
                }
                v.push(t);
            }
        }
    }
    v
}
struct Env {
    name: String,
    f: EnvelopeFormat,
    bytes: Vec<u8>,
    norm: String,
}
fn envs(small: bool, zs: &[usize], reg: &ExtensionRegistry) -> Vec<Env> {
    let mut v = vec![];
    for (n, p) in bases(small) {
        for f in FORMATS {
            if !has_exts(f) && n == "extensions" {
                continue;
            }
            for z in zs {
                let bytes = store(&p, cfg(f, *z)).unwrap();
                let q = load_pkg(&bytes, reg).unwrap();
                v.push(Env { name: format!("{n} {f} zstd {z}"), f, norm: pnormal(&q, is_model(f)), bytes });
            }
        }
    }
    v
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(6000)]).into_owned()
}
pub fn run(r: &mut Runner) {
    r.assume("no bound on what a compressed payload may expand to is required");
    r.assume("invalid packages are stored again in the JSON format only: the model formats cannot represent them");
    let reg = Arc::new(registry());
    let deep = !r.quick();
    {
        let rg = reg.clone();
        let es = Arc::new(envs(true, &[0], &reg));
        r.family("header", "every value of every byte of the header of every envelope: accepted exactly when it is the original, or another known format or flag whose payload then decides", 60.0, move |c, cov| {
            let e = &es[c.choose(es.len())];
            let k = c.choose(10);
            let x = c.choose(256) as u8;
            let mut b = e.bytes.clone();
            b[k] = x;
            let d = format!("{}: header byte {k} := {x}", e.name);
            cov.state(&b);
            let got = probe(&b, &rg, &d, cov)?;
            let known = [1u8, 2, 40, 41, 63];
            let may = match k {
                0..8 => x == e.bytes[k],
                8 => known.contains(&x),
                _ => x == 0x40,
            };
            ensure!(may || got.is_none(), "{d}: accepted");
            if x == e.bytes[k] {
                ensure!(got.is_some(), "{d}: the unchanged envelope is rejected");
            }
            if let Some(p) = got {
                if k == 9 || k < 8 {
                    ensure!(pnormal(&p, is_model(e.f)) == e.norm, "{d}: another package");
                }
            }
            Ok(())
        });
    }
    {
        let rg = reg.clone();
        let es = Arc::new(envs(!deep, &[0, 1], &reg));
        r.family("prefix", "every prefix of every envelope (two packages, five formats, compressed or not); a prefix that is accepted is the same package", 120.0, move |c, cov| {
            let e = &es[c.choose(es.len())];
            let k = c.choose(e.bytes.len());
            let b = &e.bytes[..k];
            let d = format!("{}: first {k} of {} bytes", e.name, e.bytes.len());
            cov.state((&e.name, k));
            if let Some(p) = probe(b, &rg, &d, cov)? {
                let n = pnormal(&p, is_model(e.f));
                cov.outcome("prefix accepted");
                if n != e.norm {
                    let depth = b[10..].iter().fold(0i64, |d, c| d + i64::from(b"([".contains(c)) - i64::from(b")]".contains(c)));
                    let whole = e.f.ascii_printable() && is_model(e.f) && depth == 0;
                    return bad_key(if whole { "model-text-cut-between-forms" } else { "prefix" }, format!("{d}: a prefix is read as another package\n {}\n {}", diff(&e.norm, &n), show(&b[b.len().saturating_sub(80)..])));
                }
            }
            Ok(())
        });
    }
    {
        let rg = reg.clone();
        let es = Arc::new(envs(true, &[0, 1], &reg));
        let vals: Vec<u8> = if deep { (0..=255).collect() } else { b"\x00\xff\x01\x02\x08()[]{}\",-0 9a".to_vec() };
        let nv = vals.len();
        r.family("byte", &format!("every byte of every envelope set to {nv} values or with one bit flipped, removed or doubled"), r.b(70.0, 600.0), move |c, cov| {
            let e = &es[c.choose(es.len())];
            let k = c.choose(e.bytes.len() - 10) + 10;
            let j = c.choose(nv + 8 + 2);
            let mut b = e.bytes.clone();
            if j < nv {
                b[k] = vals[j];
            } else if j < nv + 8 {
                b[k] ^= 1 << (j - nv);
            } else if j == nv + 8 {
                b.remove(k);
            } else {
                b.insert(k, b[k]);
            }
            if b == e.bytes {
                return Err(Fail::Skip);
            }
            let d = format!("{}: byte {k} of {} := {:?}: {}", e.name, e.bytes.len(), b.get(k), if e.f.ascii_printable() { show(&b[k.saturating_sub(60)..(k + 40).min(b.len())]) } else { String::new() });
            cov.state(&b);
            probe(&b, &rg, &d, cov)?;
            Ok(())
        });
    }
    {
        let rg = reg.clone();
        let es: Arc<Vec<(String, Vec<u8>, J, Vec<Vec<String>>)>> = Arc::new(
            envs(false, &[0], &reg)
                .into_iter()
                .filter(|e| e.f == EnvelopeFormat::PackageJson)
                .map(|e| {
                    let j: J = serde_json::from_slice(&e.bytes[10..]).unwrap();
                    let mut v = vec![];
                    paths(&j, &mut vec![], &mut v);
                    (e.name, e.bytes[..10].to_vec(), j, v)
                })
                .collect(),
        );
        let pal = palette();
        let np = pal.len();
        r.family("json-field", &format!("every position of the JSON of three packages: replaced by each of {np} values, removed, doubled, or replaced by the value of each sibling"), r.b(60.0, 300.0), move |c, cov| {
            let (name, head, j, ps) = &es[c.choose(es.len())];
            let p = c.pick(ps);
            let k = c.choose(np + 2 + 3);
            let mut x = j.clone();
            if k < np {
                *get(&mut x, p) = pal[k].clone();
            } else if let Some((last, up)) = p.split_last() {
                let here = get(&mut x, p).clone();
                let par = get(&mut x, up);
                match (k - np, par) {
                    (0, J::Array(v)) => {
                        v.remove(last.parse().unwrap());
                    }
                    (0, J::Object(m)) => {
                        m.remove(last);
                    }
                    (1, J::Array(v)) => v.insert(last.parse().unwrap(), here),
                    (1, J::Object(m)) => {
                        m.insert("extra".into(), here);
                    }
                    (s, J::Array(v)) => {
                        let i: usize = last.parse().unwrap();
                        let o = (i + s - 1) % v.len();
                        v[i] = v[o].clone();
                    }
                    (s, J::Object(m)) => {
                        let ks: Vec<String> = m.keys().cloned().collect();
                        let i = ks.iter().position(|q| q == last).unwrap();
                        let o = m[&ks[(i + s - 1) % ks.len()]].clone();
                        m.insert(last.clone(), o);
                    }
                    _ => return Err(Fail::Skip),
                }
            } else {
                return Err(Fail::Skip);
            }
            if x == *j {
                return Err(Fail::Skip);
            }
            let mut b = head.clone();
            b.extend(serde_json::to_vec(&x).unwrap());
            let d = format!("{name}: {} change {k}\n {}", p.join("/"), x);
            cov.state(&b);
            probe(&b, &rg, &d, cov)?;
            Ok(())
        });
    }
    {
        let rg = reg.clone();
        let es: Arc<Vec<(String, Vec<u8>, Vec<String>, Vec<String>)>> = Arc::new(
            envs(false, &[0], &reg)
                .into_iter()
                .filter(|e| e.f == EnvelopeFormat::ModelText)
                .map(|e| {
                    let t = tokens(std::str::from_utf8(&e.bytes[10..]).unwrap());
                    let mut w: Vec<String> = t.clone();
                    w.sort();
                    w.dedup();
                    w.extend(["18446744073709551616", "1.5", "_", "?9", "%99", "...", "(fn (dfg (signature (core.fn [] []))))", "\"\\u{110000}\"", "\"\\q\"", "(bytes \"!\")", "(bytes \"a\")", "core.nosuch", "public", "(tuple 1 2)", "[1 2]", "((((", "]"].map(String::from));
                    (e.name, e.bytes[..10].to_vec(), t, w)
                })
                .collect(),
        );
        r.family("text-token", "every token of the model text of two packages: removed, doubled, swapped with the next, or replaced by every other token that occurs and 17 more", r.b(90.0, 600.0), move |c, cov| {
            let (name, head, t, w) = &es[c.choose(es.len())];
            let k = c.choose(t.len());
            let j = c.choose(w.len() + 3);
            let mut x = t.clone();
            if j < w.len() {
                x[k] = w[j].clone();
            } else if j == w.len() {
                x.remove(k);
            } else if j == w.len() + 1 {
                x.insert(k, t[k].clone());
            } else if k + 1 < t.len() {
                x.swap(k, k + 1);
            }
            if x == *t {
                return Err(Fail::Skip);
            }
            let s = x.join(" ");
            let mut b = head.clone();
            b.extend(s.as_bytes());
            let d = format!("{name}: token {k} {:?} change {:?}\n {s}", t[k], w.get(j));
            cov.state(&b);
            probe(&b, &rg, &d, cov)?;
            Ok(())
        });
    }
    {
        let rg = reg.clone();
        let max = 17;
        r.family("depth", &format!("nesting of every recursive construct of the text and JSON formats to every power of two up to 2^{max}, and to every depth around 1024, read on a thread with the default stack"), 120.0, move |c, cov| {
            let k = c.choose(10);
            let n = c.choose(max + 1 + 8);
            let n = if n <= max { 1usize << n } else { [340, 341, 342, 510, 511, 512, 1023, 1025][n - max - 1] };
            let rep = |s: &str| s.repeat(n);
            let (f, body) = match k {
                0 => (EnvelopeFormat::ModelText, format!("(hugr 0) (mod) {} {}", rep("("), rep(")"))),
                1 => (EnvelopeFormat::ModelText, format!("(hugr 0) (mod) (meta {}{})", rep("["), rep("]"))),
                2 => (EnvelopeFormat::ModelText, format!("(hugr 0) (mod) (meta {}1{})", rep("(a "), rep(")"))),
                3 => (EnvelopeFormat::ModelText, format!("(hugr 0) (mod) (meta {}{})", rep("(tuple "), rep(")"))),
                4 => (EnvelopeFormat::ModelText, format!("(hugr 0) (mod) (import core.fn) (define-func public core.x (core.fn [] []) {} {})", rep("(dfg (signature (core.fn [] [])) (dfg (signature (core.fn [] []))"), rep("))"))),
                5 => (EnvelopeFormat::ModelText, format!("(hugr 0) (mod) (meta {}{})", rep("(fn (dfg (meta "), rep(")))"))),
                6 => (EnvelopeFormat::PackageJson, format!("{}{}", rep("["), rep("]"))),
                7 => (EnvelopeFormat::PackageJson, format!("{{\"modules\":{}{},\"extensions\":[]}}", rep("{\"a\":["), rep("]}"))),
                8 => {
                    if n > 1 << 13 {
                        return Err(Fail::Skip);
                    }
                    let mut s = String::from("{\"modules\":[{\"version\":\"live\",\"nodes\":[{\"op\":\"Module\",\"parent\":0}");
                    for j in 0..n {
                        s += &format!(",{{\"op\":\"DFG\",\"parent\":{j},\"signature\":{{\"input\":[],\"output\":[]}}}}");
                    }
                    (EnvelopeFormat::PackageJson, s + "],\"edges\":[]}],\"extensions\":[]}")
                }
                _ => (EnvelopeFormat::ModelText, format!("(hugr 0) (mod) (import core.fn) (import core.type) (import core.adt) (declare-func public x (core.fn [{} {}] []))", rep("(core.adt [["), rep("]])"))),
            };
            let mut b = store(&Package::new([]), cfg(f, 0)).unwrap()[..10].to_vec();
            b.extend(body.as_bytes());
            cov.state((k, n));
            let d = format!("{f} construct {k} nested {n} deep");
            cov.describe(|| d.clone());
            let rg = rg.clone();
            let got = std::thread::scope(|sc| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || crate::c04::load_pkg(&b, &rg)).unwrap().join());
            match got {
                Ok(Err(e)) if e.starts_with("panic") => bad_key(format!("panic {}", site(&e)), format!("reading panics: {e}\n {d}")),
                Ok(_) => {
                    cov.step(1);
                    probe(&b, &rg, &d, cov).map(|_| ())
                }
                Err(_) => bad(format!("reading ends the thread\n {d}")),
            }
        });
    }
    {
        r.family("versions", "an extension known at any version (components 0..2), a package that uses it and declares any version: rejected exactly when incompatible; five formats", 60.0, move |c, cov| {
            let f = *c.pick(&FORMATS);
            let mk = |v: &semver::Version| {
                Extension::new_arc("ver.ext".try_into().unwrap(), v.clone(), |e, w| {
                    e.add_op("op".into(), "".into(), hugr_core::extension::SignatureFunc::from(PolyFuncType::from(pbool())), w).unwrap();
                })
            };
            let ver = |c: &mut Chooser| semver::Version::new(c.choose(3) as u64, c.choose(3) as u64, c.choose(3) as u64);
            let has = ver(c);
            let used = ver(c);
            let e = mk(&used);
            let mut h = Hugr::new();
            let (m, i, o) = func(&mut h, "main", pbool(), Visibility::Public);
            let n = add(&mut h, m, ops::OpType::from(e.instantiate_extension_op("op", []).unwrap()));
            wire(&mut h, (i, 0), n, 0);
            wire(&mut h, (n, 0), o, 0);
            let mr = h.module_root();
            h.set_metadata(mr, USED_EXTENSIONS_KEY, json!([{"name": "ver.ext", "version": used.to_string()}]));
            let b = store(&Package::from_hugr(h), cfg(f, 0)).map_err(|e| Fail::Bad { key: "store".into(), msg: e })?;
            let mut reg = registry();
            reg.register_updated(mk(&has));
            let d = format!("{f}: known {has}, declared {used}");
            cov.state(&d);
            let got = probe(&b, &reg, &d, cov)?.is_some();
            let ok = has.major == used.major && (has.major > 0 || has.minor == used.minor) && has >= used;
            if got != ok {
                return bad_key("version", format!("{d}: {}", if got { "accepted although incompatible" } else { "rejected although compatible" }));
            }
            Ok(())
        });
    }
}
