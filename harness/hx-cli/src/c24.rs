//! C24: the command line tool is a faithful, honest front end.
//!
//! Every subcommand with every combination of its options is run, both inside this process
//! (through `CliArgs::run_with_io` and the `run_*_with_io` methods) and as the tool itself,
//! over packages of every kind in every format, undamaged, damaged and invalid, and judged by
//! what the library says of the same bytes. Sinks that fill up are tried at every length.

use clap::Parser;
use hugr_cli::{CliArgs, RunWithIoError};
use hugr_core::envelope::description::PackageDesc;
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat, ReadError, USED_EXTENSIONS_KEY, ZstdConfig, read_envelope, write_envelope};
use hugr_core::extension::{ExtensionRegistry, PRELUDE_REGISTRY};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::ops;
use hugr_core::package::Package;
use hugr_core::std_extensions::STD_REG;
use hugr_core::std_extensions::arithmetic::float_types::float64_type;
use hugr_core::types::Signature;
use hugr_core::{Hugr, HugrView, Visibility};
use hx::c04::{FORMATS, cfg, packaged, rich, store, uses};
use hx::ensure;
use hx::explore::*;
use hx::prog::*;
use serde_json::{Value as J, json};
use std::cell::RefCell;
use std::io::{BufReader, Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::LazyLock;


// ---------------------------------------------------------------- inputs

fn bool_id(name: &str, generator: bool) -> Hugr {
    let mut h = Hugr::new();
    let (m, i, o) = func(&mut h, name, pbool(), Visibility::Public);
    wire(&mut h, (i, 0), o, 0);
    h.set_entrypoint(m);
    if generator {
        let r = h.module_root();
        h.set_metadata(r, "core.generator", json!({"name": "gen", "version": "1.2"}));
        h.set_metadata(r, USED_EXTENSIONS_KEY, json!([{"name": "prelude", "version": "0.2.1"}]));
    }
    h
}
/// The function's output is not connected.
fn broken(generator: bool) -> Hugr {
    let mut h = bool_id("broken", generator);
    let f = h.entrypoint();
    let o = h.children(f).nth(1).unwrap();
    h.disconnect(o, hugr_core::IncomingPort::from(0));
    h
}
fn floats() -> Hugr {
    let mut h = Hugr::new();
    let (_, i, o) = func(&mut h, "f", Signature::new(vec![float64_type()], vec![float64_type()]), Visibility::Public);
    wire(&mut h, (i, 0), o, 0);
    h
}
fn packages() -> Vec<(&'static str, Package)> {
    let pk = packaged();
    let mut ext = Package::new([uses(&pk)]);
    ext.extensions = ExtensionRegistry::new(pk.clone());
    let needs = Package::new([uses(&pk)]);
    let mut none = Package::new([]);
    none.extensions = ExtensionRegistry::new(pk);
    let mut private = Hugr::new();
    func(&mut private, "hidden", pbool(), Visibility::Private);
    let decl = ops::FuncDecl::new("shown", pbool());
    let r = private.module_root();
    let mut decl2 = ops::FuncDecl::new("x", pbool());
    *decl2.visibility_mut() = Visibility::Public;
    *decl2.func_name_mut() = "decl".into();
    let _ = decl;
    private.add_node_with_parent(r, decl2);
    vec![
        ("empty", Package::new([])),
        ("module", Package::new([Hugr::new()])),
        ("id", Package::new([bool_id("main", false)])),
        ("generator", Package::new([bool_id("main", true)])),
        ("two", Package::new([bool_id("a", true), floats()])),
        ("private", Package::new([private, Hugr::new(), bool_id("z", false)])),
        ("extensions", ext),
        ("only extensions", none),
        ("missing extension", needs),
        ("invalid", Package::new([broken(false)])),
        ("valid, invalid", Package::new([bool_id("a", false), broken(true)])),
        ("rich", Package::from_hugr(rich(false, false))),
    ]
}
pub struct Input {
    name: String,
    bytes: Vec<u8>,
    /// one of few used where all are too many
    core: bool,
}
static INPUTS: LazyLock<Vec<Input>> = LazyLock::new(|| {
    let mut v = vec![];
    for (n, p) in packages() {
        for f in FORMATS {
            for z in 0..2 {
                let Ok(bytes) = store(&p, cfg(f, z)) else { continue };
                let core = match z {
                    0 => f == EnvelopeFormat::PackageJson || n == "two",
                    _ => f == EnvelopeFormat::ModelWithExtensions,
                } && n != "rich";
                v.push(Input { name: format!("{n} as {f}{}", if z == 1 { " zstd" } else { "" }), bytes, core });
            }
        }
    }
    let id = store(&packages()[2].1, cfg(EnvelopeFormat::PackageJson, 0)).unwrap();
    let two = store(&packages()[4].1, cfg(EnvelopeFormat::PackageJson, 0)).unwrap();
    let zs = store(&packages()[4].1, cfg(EnvelopeFormat::ModelWithExtensions, 1)).unwrap();
    let mut d = |n: &str, b: Vec<u8>, core: bool| v.push(Input { name: n.into(), bytes: b, core });
    d("nothing", vec![], true);
    d("part of the magic number", id[..5].to_vec(), false);
    d("header only", id[..10].to_vec(), true);
    d("raw json", id[10..].to_vec(), true);
    d("text", b"hello, world\n".to_vec(), false);
    d("wrong magic number", [b"HUGRiHJX", &id[8..]].concat(), false);
    d("unknown format", [&id[..8], &[200], &id[9..]].concat(), true);
    d("unknown flag", [&id[..9], &[0x42], &id[10..]].concat(), false);
    d("json said to be zstd", [&id[..9], &[0x41], &id[10..]].concat(), false);
    d("zstd said to be plain", [&zs[..9], &[0x40], &zs[10..]].concat(), false);
    d("cut json", id[..id.len() - 9].to_vec(), true);
    d("cut zstd", zs[..zs.len() - 9].to_vec(), true);
    d("trailing text", [&id[..], b" x"].concat(), false);
    d("trailing spaces", [&id[..], b" \n"].concat(), false);
    d("second module is cut", two[..two.len() * 3 / 4].to_vec(), true);
    d("second module is null", {
        let s = String::from_utf8(two[10..].to_vec()).unwrap();
        let mut j: J = serde_json::from_str(&s).unwrap();
        j["modules"][1] = J::Null;
        [&two[..10], j.to_string().as_bytes()].concat()
    }, true);
    d("two packages", [&id[..], &id[..]].concat(), false);
    v
});

// ---------------------------------------------------------------- commands

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd {
    Validate,
    Mermaid { validate: bool },
    Describe { packaged: bool, no_resolved: bool, symbols: bool, claimed: bool, json: bool },
    Schema,
    Convert { to: To, compress: bool, level: Option<u32> },
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum To {
    Same,
    Format(&'static str),
    Text,
    Binary,
}
const TOS: [To; 9] = [To::Same, To::Format("json"), To::Format("model"), To::Format("model-exts"), To::Format("model-text"), To::Format("model-text-exts"), To::Text, To::Binary, To::Format("Json")];

fn commands(all: bool) -> Vec<Cmd> {
    let mut v = vec![Cmd::Validate, Cmd::Mermaid { validate: false }, Cmd::Mermaid { validate: true }, Cmd::Schema];
    for m in 0..32u8 {
        if all || [0, 0b10000, 0b10101, 0b01111, 0b11000].contains(&m) {
            v.push(Cmd::Describe { packaged: m & 1 != 0, no_resolved: m & 2 != 0, symbols: m & 4 != 0, claimed: m & 8 != 0, json: m & 16 != 0 });
        }
    }
    for to in TOS {
        for (compress, level) in [(false, None), (true, None), (true, Some(1)), (true, Some(15))] {
            if all || level.is_none() || (level == Some(15) && to == To::Same) {
                v.push(Cmd::Convert { to, compress, level });
            }
        }
    }
    v
}
static ALL: LazyLock<Vec<Cmd>> = LazyLock::new(|| commands(true));
static FEW: LazyLock<Vec<Cmd>> = LazyLock::new(|| commands(false));

impl Cmd {
    fn args(&self) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        let mut flag = |b: bool, s: &str| {
            if b {
                a.push(s.into());
            }
        };
        match *self {
            Cmd::Validate => flag(true, "validate"),
            Cmd::Mermaid { validate } => {
                flag(true, "mermaid");
                flag(validate, "--validate");
            }
            Cmd::Schema => {
                flag(true, "describe");
                flag(true, "--json-schema");
            }
            Cmd::Describe { packaged, no_resolved, symbols, claimed, json } => {
                flag(true, "describe");
                flag(packaged, "--packaged-extensions");
                flag(no_resolved, "--no-resolved-extensions");
                flag(symbols, "--public-symbols");
                flag(claimed, "--generator-claimed-extensions");
                flag(json, "--json");
            }
            Cmd::Convert { to, compress, level } => {
                flag(true, "convert");
                flag(to == To::Text, "--text");
                flag(to == To::Binary, "--binary");
                if let To::Format(f) = to {
                    flag(true, "--format");
                    flag(true, f);
                }
                flag(compress, "--compress");
                if let Some(l) = level {
                    flag(true, "--compression-level");
                    flag(true, &l.to_string());
                }
            }
        }
        a
    }
    fn has_output(&self) -> bool {
        *self != Cmd::Validate
    }
}

// ---------------------------------------------------------------- what the library says

enum Want {
    Bytes(Vec<u8>),
    /// the description, and whether reading failed part of the way
    Json(J, bool),
    Text(Box<PackageDesc>),
    Schema,
}
struct Expect {
    ok: bool,
    want: Want,
}
fn nothing(ok: bool) -> Expect {
    Expect { ok, want: Want::Bytes(vec![]) }
}
fn registry(no_std: bool, ext: bool) -> ExtensionRegistry {
    let mut r = if no_std { PRELUDE_REGISTRY.to_owned() } else { STD_REG.to_owned() };
    if ext {
        for e in packaged() {
            r.register_updated(e);
        }
    }
    r
}
static REGS: LazyLock<[ExtensionRegistry; 4]> = LazyLock::new(|| [registry(false, false), registry(true, false), registry(false, true), registry(true, true)]);
fn reg(no_std: bool, ext: bool) -> &'static ExtensionRegistry {
    &REGS[no_std as usize + 2 * ext as usize]
}
/// `None` where the library itself crashes, which other checks judge.
fn expect(cmd: Cmd, bytes: &[u8], r: &ExtensionRegistry) -> Result<Expect, Fail> {
    if cmd == Cmd::Schema {
        return Ok(Expect { ok: true, want: Want::Schema });
    }
    guard(|| expect_(cmd, bytes, r)).map_err(|_| Fail::Skip)
}
fn expect_(cmd: Cmd, bytes: &[u8], r: &ExtensionRegistry) -> Expect {
    let read = read_envelope(BufReader::new(bytes), r);
    match cmd {
        Cmd::Validate => nothing(read.is_ok_and(|(_, p)| p.validate().is_ok())),
        Cmd::Mermaid { validate } => match read {
            Ok((_, p)) if !validate || p.validate().is_ok() => Expect { ok: true, want: Want::Bytes(p.modules.iter().map(|h| h.mermaid_string() + "\n").collect::<String>().into_bytes()) },
            _ => nothing(false),
        },
        Cmd::Schema => unreachable!(),
        Cmd::Describe { packaged, no_resolved, symbols, claimed, json } => {
            let (mut d, ok) = match read {
                Ok((d, _)) => (d, true),
                Err(ReadError::Payload { partial_description, .. }) => (partial_description, false),
                Err(_) => return nothing(false),
            };
            for m in d.modules.iter_mut().flatten() {
                if no_resolved {
                    m.used_extensions_resolved = None;
                }
                if !symbols {
                    m.public_symbols = None;
                }
                if !claimed {
                    m.used_extensions_generator = None;
                }
            }
            if json {
                if !packaged {
                    d.packaged_extensions.clear();
                }
                Expect { ok, want: Want::Json(serde_json::to_value(&d).unwrap(), !ok) }
            } else {
                Expect { ok, want: Want::Text(Box::new(d)) }
            }
        }
        Cmd::Convert { to, compress, level } => {
            let Ok((_, p)) = read else { return nothing(false) };
            let format = |f| EnvelopeConfig::new(f);
            let mut c = match to {
                To::Same => format(FORMATS.into_iter().find(|f| bytes[8] == header(*f)[8]).unwrap()),
                To::Text => EnvelopeConfig::text(),
                To::Binary => EnvelopeConfig::binary(),
                To::Format("json") => format(EnvelopeFormat::PackageJson),
                To::Format("model") => format(EnvelopeFormat::Model),
                To::Format("model-exts") => format(EnvelopeFormat::ModelWithExtensions),
                To::Format("model-text") => format(EnvelopeFormat::ModelText),
                To::Format("model-text-exts") => format(EnvelopeFormat::ModelTextWithExtensions),
                To::Format(_) => return nothing(false),
            };
            if compress {
                c = c.with_zstd(level.map_or(ZstdConfig::default_level(), |l| ZstdConfig::new(l as u8)));
            }
            let mut out = vec![];
            match write_envelope(&mut out, &p, c) {
                Ok(()) => Expect { ok: true, want: Want::Bytes(out) },
                Err(_) => nothing(false),
            }
        }
    }
}
fn header(f: EnvelopeFormat) -> Vec<u8> {
    let mut v = vec![];
    write_envelope(&mut v, &Package::new([]), EnvelopeConfig::new(f)).unwrap();
    v
}

/// The judgement of one run.
struct Got {
    ok: bool,
    out: Vec<u8>,
}
fn head(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned();
    format!("{} bytes {s:?}", b.len())
}
fn judge(cmd: Cmd, e: &Expect, g: &Got, d: &str) -> Res {
    ensure!(g.ok == e.ok, "the command {} although the library {} | {d}", if g.ok { "succeeds" } else { "fails" }, if e.ok { "succeeds" } else { "fails" });
    match &e.want {
        Want::Bytes(b) => {
            if *b != g.out {
                if let Cmd::Convert { compress: true, .. } = cmd {
                    ensure!(g.out.get(..10) == b.get(..10), "the header of the output is {:?} and not {:?} | {d}", g.out.get(..10), b.get(..10));
                }
                return bad(format!("the output is not what the library gives: {} and not {} | {d}", head(&g.out), head(b)));
            }
        }
        Want::Schema => {
            let j: J = match serde_json::from_slice(&g.out) {
                Ok(j) => j,
                Err(x) => return bad(format!("the schema is not JSON: {x} | {d}")),
            };
            ensure!(j["properties"]["modules"].is_object() && j["properties"]["header"].is_object() && j["properties"]["error"].is_object(), "the schema lacks a property of descriptions: {} | {d}", head(&g.out));
        }
        Want::Json(w, failed) => {
            let mut j: J = match serde_json::from_slice(&g.out) {
                Ok(j) => j,
                Err(x) => return bad(format!("the description is not JSON: {x}: {} | {d}", head(&g.out))),
            };
            let err = j.as_object_mut().and_then(|o| o.remove("error"));
            ensure!(err.is_some() == *failed, "the description's error is {err:?} although reading {} | {d}", if *failed { "fails" } else { "succeeds" });
            ensure!(err.is_none_or(|e| e.as_str().is_some_and(|s| !s.is_empty())), "the description's error is empty | {d}");
            ensure!(j == *w, "the description is {j} and not {w} | {d}");
        }
        Want::Text(w) => {
            let s = String::from_utf8_lossy(&g.out).into_owned();
            let Cmd::Describe { packaged, no_resolved, symbols, claimed, .. } = cmd else { unreachable!() };
            let mut has = vec![w.header().to_string(), format!("{} module", w.n_modules()), format!("{} extension", w.n_packaged_extensions())];
            let mut lines = |want: bool, title: &str, k: usize| -> Res {
                let n = s.matches(title).count();
                ensure!(n == if want { k } else { 0 }, "{title:?} occurs {n} times and not {} in {s:?} | {d}", if want { k } else { 0 });
                Ok(())
            };
            let ms: Vec<_> = w.modules.iter().flatten().collect();
            lines(!no_resolved, "Resolved extensions:", ms.iter().filter(|m| m.used_extensions_resolved.is_some()).count())?;
            lines(symbols, "Public symbols:", ms.iter().filter(|m| m.public_symbols.is_some()).count())?;
            lines(claimed, "Generator claimed extensions:", ms.iter().filter(|m| m.used_extensions_generator.is_some()).count())?;
            lines(packaged, "Packaged extensions:", 1)?;
            for m in ms {
                has.extend(m.num_nodes.map(|n| n.to_string()));
                has.extend(m.generator.clone());
                has.extend(m.entrypoint.as_ref().map(|e| e.optype.to_string().split('(').next().unwrap().to_string()));
                has.extend(m.public_symbols.iter().flatten().cloned());
                for x in m.used_extensions_resolved.iter().chain(&m.used_extensions_generator).flatten() {
                    has.push(x.name.clone());
                    has.push(x.version.to_string());
                }
            }
            if packaged {
                for x in w.packaged_extensions() {
                    has.push(x.name.clone());
                    has.push(x.version.to_string());
                }
            }
            let squeezed = |t: &str| t.split_whitespace().collect::<String>();
            for h in has {
                ensure!(s.contains(&h) || squeezed(&s).contains(&squeezed(&h)), "the description lacks {h:?}: {s:?} | {d}");
            }
        }
    }
    Ok(())
}
/// The description agrees with the package itself.
fn describes(bytes: &[u8], r: &ExtensionRegistry, d: &str) -> Res {
    let Ok((desc, p)) = read_envelope(BufReader::new(bytes), r) else { return Ok(()) };
    ensure!(desc.n_modules() == p.modules.len(), "a package of {} modules is described as having {} | {d}", p.modules.len(), desc.n_modules());
    ensure!(desc.n_packaged_extensions() == p.extensions.len(), "a package of {} extensions is described as having {} | {d}", p.extensions.len(), desc.n_packaged_extensions());
    for (h, m) in p.modules.iter().zip(desc.modules()) {
        let Some(m) = m else { return bad(format!("a module is not described | {d}")) };
        ensure!(m.num_nodes == Some(h.num_nodes()), "a module of {} nodes is described as having {:?} | {d}", h.num_nodes(), m.num_nodes);
        let e = m.entrypoint.as_ref().map(|e| (e.node, e.optype.clone()));
        ensure!(e == Some((h.entrypoint(), h.entrypoint_optype().clone())), "the entrypoint {:?} is described as {e:?} | {d}", h.entrypoint());
        let public: Vec<String> = h
            .children(h.module_root())
            .filter_map(|n| match h.get_optype(n) {
                ops::OpType::FuncDefn(f) if *f.visibility() == Visibility::Public => Some(f.func_name().clone()),
                ops::OpType::FuncDecl(f) if *f.visibility() == Visibility::Public => Some(f.func_name().clone()),
                _ => None,
            })
            .collect();
        let s = m.public_symbols.clone().unwrap_or_default();
        ensure!(s.len() == public.len() && s.iter().zip(&public).all(|(s, p)| s.starts_with(p.as_str())), "the public symbols {public:?} are described as {s:?} | {d}");
        let mut used: Vec<_> = h.extensions().iter().map(|x| (x.name().to_string(), x.version().to_string())).collect();
        let mut said: Vec<_> = m.used_extensions_resolved.iter().flatten().map(|x| (x.name.clone(), x.version.to_string())).collect();
        used.sort();
        said.sort();
        ensure!(used == said, "the extensions {used:?} are described as {said:?} | {d}");
    }
    Ok(())
}

// ---------------------------------------------------------------- in this process

fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("hx-cli-{}", std::process::id()))
}
thread_local! {
    static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
/// A folder of this thread, with the extension files in it.
fn dir() -> PathBuf {
    DIR.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let p = scratch().join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
                std::fs::create_dir_all(&p).unwrap();
                for (k, e) in packaged().iter().enumerate() {
                    std::fs::write(p.join(format!("e{k}.json")), serde_json::to_vec(e.as_ref()).unwrap()).unwrap();
                }
                p
            })
            .clone()
    })
}
fn shared_args(no_std: bool, ext: bool) -> Vec<String> {
    let mut a = vec![];
    if no_std {
        a.push("--no-std".into());
    }
    if ext {
        for k in 0..2 {
            a.push("-e".into());
            a.push(dir().join(format!("e{k}.json")).to_string_lossy().into_owned());
        }
    }
    a
}
fn inside(args: &[String], input: impl Read, d: &str) -> Result<Got, Fail> {
    let a = match CliArgs::try_parse_from(std::iter::once("hugr".to_string()).chain(args.iter().cloned())) {
        Ok(a) => a,
        Err(e) => return bad(format!("the arguments {args:?} are not understood: {e} | {d}")),
    };
    match guard(|| a.run_with_io(input)) {
        Ok(Ok(out)) => Ok(Got { ok: true, out }),
        Ok(Err(RunWithIoError::Describe { output, source })) => {
            ensure!(!source.to_string().is_empty(), "an error without a message | {d}");
            Ok(Got { ok: false, out: output })
        }
        Ok(Err(e)) => {
            let RunWithIoError::Other(s) = &e else { return Ok(Got { ok: false, out: vec![] }) };
            ensure!(!s.to_string().is_empty(), "an error without a message | {d}");
            Ok(Got { ok: false, out: vec![] })
        }
        Err(e) => bad(format!("the command panics: {e} | {d}")),
    }
}
fn in_process(c: &mut Chooser, cov: &mut Cov) -> Res {
    let i = c.pick(&INPUTS);
    let cmd = *c.pick(&ALL);
    let (no_std, ext) = (c.flag(), c.flag());
    let args = [cmd.args(), shared_args(no_std, ext)].concat();
    let d = format!("{} < {}", args.join(" "), i.name);
    cov.describe(|| d.clone());
    cov.state(&d);
    let r = reg(no_std, ext);
    let e = expect(cmd, &i.bytes, r)?;
    let g = inside(&args, &i.bytes[..], &d)?;
    cov.step(1);
    judge(cmd, &e, &g, &d)?;
    if cmd == Cmd::Validate {
        describes(&i.bytes, r, &d)?;
    }
    cov.outcome(if e.ok { "succeeds" } else { "fails" });
    cov.trace();
    Ok(())
}
/// Every compression level that can be written on the command line.
fn levels(c: &mut Chooser, cov: &mut Cov) -> Res {
    let i = INPUTS.iter().find(|i| i.name.starts_with("two as")).unwrap();
    let l = c.choose(300) as u32;
    let to = *c.pick(&[To::Same, To::Binary]);
    let cmd = Cmd::Convert { to, compress: true, level: Some(l) };
    let d = format!("{} < {}", cmd.args().join(" "), i.name);
    cov.describe(|| d.clone());
    cov.state(&d);
    cov.step(1);
    if l > 255 || l == 0 || l > 22 {
        // out of the documented range: refused, or as a level the library takes
        let Ok(a) = CliArgs::try_parse_from(std::iter::once("hugr".to_string()).chain(cmd.args())) else {
            cov.outcome("refused");
            cov.trace();
            return Ok(());
        };
        match guard(|| a.run_with_io(&i.bytes[..])) {
            Err(e) => return bad(format!("the command panics: {e} | {d}")),
            Ok(Err(_)) => cov.outcome("refused"),
            Ok(Ok(b)) => {
                ensure!(b.len() > 10 && b[9] & 1 == 1, "the output is not said to be compressed | {d}");
                let (_, p) = read_envelope(BufReader::new(&b[..]), reg(false, false)).map_err(|e| Fail::Bad { key: String::new(), msg: format!("the output cannot be read: {e} | {d}") })?;
                ensure!(p.modules.len() == 2, "the output has {} modules | {d}", p.modules.len());
                cov.outcome("converted");
            }
        }
        cov.trace();
        return Ok(());
    }
    let e = expect(cmd, &i.bytes, reg(false, false))?;
    let g = inside(&cmd.args(), &i.bytes[..], &d)?;
    judge(cmd, &e, &g, &d)?;
    cov.outcome("converted");
    cov.trace();
    Ok(())
}

/// Writes at most `left` bytes, `chunk` at a time, and then fails.
struct Sink {
    left: usize,
    chunk: usize,
    interrupt: bool,
    tick: bool,
    zero: bool,
    out: Vec<u8>,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick = !self.tick;
        if self.interrupt && self.tick {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let n = b.len().min(self.chunk).min(self.left);
        if n == 0 {
            return if self.zero { Ok(0) } else { Err(std::io::ErrorKind::StorageFull.into()) };
        }
        self.left -= n;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Source<'a> {
    b: &'a [u8],
    at: usize,
    chunk: usize,
    fail_at: usize,
    interrupt: bool,
    tick: bool,
}
impl Read for Source<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        self.tick = !self.tick;
        if self.interrupt && self.tick {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.at >= self.fail_at {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let n = o.len().min(self.chunk).min(self.b.len() - self.at).min(self.fail_at - self.at);
        o[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn with_io(cmd: Cmd, i: &[u8], s: &mut Sink) -> Result<Result<(), String>, String> {
    let a: Vec<String> = cmd.args();
    guard(|| {
        match cmd {
            Cmd::Validate => hugr_cli::validate::ValArgs::try_parse_from(a).unwrap().run_with_input(Some(i)),
            Cmd::Mermaid { .. } => hugr_cli::mermaid::MermaidArgs::try_parse_from(a).unwrap().run_print_with_io(Some(i), Some(s)),
            Cmd::Describe { .. } | Cmd::Schema => hugr_cli::describe::DescribeArgs::try_parse_from(a).unwrap().run_describe_with_io(Some(i), Some(s)),
            Cmd::Convert { .. } => hugr_cli::convert::ConvertArgs::try_parse_from(a).unwrap().run_convert_with_io(Some(i), Some(s)),
        }
        .map_err(|e| e.to_string())
    })
}
fn small(c: &mut Chooser, n: usize) -> &'static Input {
    let s = ["id as ", "two as ", "extensions as "][c.choose(n)];
    INPUTS.iter().find(|i| i.name.starts_with(s) && i.core).unwrap()
}
/// Every length at which a writer given by the caller can fill up, and every way it can.
fn writers(c: &mut Chooser, cov: &mut Cov, n: usize) -> Res {
    let i = small(c, n);
    let cmd = *c.pick(&FEW);
    if !cmd.has_output() {
        return Err(Fail::Skip);
    }
    let e = expect(cmd, &i.bytes, reg(false, false))?;
    let mut full = Sink { left: usize::MAX, chunk: usize::MAX, interrupt: false, tick: false, zero: false, out: vec![] };
    let d0 = format!("{} < {}", cmd.args().join(" "), i.name);
    let r = with_io(cmd, &i.bytes, &mut full);
    ensure!(r.as_ref().is_ok_and(|r| r.is_ok() == e.ok), "with a writer of the caller: {r:?} | {d0}");
    let all = full.out;
    if e.ok {
        judge(cmd, &e, &Got { ok: true, out: all.clone() }, &d0)?;
    }
    let how = c.choose(4);
    let (chunk, interrupt, zero) = [(usize::MAX, false, false), (1, false, false), (3, true, false), (usize::MAX, false, true)][how];
    // every length of short outputs; of long ones both ends and a grid
    let points: Vec<usize> = (0..=all.len()).filter(|k| all.len() <= 2500 || *k < 64 || *k + 64 >= all.len() || k % 61 == 0).collect();
    let k = *c.pick(&points);
    let d = format!("{d0}, the writer takes {k} of {} bytes, way {how}", all.len());
    cov.describe(|| d.clone());
    cov.state(&d);
    let mut s = Sink { left: k, chunk, interrupt, tick: false, zero, out: vec![] };
    let r = with_io(cmd, &i.bytes, &mut s);
    cov.step(1);
    ensure!(all.starts_with(&s.out), "the output to a slow writer differs | {d}");
    match r {
        Err(p) => return bad(format!("the command panics: {p} | {d}")),
        Ok(r) => {
            let whole = k >= all.len();
            ensure!(r.is_ok() == (e.ok && whole), "a writer that takes {k} of {} bytes: the command gives {r:?} | {d}", all.len());
            ensure!(!whole || s.out == all, "the writer is given {} of {} bytes | {d}", s.out.len(), all.len());
            cov.outcome(if whole { "whole" } else { "failure reported" });
        }
    }
    cov.trace();
    Ok(())
}
/// Every length at which a reader given by the caller can fail.
fn readers(c: &mut Chooser, cov: &mut Cov) -> Res {
    let i = [small(c, 2)][0];
    let cmd = [Cmd::Validate, Cmd::Mermaid { validate: true }, FEW[4], Cmd::Convert { to: To::Binary, compress: false, level: None }][c.choose(4)];
    let how = c.choose(3);
    let k = c.choose(i.bytes.len() + 2);
    let d = format!("{} < {}, the reader fails after {k} of {} bytes, way {how}", cmd.args().join(" "), i.name, i.bytes.len());
    cov.describe(|| d.clone());
    cov.state(&d);
    let fail_at = if k > i.bytes.len() { usize::MAX } else { k };
    let mut s = Source { b: &i.bytes, at: 0, chunk: [usize::MAX, 1, 7][how], fail_at, interrupt: how == 2, tick: false };
    let g = inside(&cmd.args(), &mut s, &d)?;
    cov.step(1);
    if fail_at == usize::MAX {
        let e = expect(cmd, &i.bytes, reg(false, false))?;
        judge(cmd, &e, &g, &d)?;
        cov.outcome("read");
    } else {
        ensure!(!g.ok, "the command succeeds although its input fails | {d}");
        if !matches!(cmd, Cmd::Describe { .. }) {
            ensure!(g.out.is_empty(), "output {} although the input fails | {d}", head(&g.out));
        }
        cov.outcome("failure reported");
    }
    cov.trace();
    Ok(())
}
/// Every truncation and every changed bit of small packages.
fn damage(c: &mut Chooser, cov: &mut Cov, bits: bool) -> Res {
    let which = c.choose(2);
    let i = INPUTS.iter().find(|i| i.name.starts_with(["id as ", "id as model"][which]) || (which == 1 && i.name.starts_with("id as ") && i.bytes[8] == header(EnvelopeFormat::ModelWithExtensions)[8])).unwrap();
    let n = i.bytes.len();
    let mut b = i.bytes.clone();
    let d = if bits {
        let k = c.choose(8 * n);
        b[k / 8] ^= 1 << (k % 8);
        format!("{} with bit {k} changed", i.name)
    } else {
        let k = c.choose(n);
        b.truncate(k);
        format!("{} cut to {k} bytes", i.name)
    };
    cov.describe(|| d.clone());
    cov.state(&b);
    for cmd in [Cmd::Validate, Cmd::Mermaid { validate: false }, Cmd::Describe { packaged: true, no_resolved: false, symbols: true, claimed: true, json: true }, Cmd::Convert { to: To::Text, compress: false, level: None }] {
        let d = format!("{} < {d}", cmd.args().join(" "));
        let t0 = std::time::Instant::now();
        let e = expect(cmd, &b, reg(false, false))?;
        if t0.elapsed().as_millis() > 700 {
            // a list said to be very long, which the library takes seconds to read
            return Err(Fail::Skip);
        }
        let g = inside(&cmd.args(), &b[..], &d)?;
        cov.step(1);
        judge(cmd, &e, &g, &d)?;
        cov.outcome(if e.ok { "succeeds" } else { "fails" });
    }
    cov.trace();
    Ok(())
}

// ---------------------------------------------------------------- the tool itself

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}
static TOOL: LazyLock<PathBuf> = LazyLock::new(|| std::env::current_exe().unwrap().with_file_name("hugr-tool"));
enum Out<'a> {
    Pipe,
    /// the standard output is this file, which takes at most so many bytes
    File(&'a Path),
    Dev,
}
fn tool(args: &[String], stdin: Option<&Path>, out: Out, limit: Option<u64>, path: Option<&Path>) -> Result<Ran, Fail> {
    let mut c = Command::new(&*TOOL);
    c.args(args).current_dir(dir()).stderr(Stdio::piped());
    c.env_remove("RUST_BACKTRACE").env_remove("RUST_LIB_BACKTRACE").env_remove("RUST_LOG");
    if let Some(p) = path {
        c.env("PATH", p);
    }
    match stdin {
        Some(p) => c.stdin(std::fs::File::open(p).unwrap()),
        None => c.stdin(Stdio::null()),
    };
    match out {
        Out::Pipe => c.stdout(Stdio::piped()),
        Out::File(p) => c.stdout(std::fs::File::create(p).unwrap()),
        Out::Dev => c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
    };
    if let Some(n) = limit {
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let o = c.output().unwrap_or_else(|e| panic!("cannot run {:?}: {e}", *TOOL));
    Ok(Ran { code: o.status.code(), signal: o.status.signal(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() })
}
/// Ends properly: no crash, and a message when it fails.
fn proper(r: &Ran, d: &str) -> Res {
    ensure!(r.signal.is_none(), "the tool ends by signal {:?}: {} | {d}", r.signal, head(r.err.as_bytes()));
    ensure!(r.code != Some(101) && !r.err.contains("panicked at"), "the tool panics: {} | {d}", head(r.err.as_bytes()));
    ensure!(r.code == Some(0) || !r.err.trim().is_empty(), "the tool fails with code {:?} and no message | {d}", r.code);
    Ok(())
}
fn write_input(i: &Input) -> PathBuf {
    let p = dir().join("input");
    std::fs::write(&p, &i.bytes).unwrap();
    p
}
fn the_tool(c: &mut Chooser, cov: &mut Cov) -> Res {
    let core: Vec<&Input> = INPUTS.iter().filter(|i| i.core).collect();
    let i = *c.pick(&core);
    let cmd = *c.pick(&FEW);
    // from a file, from the standard input, from the standard input written as "-"
    let from = c.choose(3);
    // to the standard output, to it as "-", to a new file, over a longer file
    let to = if cmd.has_output() { c.choose(4) } else { 0 };
    let inp = write_input(i);
    let outp = dir().join("output");
    let _ = std::fs::remove_file(&outp);
    let mut args = cmd.args();
    match from {
        0 => args.push(inp.to_string_lossy().into_owned()),
        2 => args.push("-".into()),
        _ => {}
    }
    match to {
        1 => args.extend(["-o".into(), "-".into()]),
        2 | 3 => args.extend(["-o".into(), outp.to_string_lossy().into_owned()]),
        _ => {}
    }
    if to == 3 {
        std::fs::write(&outp, vec![b'#'; 100_000]).unwrap();
    }
    let d = format!("hugr {} , input {}", args.join(" "), i.name);
    cov.describe(|| d.clone());
    cov.state((&i.name, format!("{cmd:?}"), from, to));
    let e = expect(cmd, &i.bytes, reg(false, false))?;
    let r = tool(&args, (from != 0).then_some(&*inp), Out::Pipe, None, None)?;
    cov.step(1);
    proper(&r, &d)?;
    let ok = r.code == Some(0);
    let out = if to >= 2 {
        ensure!(r.out.is_empty(), "output {} although a file is named | {d}", head(&r.out));
        std::fs::read(&outp).unwrap_or_default()
    } else {
        r.out.clone()
    };
    judge(cmd, &e, &Got { ok, out }, &d)?;
    if cmd == Cmd::Validate {
        ensure!(r.err.contains(hugr_cli::validate::VALID_PRINT) == e.ok, "the tool says {} | {d}", head(r.err.as_bytes()));
    }
    cov.outcome(if e.ok { "succeeds" } else { "fails" });
    cov.trace();
    Ok(())
}
/// The tool's output goes to a file that fills up, at every length.
fn full(c: &mut Chooser, cov: &mut Cov, n: usize) -> Res {
    let i = small(c, n);
    let cmds: Vec<Cmd> = FEW.iter().copied().filter(|x| x.has_output()).collect();
    let cmd = *c.pick(&cmds);
    let e = expect(cmd, &i.bytes, reg(false, false))?;
    if !e.ok {
        return Err(Fail::Skip);
    }
    let got = inside(&cmd.args(), &i.bytes[..], "")?;
    let len = got.out.len();
    let named = c.flag();
    let points: Vec<usize> = (0..=len).filter(|k| *k < 12 || *k + 12 >= len || k % (1 + len / 24) == 0).collect();
    let k = *c.pick(&points);
    let inp = write_input(i);
    let outp = dir().join("output");
    let mut args = cmd.args();
    args.push(inp.to_string_lossy().into_owned());
    if named {
        args.extend(["-o".into(), outp.to_string_lossy().into_owned()]);
        let _ = std::fs::remove_file(&outp);
    }
    let d = format!("hugr {} {} the output, which takes {k} of {len} bytes, input {}", args.join(" "), if named { "and" } else { ">" }, i.name);
    cov.describe(|| d.clone());
    cov.state((&i.name, format!("{cmd:?}"), named, k));
    // the messages go through a pipe, which the limit does not touch
    let r = tool(&args, None, if named { Out::Pipe } else { Out::File(&outp) }, Some(k as u64), None)?;
    cov.step(1);
    proper(&r, &d)?;
    let out = std::fs::read(&outp).unwrap_or_default();
    let whole = k >= len;
    ensure!((r.code == Some(0)) == whole, "the tool ends with code {:?} although its output has taken {} of {len} bytes | {d}", r.code, out.len());
    ensure!(got.out.starts_with(&out) && (!whole || out.len() == len), "the output is not a part of the whole one: {} | {d}", head(&out));
    cov.outcome(if whole { "whole" } else { "failure reported" });
    cov.trace();
    Ok(())
}
/// The standard output is a device that is always full.
fn device(c: &mut Chooser, cov: &mut Cov) -> Res {
    let core: Vec<&Input> = INPUTS.iter().filter(|i| i.core).collect();
    let i = *c.pick(&core);
    let cmd = *c.pick(&FEW);
    let e = expect(cmd, &i.bytes, reg(false, false))?;
    let g = inside(&cmd.args(), &i.bytes[..], "")?;
    let d = format!("hugr {} > /dev/full, input {}", cmd.args().join(" "), i.name);
    cov.describe(|| d.clone());
    cov.state(&d);
    let inp = write_input(i);
    let r = tool(&cmd.args(), Some(&inp), Out::Dev, None, None)?;
    cov.step(1);
    proper(&r, &d)?;
    ensure!((r.code == Some(0)) == (e.ok && g.out.is_empty()), "the tool ends with code {:?} although its output takes none of {} bytes | {d}", r.code, g.out.len());
    cov.outcome(if r.code == Some(0) { "nothing to write" } else { "failure reported" });
    cov.trace();
    Ok(())
}
/// Wrong arguments, files that are not there.
fn arguments(c: &mut Chooser, cov: &mut Cov) -> Res {
    let i = INPUTS.iter().find(|i| i.name.starts_with("id as ")).unwrap();
    let inp = write_input(i).to_string_lossy().into_owned();
    let bad_ext = dir().join("bad.json");
    std::fs::write(&bad_ext, "{\"version\": 1}").unwrap();
    let bad_ext = bad_ext.to_string_lossy().into_owned();
    let here = dir().to_string_lossy().into_owned();
    let gone = dir().join("gone").join("x").to_string_lossy().into_owned();
    let s = *c.pick(&["validate", "mermaid", "describe", "convert"]);
    let wrong: Vec<Vec<&str>> = vec![
        vec![&gone],
        vec![&here],
        vec!["-e", &gone, &inp],
        vec!["-e", &here, &inp],
        vec!["-e", &bad_ext, &inp],
        vec!["-o", &gone, &inp],
        vec!["-o", &here, &inp],
        vec!["--no-such-option", &inp],
        vec![&inp, &inp],
        vec!["--text", "--binary", &inp],
        vec!["--text", "--format", "json", &inp],
        vec!["--binary", "--format", "json", &inp],
        vec!["--format", "", &inp],
        vec!["--format", "JSON", &inp],
        vec!["--compression-level", "3", &inp],
        vec!["--compress", "--compression-level", "-1", &inp],
        vec!["--compress", "--compression-level", "256", &inp],
        vec!["--compress", "--compression-level", "x", &inp],
        vec!["-e"],
    ];
    let w = c.pick(&wrong);
    let args: Vec<String> = std::iter::once(s).chain(w.iter().copied()).map(str::to_string).collect();
    let d = format!("hugr {}", args.join(" "));
    cov.describe(|| d.clone());
    cov.state((s, w.join(" ").replace(&here, "")));
    let r = tool(&args, None, Out::Pipe, None, None)?;
    cov.step(1);
    proper(&r, &d)?;
    ensure!(r.code != Some(0), "the tool succeeds | {d}");
    ensure!(r.out.is_empty(), "the tool fails and gives the output {} | {d}", head(&r.out));
    cov.outcome("refused");
    cov.trace();
    Ok(())
}
/// Other subcommands are programs, whose result is passed on.
fn external(c: &mut Chooser, cov: &mut Cov) -> Res {
    let k = c.choose(258);
    let bin = dir().join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    let f = bin.join("hugr-other");
    let _ = std::fs::remove_file(&f);
    if k < 257 {
        use std::os::unix::fs::PermissionsExt;
        let end = if k == 256 { "kill -9 $$".into() } else { format!("exit {k}") };
        let text = format!("#!/bin/sh\necho \"$#:$1:$2\"\n{end}\n");
        // written under another name by another program, so that no writer of it is left open
        let t = bin.join("t");
        std::fs::write(&t, text).unwrap();
        std::fs::set_permissions(&t, std::fs::Permissions::from_mode(0o755)).unwrap();
        std::fs::rename(&t, &f).unwrap();
    }
    let args: Vec<String> = ["other", "a b", "--x"].map(str::to_string).to_vec();
    let d = format!("hugr other 'a b' --x, which ends with {k}");
    cov.describe(|| d.clone());
    cov.state(k);
    let mut r = tool(&args, None, Out::Pipe, None, Some(&bin))?;
    for _ in 0..20 {
        if !r.err.contains("Text file busy") {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        r = tool(&args, None, Out::Pipe, None, Some(&bin))?;
    }
    cov.step(1);
    ensure!(r.signal.is_none(), "the tool ends by signal {:?} | {d}", r.signal);
    if k < 256 {
        ensure!(r.code == Some(k as i32), "the tool ends with {:?} and not {k} | {d}", r.code);
        ensure!(r.out == b"2:a b:--x\n", "the arguments or the output are {} | {d}", head(&r.out));
    } else {
        ensure!(r.code != Some(0), "the tool succeeds | {d}");
    }
    cov.outcome("passed on");
    cov.trace();
    Ok(())
}
/// The standard extensions, written out; and to files that fill up.
fn generated(c: &mut Chooser, cov: &mut Cov) -> Res {
    let exts: Vec<_> = STD_REG.iter().collect();
    let k = c.choose(1 + 40);
    let o = dir().join("exts");
    let _ = std::fs::remove_dir_all(&o);
    let args: Vec<String> = ["gen-extensions", "-o", &o.to_string_lossy()].map(str::to_string).to_vec();
    let sizes: Vec<usize> = exts.iter().map(|e| serde_json::to_vec_pretty(e.as_ref()).unwrap().len() + 1).collect();
    let most = *sizes.iter().max().unwrap();
    let limit = (k > 0).then(|| if k <= 20 { most - k } else { (k - 21) * most / 20 });
    let d = format!("hugr gen-extensions, files of at most {limit:?} bytes");
    cov.describe(|| d.clone());
    cov.state(k);
    let r = tool(&args, None, Out::Pipe, limit.map(|l| l as u64), None)?;
    cov.step(1);
    proper(&r, &d)?;
    ensure!((r.code == Some(0)) == limit.is_none(), "the tool ends with code {:?} | {d}", r.code);
    if limit.is_none() {
        let mut n = 0;
        for e in &exts {
            let mut p = o.clone();
            for part in e.name().split('.') {
                p.push(part);
            }
            p.set_extension("json");
            let Ok(b) = std::fs::read(&p) else { return bad(format!("{} is not written | {d}", p.display())) };
            let x: J = serde_json::from_slice(&b).map_err(|x| Fail::Bad { key: String::new(), msg: format!("{} is not JSON: {x} | {d}", p.display()) })?;
            ensure!(x == serde_json::to_value(e.as_ref()).unwrap(), "{} is not the extension | {d}", p.display());
            n += 1;
        }
        cov.count("extension files", n);
    }
    cov.outcome(if limit.is_none() { "written" } else { "failure reported" });
    cov.trace();
    Ok(())
}

pub fn run(r: &mut Runner) {
    r.rule = "the tool and its library interface agree with the library on the same bytes, and report every sink that fills up".into();
    r.assume("the library operations are the reference (their own correctness is judged by C04, C05, C06, C19 and C23); inputs on which the library itself panics are left out");
    r.assume("describe gives partial descriptions of packages it fails to read, as its documentation says; convert to a named file may leave the file empty when it fails");
    std::fs::create_dir_all(scratch()).unwrap();
    let all = INPUTS.len();
    let th = !r.quick();
    r.family("commands", &format!("{all} inputs (12 packages in 5 formats with and without compression, 17 damaged ones) x {} commands (every option combination) x --no-std x --extensions", ALL.len()), r.b(150.0, 900.0), in_process);
    r.family("tool", "the core inputs x commands x file, standard input, \"-\" x standard output, \"-\", new file, longer file", r.b(170.0, 1500.0), the_tool);
    r.family("full files", "commands x standard output or named file x lengths at which it fills up (the first and last 12 and 24 between)", r.b(60.0, 900.0), move |c, v| full(c, v, if th { 3 } else { 1 }));
    r.family("full device", "core inputs x commands", 60.0, device);
    r.family("writers", "commands x ways of failing x every length up to 2500", r.b(60.0, 900.0), move |c, v| writers(c, v, if th { 3 } else { 1 }));
    r.family("readers", "commands x chunkings x every length", 60.0, readers);
    r.family("levels", "compression levels 0..299 x formats", 60.0, levels);
    r.family("truncations", "every truncation of 2 envelopes x 4 commands", 60.0, |c, v| damage(c, v, false));
    r.family("bits", "every changed bit of 2 envelopes x 4 commands", r.b(60.0, 600.0), |c, v| damage(c, v, true));
    r.family("arguments", "4 commands x 19 wrong argument lists", 30.0, arguments);
    r.family("external", "every exit code", 30.0, external);
    r.family("extensions", "gen-extensions, files that fill up at 40 lengths", 30.0, generated);
    let _ = std::fs::remove_dir_all(scratch());
}
