//! Command line, crash supervisor, known findings, replay files and evidence.

use crate::explore::{Runner, Tier, Violation, install_hook};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type CheckFn = fn(&mut Runner);

struct Args {
    id: String,
    tier: Tier,
    replay: Option<String>,
    only: Option<String>,
    verbose: bool,
    survey: bool,
    wide: usize,
    worker: Option<PathBuf>,
    threads: usize,
    scale: f64,
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("HX_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn parse() -> Args {
    let mut a = Args {
        id: String::new(),
        tier: Tier::Quick,
        replay: None,
        only: None,
        verbose: false,
        survey: false,
        wide: 330,
        worker: None,
        threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8),
        scale: 1.0,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.tier = if it.next().as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
            "--replay" => a.replay = it.next(),
            "--family" => a.only = it.next(),
            "-v" => a.verbose = true,
            "--survey" => a.survey = true,
            "--wide" => a.wide = 2500,
            "--worker" => a.worker = it.next().map(PathBuf::from),
            "--threads" => a.threads = it.next().unwrap().parse().unwrap(),
            "--scale" => a.scale = it.next().unwrap().parse().unwrap(),
            _ => a.id = x,
        }
    }
    a
}

/// Open known findings of a property: (key, what).
fn known(id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(verif().join("known_findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    v["findings"]
        .as_array()
        .map(|x| {
            x.iter()
                .filter(|f| f["property"] == id && f["status"] == "open")
                .map(|f| (f["key"].as_str().unwrap().to_string(), f["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

fn parse_replay(s: &str) -> (String, Vec<u32>) {
    // either a replay file or "family:1,2,3"
    if let Ok(t) = std::fs::read_to_string(s) {
        let v: Value = serde_json::from_str(&t).expect("replay file");
        return (
            v["family"].as_str().unwrap().into(),
            v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(),
        );
    }
    let (f, c) = s.rsplit_once(':').expect("family:choices");
    (f.into(), c.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
}

fn write_replay(id: &str, v: &Violation) -> PathBuf {
    let d = verif().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{id}.json"));
    let j = json!({"property": id, "family": v.family, "choices": v.choices, "key": v.key, "message": v.msg,
        "how": format!("./check.sh {id} replay {}", p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

fn report_violation(id: &str, v: &Violation) {
    let p = write_replay(id, v);
    println!("family={} key={:?}", v.family, v.key);
    let mut m = v.msg.clone();
    if m.len() > 6000 {
        let mut i = 6000;
        while !m.is_char_boundary(i) {
            i -= 1;
        }
        m.truncate(i);
    }
    println!("{m}");
    println!("VIOLATION property={id} replay={}", p.display());
}

fn evidence(r: &Runner, violations: u64) -> Value {
    let mut states = 0;
    let mut trans = 0;
    let mut traces = 0;
    let mut evals = 0;
    let mut skipped = 0;
    let mut samples = vec![];
    let mut fams = vec![];
    let mut complete = true;
    for f in &r.families {
        states += f.states;
        trans += f.transitions;
        traces += f.traces;
        evals += f.evaluations;
        skipped += f.skipped;
        complete &= f.complete;
        for s in f.samples.iter().take(if r.families.len() > 12 { 1 } else { 2 }) {
            if samples.len() < 24 {
                samples.push(json!({"family": f.name, "case": s}));
            }
        }
        fams.push(json!({
            "family": f.name, "bound": f.bound, "cases": f.evaluations, "decision_vectors_not_a_case": f.skipped,
            "distinct_states": f.states, "transitions": f.transitions, "complete_within_bound": f.complete,
            "unexplored_prefixes": f.left, "max_choice_points": f.choice_points_max,
            "outcomes": f.outcomes, "counters": f.counters, "wall_s": (f.wall_s * 100.0).round() / 100.0,
        }));
    }
    let mut cov = json!({
        "evaluations": evals,
        "decision_vectors_skipped": skipped,
        "samples": samples,
        "families": fams,
        "exhaustive": complete,
        "known_findings_hit": r.known_hits.iter().map(|(k, (n, _))| json!({"key": k, "cases": n})).collect::<Vec<_>>(),
    });
    match r.level {
        "fault_enumeration" => {
            cov["distinct_nontrivial"] = json!(states);
            cov["rule"] = json!(r.rule);
        }
        _ => {
            cov["states"] = json!(states);
            cov["transitions"] = json!(trans);
            cov["traces_validated_against_impl"] = json!(traces);
        }
    }
    json!({
        "property": r.id,
        "tier": if r.quick() { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        "level": r.level,
        "coverage": cov,
        "assumptions": r.assumptions,
        "wall_s": r.started.elapsed().as_secs_f64(),
        "violations": violations,
    })
}

fn write_evidence(id: &str, v: &Value) {
    let d = verif().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(v).unwrap());
}

/// The process entry point.
pub fn main(checks: &[(&str, CheckFn)]) -> ! {
    let a = parse();
    let Some((_, f)) = checks.iter().find(|(i, _)| *i == a.id) else {
        eprintln!("unknown property {:?}", a.id);
        std::process::exit(2);
    };
    if a.worker.is_none() && !a.survey {
        supervise(&a);
    }
    install_hook();
    let kn = known(&a.id);
    let mut r = Runner {
        id: a.id.clone(),
        tier: a.tier,
        threads: a.threads,
        families: vec![],
        violation: None,
        known: kn.clone(),
        known_hits: BTreeMap::new(),
        replay: a.replay.as_deref().map(parse_replay),
        only: a.only.clone(),
        assumptions: vec![],
        level: "model_checking",
        rule: String::new(),
        slot_dir: a.worker.clone(),
        verbose: a.verbose,
        started: Instant::now(),
        budget_scale: a.scale,
        case_limit: 60,
        survey: a.survey,
        surveyed: BTreeMap::new(),
    };
    f(&mut r);
    if a.survey {
        for (k, (n, v)) in r.surveyed.iter().take(200) {
            println!("== [{n}x] {k}\n   key={:?} replay={}:{:?}\n   {}", v.key, v.family, v.choices, v.msg.chars().take(a.wide).collect::<String>());
        }
        println!("{} distinct failures", r.surveyed.len());
        std::process::exit(0);
    }
    if r.replay.is_some() {
        if let Some(v) = &r.violation {
            println!("VIOLATION property={} replay={}", r.id, write_replay(&r.id, v).display());
            std::process::exit(1);
        }
        std::process::exit(0);
    }
    let ev = evidence(&r, r.violation.is_some() as u64);
    write_evidence(&r.id, &ev);
    for (k, w) in &kn {
        if let Some((n, _)) = r.known_hits.get(k) {
            println!("KNOWN-FINDING: property={} {w} [{k}; {n} cases]", r.id);
        }
    }
    if let Some(v) = &r.violation {
        report_violation(&r.id, v);
        std::process::exit(1);
    }
    println!(
        "property {} held on everything explored: {} cases, {} distinct states, {} transitions, {:.1}s{}",
        r.id,
        r.families.iter().map(|f| f.evaluations).sum::<u64>(),
        r.families.iter().map(|f| f.states).sum::<u64>(),
        r.families.iter().map(|f| f.transitions).sum::<u64>(),
        r.started.elapsed().as_secs_f64(),
        if r.families.iter().all(|f| f.complete) { "" } else { " (some families cut by their time cap)" }
    );
    std::process::exit(0);
}

fn run_limited(mut c: Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut ch = c.spawn().expect("spawn self");
    let t = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Runs the exploration in a child so that an abort, stack overflow, exhausted memory or
/// hang of the code under test becomes a finding with its decision vector.
fn supervise(a: &Args) -> ! {
    let dir = std::env::temp_dir().join(format!("hx-{}-{}", a.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let me = std::env::current_exe().unwrap();
    let base = || {
        let mut c = Command::new(&me);
        c.args(std::env::args().skip(1));
        c
    };
    let mut c = base();
    c.arg("--worker").arg(&dir);
    let st = run_limited(c, Duration::from_secs(if a.tier == Tier::Quick { 840 } else { 6 * 3600 }));
    let code = st.and_then(|s| s.code());
    let fin = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(code)
    };
    if let Some(c) = code {
        if c == 0 || c == 1 || c == 3 || (c != 97 && c < 128 && c != 101) {
            fin(c);
        }
    }
    eprintln!("exploration ended abnormally ({st:?}); re-running the cases in flight");
    let mut crash = None;
    for w in 0..64 {
        let Ok(s) = std::fs::read_to_string(dir.join(format!("slot{w}"))) else { continue };
        let Some(line) = s.lines().next() else { continue };
        let Some((fam, cs)) = line.split_once('\t') else { continue };
        let choices: Vec<u32> = cs.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let rp = dir.join("one.json");
        std::fs::write(&rp, json!({"family": fam, "choices": choices}).to_string()).unwrap();
        let d2 = dir.join("w");
        let _ = std::fs::create_dir_all(&d2);
        let mut c = base();
        c.arg("--worker").arg(&d2).arg("--replay").arg(&rp).stdout(Stdio::null());
        let st = run_limited(c, Duration::from_secs(90));
        let died = match st {
            None => Some("hang".to_string()),
            Some(s) => match s.code() {
                Some(0) | Some(1) => None,
                Some(97) => Some("hang".into()),
                _ => Some(format!("crash: {s}")),
            },
        };
        if let Some(d) = died {
            crash = Some(Violation {
                family: fam.into(),
                choices,
                key: format!("{}:{fam}", if d == "hang" { "hang" } else { "crash" }),
                msg: format!("the code under test died on this case ({d})"),
            });
            break;
        }
    }
    match crash {
        Some(v) => {
            report_violation(&a.id, &v);
            fin(1)
        }
        None => {
            eprintln!("HARNESS: abnormal end without a reproducible case");
            fin(4)
        }
    }
}

pub fn lock_path(p: &Path) -> String {
    p.display().to_string()
}
