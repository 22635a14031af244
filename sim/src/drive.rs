//! The search: worker processes that run seeds, the parent that collects
//! what they saw, confirms and minimises the first failure, and writes the
//! evidence.  The parent never runs the server while workers are running.
use crate::check::{self, Finding};
use crate::exec::{self, Ev, RunResult};
use crate::gen;
use crate::plan::*;
use crate::rng::Rng;
use crate::shrink::Shrinker;
use crate::world::{short, Docs};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// CPU seconds after which one run (usually some 20 ms) counts as hung.
const CPU_LIMIT: u64 = 20;
/// Wall seconds of one run without using the CPU (a thread that blocks).
const WALL_LIMIT: u64 = 150;
/// The same for a run that uses hardly any processor time.
const IDLE_LIMIT: u64 = 25;

pub fn plan_seed(base: u64, i: u64) -> u64 {
    let mut r = Rng::fork(base.wrapping_mul(0x9e3779b97f4a7c15) ^ i, "run");
    r.next()
}

// -------------------------------------------------------------- watchdog ---
static RUNNING: AtomicU64 = AtomicU64::new(u64::MAX);
static SERIAL: AtomicU64 = AtomicU64::new(0);

fn raw_ms(clock: i32) -> u64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, clock, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

fn watchdog(cpu: u64) {
    std::thread::spawn(move || {
        let (mut serial, mut c0, mut w0) = (u64::MAX, 0, 0);
        loop {
            let ts = libc::timespec { tv_sec: 0, tv_nsec: 200_000_000 };
            unsafe { libc::syscall(libc::SYS_nanosleep, &ts, 0) };
            let run = RUNNING.load(SeqCst);
            let s = SERIAL.load(SeqCst);
            let (c, w) = (raw_ms(libc::CLOCK_PROCESS_CPUTIME_ID), raw_ms(libc::CLOCK_MONOTONIC));
            if s != serial || run == u64::MAX {
                serial = s;
                c0 = c;
                w0 = w;
                continue;
            }
            // waits for something outside the simulation, not for a processor
            let idle = w - w0 > IDLE_LIMIT * 1000 && (c - c0) * 50 < w - w0;
            if c - c0 > cpu * 1000 || w - w0 > WALL_LIMIT * 1000 || idle {
                let m = format!("\nH {run}\n");
                unsafe {
                    libc::syscall(libc::SYS_write, 1, m.as_ptr(), m.len());
                    libc::syscall(libc::SYS_exit_group, 7);
                }
            }
        }
    });
}

fn watched<T>(i: u64, f: impl FnOnce() -> T) -> T {
    SERIAL.fetch_add(1, SeqCst);
    RUNNING.store(i, SeqCst);
    let r = f();
    RUNNING.store(u64::MAX, SeqCst);
    r
}

// ---------------------------------------------------------------- worker ---
fn counts(p: &Plan, r: &RunResult) -> BTreeMap<String, u64> {
    let mut m: BTreeMap<String, u64> = r.fired.iter().map(|(k, n)| (format!("disk {}", errname(k)), *n)).collect();
    let mut add = |k: &str, n: u64| {
        if n > 0 {
            *m.entry(k.to_string()).or_default() += n;
        }
    };
    add("server killed and restarted", r.restarts);
    add("output pipe full (back-pressure)", r.full);
    add("message delivered in pieces (short reads)", r.short_reads);
    add("message torn with a pause", r.torn);
    for (_, e) in &r.events {
        match e {
            Ev::Disk(_) => add("disk changed under the server", 1),
            Ev::ServeEnded => add("server ended", 1),
            _ => {}
        }
    }
    for s in &p.steps {
        match s {
            Step::Pause => add("editor stopped reading", 1),
            Step::Garbage { .. } => add("malformed bytes sent", 1),
            Step::Cancel { .. } => add("request cancelled", 1),
            Step::Eof { mid_frame: true } => add("input ended inside a message", 1),
            Step::Eof { mid_frame: false } => add("input ended", 1),
            _ => {}
        }
    }
    if p.shuffle_dirs {
        add("directory order shuffled", 1);
    }
    if p.sched.budget < 128 {
        add("cooperative budget cut", 1);
    }
    m
}

fn errname(k: &str) -> String {
    let Some((op, n)) = k.split_once(":errno") else { return k.to_string() };
    let name = match n.parse::<i32>().unwrap_or(0) {
        libc::EACCES => "EACCES",
        libc::EIO => "EIO",
        libc::ENOENT => "ENOENT",
        libc::EMFILE => "EMFILE",
        libc::ENOMEM => "ENOMEM",
        libc::ESTALE => "ESTALE",
        libc::EINTR => "EINTR",
        libc::ELOOP => "ELOOP",
        libc::ENOTDIR => "ENOTDIR",
        _ => n,
    };
    format!("{op}:{name}")
}

fn found(f: &Finding) -> Value {
    json!({"class": f.class(), "detail": f.detail, "tag": f.tag, "t": f.t})
}

/// `sim worker PROPERTY BASE FIRST STRIDE COUNT SECONDS`
pub fn worker(a: &[String]) {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (prop, base, first, stride, count, secs) = (a[0].clone(), n(1), n(2), n(3), n(4), n(5));
    let until = Instant::now() + Duration::from_secs(secs);
    watchdog(CPU_LIMIT);
    let out = std::io::stdout();
    let docs = watched(u64::MAX - 1, check::calibrate);
    let mut i = first;
    while i < count && Instant::now() < until {
        writeln!(out.lock(), "S {i}").unwrap();
        out.lock().flush().unwrap();
        let seed = plan_seed(base, i);
        let p = gen::plan(&prop, seed);
        let c = watched(i, || check::run_case(&p, &docs));
        let r = &c.result;
        let twice = (i / stride) % 25 == 0;
        let same = !twice || watched(i, || exec::run(&p)).digest() == r.digest();
        let line = json!({
            "i": i, "seed": seed, "d": r.digest(), "s": r.sched_hash, "j": c.stats.judged, "skip": c.stats.skipped,
            "f": counts(&p, r), "v": r.virtual_ms, "p": r.polls, "x": r.fs_ops, "sc": p.scenario,
            "st": format!("{:?}", p.sched.strategy).split('(').next().unwrap(),
            "steps": p.steps.len(), "msgs": r.events.len(),
            "findings": c.findings.iter().map(found).collect::<Vec<_>>(),
            "twice": twice, "same": same,
        });
        let mut o = out.lock();
        writeln!(o, "R {line}").unwrap();
        o.flush().unwrap();
        drop(o);
        i += stride;
    }
    writeln!(out.lock(), "E").unwrap();
}

/// `sim judge PLAN CPU`: one plan in a process of its own.
pub fn judge_one(a: &[String]) {
    let p: Plan = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    watchdog(a[1].parse().unwrap());
    let docs = watched(0, check::calibrate);
    let c = watched(0, || check::run_case(&p, &docs));
    println!(
        "R {}",
        json!({"d": c.result.digest(), "findings": c.findings.iter().map(found).collect::<Vec<_>>()})
    );
}

/// Digest and findings of a plan run in a child process; a dead or hung
/// child is a finding too.
fn in_child(p: &Plan, cpu: u64) -> (u64, Vec<Value>) {
    let f = std::env::temp_dir().join(format!("sim-{}.json", std::process::id()));
    std::fs::write(&f, serde_json::to_string(p).unwrap()).unwrap();
    let o = Command::new(std::env::current_exe().unwrap())
        .arg("judge")
        .arg(&f)
        .arg(cpu.to_string())
        .stderr(Stdio::null())
        .output();
    let _ = std::fs::remove_file(&f);
    let Ok(o) = o else { return (0, vec![]) };
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    for l in s.lines() {
        if let Some(j) = l.strip_prefix("R ") {
            let v: Value = serde_json::from_str(j).unwrap_or(Value::Null);
            let fs = v["findings"].as_array().cloned().unwrap_or_default();
            return (v["d"].as_u64().unwrap_or(0), fs);
        }
    }
    (0, vec![gone(s.contains("\nH "))])
}

fn gone(hung: bool) -> Value {
    if hung {
        json!({"class": "hung", "tag": "hung", "t": 0, "detail": "the server stopped making progress: it computes or blocks without end"})
    } else {
        json!({"class": "died", "tag": "died", "t": 0, "detail": "the server process died (abort, stack overflow or signal)"})
    }
}

// ---------------------------------------------------------------- parent ---
#[derive(Default)]
struct Tally {
    runs: u64,
    judged: BTreeMap<String, u64>,
    skipped: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    virtual_ms: u64,
    polls: u64,
    fs_ops: u64,
    msgs: u64,
    scenarios: BTreeMap<String, u64>,
    strategies: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    scheds: HashSet<u64>,
    nontrivial: HashSet<u64>,
    twice: u64,
    differ: u64,
    samples: Vec<Value>,
}

/// The observations that decide the property.
fn decisive(prop: &str) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = check::tags(prop).to_vec();
    match prop {
        "C01" => v = vec!["answer"],
        "C02" => v = vec!["alive"],
        "C19" => v = vec!["end"],
        "C18" => v = vec!["symbols", "goto", "hover", "completion", "action", "vars", "refs"],
        _ => {}
    }
    v
}

impl Tally {
    fn add(&mut self, prop: &str, v: &Value) {
        self.runs += 1;
        let d = v["d"].as_u64().unwrap();
        let fresh = self.digests.insert(d);
        self.scheds.insert(v["s"].as_u64().unwrap());
        let keys = decisive(prop);
        let mut n = 0;
        for (k, x) in v["j"].as_object().unwrap() {
            let x = x.as_u64().unwrap();
            *self.judged.entry(k.clone()).or_default() += x;
            if keys.contains(&k.as_str()) {
                n += x;
            }
        }
        if n > 0 {
            self.nontrivial.insert(d);
            if fresh && self.samples.len() < 4 {
                self.samples.push(json!({
                    "run": v["i"], "seed": v["seed"], "scenario": v["sc"], "scheduler": v["st"], "steps": v["steps"],
                    "messages": v["msgs"], "scheduling_decisions": v["p"], "virtual_ms": v["v"], "faults": v["f"],
                    "judged": v["j"], "digest": format!("{d:016x}"),
                }));
            }
        }
        self.skipped += v["skip"].as_u64().unwrap();
        for (k, x) in v["f"].as_object().unwrap() {
            *self.faults.entry(k.clone()).or_default() += x.as_u64().unwrap();
            *self.fault_runs.entry(k.clone()).or_default() += 1;
        }
        self.virtual_ms += v["v"].as_u64().unwrap();
        self.polls += v["p"].as_u64().unwrap();
        self.fs_ops += v["x"].as_u64().unwrap();
        self.msgs += v["msgs"].as_u64().unwrap();
        *self.scenarios.entry(v["sc"].as_str().unwrap().into()).or_default() += 1;
        *self.strategies.entry(v["st"].as_str().unwrap().into()).or_default() += 1;
        if v["twice"] == true {
            self.twice += 1;
            if v["same"] == false {
                self.differ += 1;
            }
        }
    }
}

struct Known {
    property: String,
    matches: String,
    text: String,
}

fn known(root: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, l) = l.split_once(' ')?;
            let l = l.strip_prefix("match=\"")?;
            let (m, text) = l.split_once("\" ")?;
            Some(Known { property: property.into(), matches: m.into(), text: text.into() })
        })
        .collect()
}

enum Msg {
    Started(usize, u64),
    Run(usize, Value),
    Hung(usize),
    Gone(usize),
}

fn listen(w: usize, c: &mut Child, tx: mpsc::Sender<Msg>) {
    let out = c.stdout.take().unwrap();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            let m = if let Some(i) = l.strip_prefix("S ") {
                Msg::Started(w, i.parse().unwrap_or(0))
            } else if let Some(j) = l.strip_prefix("R ") {
                match serde_json::from_str(j) {
                    Ok(v) => Msg::Run(w, v),
                    Err(_) => continue,
                }
            } else if l.starts_with("H ") {
                Msg::Hung(w)
            } else if l == "E" {
                let _ = tx.send(Msg::Started(w, u64::MAX));
                continue;
            } else {
                continue;
            };
            if tx.send(m).is_err() {
                return;
            }
        }
        let _ = tx.send(Msg::Gone(w));
    });
}

/// How many runs the quick search makes at most.
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C04" => 6000,
        _ => 16000,
    }
}

/// `sim check PROPERTY`: exit code of the check.
pub fn check(prop: &str, root: &str) -> i32 {
    let t0 = Instant::now();
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let seed = env("VERIF_SEED").unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |v| v == "thorough");
    let secs = env("SIM_SECONDS").unwrap_or(if thorough { 1200 } else { 40 });
    let count = env("SIM_RUNS").unwrap_or(if thorough { u64::MAX } else { quick_runs(prop) });
    let workers = env("SIM_WORKERS").unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64));
    let base = seed;
    println!("{prop}: seed {seed}, {} tier, {workers} workers", if thorough { "thorough" } else { "quick" });
    let known = known(root);
    let mut seen_known: BTreeMap<usize, u64> = BTreeMap::new();
    let mut tally = Tally::default();
    let mut unconfirmed: Vec<Value> = vec![];
    let mut violation: Option<Value> = None;
    let mut skip_classes: BTreeSet<String> = BTreeSet::new();
    let mut queue: Vec<(Plan, Value, u64)> = vec![];

    // plans kept from earlier findings come first
    let mut corpus: Vec<std::path::PathBuf> = std::fs::read_dir(format!("{root}/corpus/{prop}"))
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    corpus.sort();
    let mut kept = 0u64;
    for f in &corpus {
        let Ok(p) = serde_json::from_str::<Plan>(&std::fs::read_to_string(f).unwrap_or_default()) else {
            eprintln!("cannot read {}", f.display());
            return 2;
        };
        kept += 1;
        let (_, fs) = in_child(&p, CPU_LIMIT);
        for f in fs {
            match known.iter().position(|k| k.property == prop && f["detail"].as_str().unwrap_or("").contains(&k.matches)) {
                Some(i) => *seen_known.entry(i).or_default() += 1,
                None => queue.push((p.clone(), f, 0)),
            }
        }
    }

    let mut wall_search = 0.0;
    if queue.is_empty() {
        let s0 = Instant::now();
        let exe = std::env::current_exe().unwrap();
        let (tx, rx) = mpsc::channel();
        let mut kids: Vec<Child> = vec![];
        for w in 0..workers {
            let mut c = Command::new(&exe)
                .arg("worker")
                .arg(prop)
                .args([base, w, workers, count, secs].iter().map(|n| n.to_string()))
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            listen(w as usize, &mut c, tx.clone());
            kids.push(c);
        }
        drop(tx);
        let mut current = vec![u64::MAX - 1; workers as usize];
        let mut hung = vec![false; workers as usize];
        let mut stop_at: Option<Instant> = None;
        loop {
            let m = match stop_at {
                Some(t) => {
                    let now = Instant::now();
                    if now >= t {
                        break;
                    }
                    rx.recv_timeout(t - now)
                }
                None => rx.recv_timeout(Duration::from_secs(600)),
            };
            let Ok(m) = m else { break };
            match m {
                Msg::Started(w, i) => current[w] = i,
                Msg::Hung(w) => hung[w] = true,
                Msg::Gone(w) => {
                    let i = current[w];
                    if i == u64::MAX {
                        continue;
                    }
                    if i == u64::MAX - 1 {
                        // a plain session: one document opened, hovered over
                        queue.push((check::calibration_plan(prop), gone(hung[w]), 0));
                    } else {
                        queue.push((gen::plan(prop, plan_seed(base, i)), gone(hung[w]), i));
                    }
                    stop_at.get_or_insert(Instant::now() + Duration::from_millis(500));
                }
                Msg::Run(_, v) => {
                    tally.add(prop, &v);
                    for f in v["findings"].as_array().unwrap() {
                        let d = f["detail"].as_str().unwrap_or("");
                        if let Some(i) = known.iter().position(|k| k.property == prop && d.contains(&k.matches)) {
                            *seen_known.entry(i).or_default() += 1;
                            continue;
                        }
                        let i = v["i"].as_u64().unwrap();
                        if queue.len() < 40 {
                            queue.push((gen::plan(prop, plan_seed(base, i)), f.clone(), i));
                        }
                        stop_at.get_or_insert(Instant::now() + Duration::from_millis(700));
                        break;
                    }
                }
            }
        }
        for c in kids.iter_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
        wall_search = s0.elapsed().as_secs_f64();
    }

    let docs = if queue.is_empty() { Docs::default() } else { docs_safely() };
    for (p, f, i) in &queue {
        let class = f["class"].as_str().unwrap_or("").to_string();
        if skip_classes.contains(&class) {
            continue;
        }
        let again = in_child(p, CPU_LIMIT);
        let apart = ["hung", "died"].contains(&class.as_str());
        if !again.1.iter().any(|x| x["class"] == f["class"]) {
            unconfirmed.push(json!({"run": i, "finding": f}));
            if unconfirmed.len() > 8 {
                skip_classes.insert(class);
            }
            continue;
        }
        println!("run {i}: {}", f["detail"].as_str().unwrap_or(""));
        println!("minimising ...");
        let mut s = Shrinker {
            class: class.clone(),
            until: Instant::now() + Duration::from_secs(if thorough { 120 } else { 30 }),
            runs: 0,
            test: if apart {
                Box::new(|p: &Plan, class: &str| in_child(p, 3).1.iter().any(|x| x["class"] == class))
            } else {
                Box::new(|p: &Plan, class: &str| check::run_case(p, &docs).findings.iter().any(|f| f.class() == class))
            },
        };
        let small = s.run(p);
        let runs = s.runs;
        let (mut plan, mut res) = (small.clone(), in_child(&small, CPU_LIMIT));
        let mut hit = res.1.iter().find(|x| x["class"] == f["class"]).cloned();
        if hit.is_none() {
            plan = p.clone();
            res = again;
            hit = Some(f.clone());
        }
        let hit = hit.unwrap();
        let dir = format!("{root}/out");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{i}.json");
        let trace = if apart { vec![] } else { trace(&exec::run(&plan)) };
        let doc = json!({
            "property": prop, "seed": seed, "run": i, "class": class, "detail": hit["detail"],
            "digest": format!("{:016x}", res.0), "steps_before": p.steps.len(), "steps_after": plan.steps.len(),
            "minimiser_runs": runs, "plan": plan, "trace": trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("minimised from {} to {} steps in {runs} runs: {}", p.steps.len(), plan.steps.len(), hit["detail"].as_str().unwrap_or(""));
        println!("replay with: {root}/replay.sh {path}");
        println!("VIOLATION property={prop} replay={path}");
        violation = Some(json!({"replay": path, "detail": hit["detail"], "class": class}));
        break;
    }

    let wall = t0.elapsed().as_secs_f64();
    for (i, k) in known.iter().enumerate() {
        if k.property == prop && seen_known.contains_key(&i) {
            println!("KNOWN-FINDING: property={prop} {}", k.text);
        }
    }
    let per_hour = if wall_search > 0.0 { (tally.runs as f64 / wall_search * 3600.0) as u64 } else { 0 };
    println!(
        "{prop}: {} runs ({per_hour}/h), {} distinct histories, {} judged observations, {:.1} h simulated, {} unconfirmed",
        tally.runs,
        tally.digests.len(),
        tally.judged.values().sum::<u64>(),
        tally.virtual_ms as f64 / 3_600_000.0,
        unconfirmed.len()
    );
    if tally.runs == 0 && violation.is_none() {
        eprintln!("no run completed");
        return 2;
    }
    let keys = decisive(prop);
    let decided: u64 = tally.judged.iter().filter(|(k, _)| keys.contains(&k.as_str())).map(|(_, n)| *n).sum();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tally.runs + kept,
            "distinct_nontrivial": tally.nontrivial.len(),
            "rule": format!("A case is one simulated session: a seed decides workspace, documents, edits, requests, disk contents, delivery, scheduling and faults. It is non-trivial when at least one observation that decides the property was compared with the reference model ({}); distinct by the digest of its complete recorded history (every message with its virtual time, every disk change).", keys.join(", ")),
            "samples": tally.samples,
            "observations_deciding_the_property": decided,
            "observations_by_kind": tally.judged,
            "observations_not_judged": tally.skipped,
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "simulated_hours": tally.virtual_ms as f64 / 3_600_000.0,
            "scheduling_decisions": tally.polls,
            "distinct_interleavings": tally.scheds.len(),
            "distinct_interleavings_measure": "hash of the sequence of tasks picked by the scheduler over the whole run",
            "distinct_histories": tally.digests.len(),
            "file_system_calls_simulated": tally.fs_ops,
            "events_recorded": tally.msgs,
            "faults_injected": tally.faults,
            "runs_with_fault": tally.fault_runs,
            "scenarios": tally.scenarios,
            "schedulers": tally.strategies,
            "kept_plans_replayed": kept,
            "runs_repeated_to_prove_determinism": tally.twice,
            "runs_that_differed_when_repeated": tally.differ,
            "findings_not_reproduced": unconfirmed,
            "known_findings_seen": seen_known.iter().map(|(i, n)| json!({"finding": known[*i].text, "times": n})).collect::<Vec<_>>(),
            "violation": violation,
            "components": {
                "real": ["jinja-lsp backend, channels (lsp_task, diagnostics_task), lsp_files, config, filter, template_tests", "jinja-lsp-queries", "tower-lsp transport and service", "tokio current-thread runtime, channels and timers (scheduler order, budget and clock decided by the simulator)", "tree-sitter parsers and queries", "walkdir, std::fs down to the libc call"],
                "stub": ["editor (scripted client)", "stdin/stdout (in-memory pipes)", "file system (in-memory, behind libc symbols)", "clocks, getrandom", "query compilation memoised (same queries, compiled once per process)", "main.rs (process entry point) is not run"],
            },
        },
        "assumptions": [
            "sampling: schedules, inputs and faults are searched, not enumerated",
            "the server's tasks run on one thread; tokio's multi-thread runtime adds parallelism but every switch between tasks happens at an await point either way",
            "the reference model judges only documents whose text its own Jinja lexer and parser accept",
        ],
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    if violation.is_some() {
        1
    } else {
        0
    }
}

/// Calibration in a process that may die is tried in a child first.
fn docs_safely() -> Docs {
    let (_, f) = in_child(&check::calibration_plan("C02"), CPU_LIMIT);
    if f.iter().any(|x| x["class"] == "hung" || x["class"] == "died") {
        return Docs::default();
    }
    check::calibrate()
}

fn trace(r: &RunResult) -> Vec<String> {
    r.events
        .iter()
        .map(|(t, e)| match e {
            Ev::Recv { body } => format!("{t} ms <- {}", short(body)),
            Ev::Sent { body, .. } => format!("{t} ms -> {}", short(body)),
            e => format!("{t} ms {e:?}"),
        })
        .collect()
}

/// `sim replay FILE`: runs a reported plan again.
pub fn replay(file: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let p: Plan = serde_json::from_value(v["plan"].clone()).unwrap();
    let (d, fs) = in_child(&p, CPU_LIMIT);
    for l in v["trace"].as_array().unwrap_or(&vec![]) {
        println!("  {}", l.as_str().unwrap_or(""));
    }
    let same = format!("{d:016x}") == v["digest"].as_str().unwrap_or("");
    match fs.iter().find(|f| f["class"] == v["class"]) {
        Some(f) => {
            println!("{}", f["detail"].as_str().unwrap_or(""));
            println!("history {} the recorded one (digest {d:016x})", if same { "is exactly" } else { "differs from" });
            println!("VIOLATION property={} replay={file}", v["property"].as_str().unwrap_or(""));
            1
        }
        None => {
            println!("not reproduced; other findings: {}", fs.len());
            0
        }
    }
}

/// `sim determinism PROPERTY FROM N`: digests, for comparing processes.
pub fn digests(a: &[String]) {
    let (from, n): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    for i in from..from + n {
        let plan = gen::plan(&a[0], plan_seed(1, i));
        if let Ok(f) = std::env::var("PLAN") { std::fs::write(f, serde_json::to_string(&plan).unwrap()).unwrap(); }
        let r = exec::run(&plan);
        if std::env::var("DUMP").is_ok() { for (t,e) in &r.events { println!("{t} {e:?}"); } println!("{:?}", r.panics); }
        println!("{} {i} {:016x} {:016x} {}", a[0], r.digest(), r.sched_hash, r.virtual_ms);
    }
}
