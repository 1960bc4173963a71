//! Batch runner: seeded search over runs, shrinking, replay, evidence.

use crate::core::*;
use crate::exec::Sim;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type ScnFn = fn(&mut Sim);

pub struct Scn {
    pub name: &'static str,
    pub weight: u32,
    pub run: ScnFn,
}
pub struct Prop {
    pub id: &'static str,
    /// runs in the quick tier
    pub quick: u64,
    pub scns: Vec<Scn>,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub hash: u64,
    pub choices: Vec<u32>,
    pub trace: Option<Vec<String>>,
    pub counters: BTreeMap<&'static str, u64>,
    pub sim_ms: u64,
    pub steps: u64,
    pub polls: u64,
    pub events: u64,
    pub nontrivial: bool,
}

struct Watch {
    slots: Vec<Mutex<Option<(Instant, u64, Arc<Ctx>)>>>,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next();
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn execute(f: ScnFn, source: Source, trace: bool, on_start: &dyn Fn(&Arc<Ctx>)) -> Outcome {
    let c = Ctx::new(source, trace);
    on_start(&c);
    let old = install(Some(c.clone()));
    let mut steps = 0;
    let mut polls = 0;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut sim = Sim::new();
        {
            let h = sim.handle();
            let _e = h.enter();
            crate::scn::span::install_subscriber(chance(6));
            f(&mut sim);
            sim.absorb();
            if !violated() {
                sim.drop_all();
            }
        }
        steps = sim.steps;
        polls = sim.polls;
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(sim)));
    }));
    // break reference cycles held by queued tasks
    let q = std::mem::take(&mut c.lock().spawn_q);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(q)));
    install(old);
    let mut g = c.lock();
    for s in g.gates.iter_mut() {
        s.waker = None;
    }
    Outcome {
        violation: g.violation.clone(),
        hash: g.hash,
        choices: std::mem::take(&mut g.choices),
        trace: g.trace.take(),
        counters: std::mem::take(&mut g.counters),
        sim_ms: g.now,
        steps,
        polls,
        events: g.nev,
        nontrivial: g.nontrivial,
    }
}

pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(id)), i.wrapping_add(1))
}

pub fn scn_of(p: &Prop, i: u64) -> usize {
    let total: u64 = p.scns.iter().map(|s| s.weight as u64).sum();
    let mut x = i % total;
    for (j, s) in p.scns.iter().enumerate() {
        if x < s.weight as u64 {
            return j;
        }
        x -= s.weight as u64;
    }
    0
}

fn write_replay(path: &str, prop: &str, scn: &str, seed: u64, index: u64, o: &Outcome, shrunk: bool) {
    let v = o.violation.as_ref();
    let j = json!({
        "property": prop,
        "scenario": scn,
        "verif_seed": seed,
        "run_index": index,
        "minimised": shrunk,
        "class": v.map(|v| v.class.clone()).unwrap_or_default(),
        "message": v.map(|v| v.msg.clone()).unwrap_or_default(),
        "hash": format!("{:016x}", o.hash),
        "choices": o.choices,
        "trace": o.trace.clone().unwrap_or_default(),
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(path, serde_json::to_string_pretty(&j).unwrap());
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// Shrinks a failing choice sequence while the violation class stays the same.
fn shrink(start: Vec<u32>, budget: Duration, test: &mut dyn FnMut(&Vec<u32>) -> Option<Vec<u32>>) -> Vec<u32> {
    let t0 = Instant::now();
    let mut best = trim(start);
    let smaller = |a: &Vec<u32>, b: &Vec<u32>| (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>());
    loop {
        let mut improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return best;
                }
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if let Some(n) = test(&cand) {
                    if smaller(&n, &best) {
                        best = n;
                        improved = true;
                        continue;
                    }
                }
                // zero the chunk instead
                let mut cand = best.clone();
                let mut any = false;
                for x in &mut cand[i..end] {
                    if *x != 0 {
                        *x = 0;
                        any = true;
                    }
                }
                if any {
                    if let Some(n) = test(&cand) {
                        if smaller(&n, &best) {
                            best = n;
                            improved = true;
                        }
                    }
                }
                i += if size <= 6 { 1 } else { size };
            }
            if size == 1 {
                break;
            }
            size = if size <= 6 { size - 1 } else { size / 2 };
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed() > budget {
                return best;
            }
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut cand = best.clone();
                    cand[i] = nv;
                    if let Some(n) = test(&cand) {
                        if smaller(&n, &best) {
                            best = n;
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved || t0.elapsed() > budget {
            return best;
        }
    }
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}
pub fn load_known(root: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut property = String::new();
                let mut class = String::new();
                let mut text = vec![];
                for w in rest.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        property = x.into();
                    } else if let Some(x) = w.strip_prefix("class=") {
                        class = x.into();
                    } else {
                        text.push(w);
                    }
                }
                out.push(Known { property, class, text: text.join(" ") });
            }
        }
    }
    out
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub runs: Option<u64>,
    pub start: u64,
    pub threads: usize,
    pub wall: Duration,
    pub root: String,
    pub write_evidence: bool,
    /// Where each worker notes the run it is about to start.
    pub progress: Option<String>,
}

const WATCHDOG: Duration = Duration::from_secs(20);

pub fn check(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let thorough = o.tier == "thorough";
    let runs = o.runs.unwrap_or(if thorough { p.quick * 60 } else { p.quick });
    let known = load_known(&o.root);
    let next = AtomicU64::new(o.start);
    let end_at = o.start + runs;
    let best_bad = Mutex::new(None::<(u64, Violation, Vec<u32>)>);
    let limit = AtomicU64::new(u64::MAX);
    let known_hits = Mutex::new(BTreeMap::<String, u64>::new());
    struct Agg {
        counters: BTreeMap<&'static str, u64>,
        hashes: HashSet<u64>,
        nontriv: HashSet<u64>,
        sim_ms: u64,
        steps: u64,
        polls: u64,
        events: u64,
        runs: u64,
        per_scn: BTreeMap<&'static str, u64>,
        rerun: u64,
        rerun_bad: u64,
    }
    let agg = Mutex::new(Agg {
        counters: BTreeMap::new(),
        hashes: HashSet::new(),
        nontriv: HashSet::new(),
        sim_ms: 0,
        steps: 0,
        polls: 0,
        events: 0,
        runs: 0,
        per_scn: BTreeMap::new(),
        rerun: 0,
        rerun_bad: 0,
    });
    let watch = Arc::new(Watch { slots: (0..=o.threads).map(|_| Mutex::new(None)).collect() });
    let done = Arc::new(AtomicBool::new(false));
    // wall-clock watchdog: an endless loop inside one poll
    {
        let watch = watch.clone();
        let done = done.clone();
        let id = p.id.to_string();
        let root = o.root.clone();
        let seed = o.seed;
        let names: Vec<(&'static str, u32)> = p.scns.iter().map(|s| (s.name, s.weight)).collect();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(SeqCst) {
                return;
            }
            for s in &watch.slots {
                let g = s.lock().unwrap();
                if let Some((at, idx, c)) = &*g {
                    if at.elapsed() > WATCHDOG {
                        let (choices, scn) = {
                            let ch = c.0.try_lock().map(|g| g.choices.clone()).unwrap_or_default();
                            let total: u64 = names.iter().map(|n| n.1 as u64).sum();
                            let mut x = idx % total;
                            let mut nm = names[0].0;
                            for (n, w) in &names {
                                if x < *w as u64 {
                                    nm = n;
                                    break;
                                }
                                x -= *w as u64;
                            }
                            (ch, nm)
                        };
                        let path = format!("{root}/replays/{id}-hang-{idx}.json");
                        let j = json!({"property": id, "scenario": scn, "verif_seed": seed, "run_index": idx,
                            "minimised": false, "class": "hang", "message": "a single poll did not return within 20 s of real time",
                            "hash": "", "choices": choices, "trace": []});
                        let _ = std::fs::create_dir_all(format!("{root}/replays"));
                        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
                        println!("run {idx} ({scn}): hang: a single poll did not return");
                        println!("VIOLATION property={id} replay={path}");
                        std::process::exit(1);
                    }
                }
            }
        });
    }

    let progress = o.progress.as_ref().and_then(|f| std::fs::OpenOptions::new().write(true).create(true).open(f).ok());
    let note = |w: usize, i: u64| {
        if let Some(f) = &progress {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&i.wrapping_add(1).to_le_bytes(), w as u64 * 8);
        }
    };
    std::thread::scope(|s| {
        for w in 0..o.threads {
            let note = &note;
            let (next, limit, best_bad, agg, known, known_hits, watch) =
                (&next, &limit, &best_bad, &agg, &known, &known_hits, &watch);
            let deadline = t0 + o.wall;
            s.spawn(move || {
                let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut hashes = HashSet::new();
                let mut nontriv = HashSet::new();
                let mut per_scn: BTreeMap<&'static str, u64> = BTreeMap::new();
                let (mut sim_ms, mut steps, mut polls, mut events, mut nruns, mut rerun, mut rerun_bad) = (0, 0, 0, 0, 0, 0, 0);
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= end_at || i >= limit.load(SeqCst) || Instant::now() > deadline {
                        break;
                    }
                    let scn = &p.scns[scn_of(p, i)];
                    let rs = run_seed(o.seed, p.id, i);
                    note(w, i);
                    let out = execute(scn.run, Source::Random(Rng::new(rs)), false, &|c| {
                        *watch.slots[w].lock().unwrap() = Some((Instant::now(), i, c.clone()));
                    });
                    if i % 101 == 0 {
                        // re-execute from the same seed: determinism self-check
                        let again = execute(scn.run, Source::Random(Rng::new(rs)), false, &|_| {});
                        rerun += 1;
                        if again.hash != out.hash {
                            rerun_bad += 1;
                        }
                    }
                    *watch.slots[w].lock().unwrap() = None;
                    nruns += 1;
                    *per_scn.entry(scn.name).or_insert(0) += 1;
                    sim_ms += out.sim_ms;
                    steps += out.steps;
                    polls += out.polls;
                    events += out.events;
                    for (k, v) in &out.counters {
                        *counters.entry(k).or_insert(0) += v;
                    }
                    if hashes.len() < 4_000_000 {
                        hashes.insert(out.hash);
                        if out.nontrivial {
                            nontriv.insert(out.hash);
                        }
                    }
                    if let Some(v) = out.violation {
                        if let Some(k) = known.iter().find(|k| k.property == p.id && k.class == v.class) {
                            *known_hits.lock().unwrap().entry(k.text.clone()).or_insert(0) += 1;
                            continue;
                        }
                        // an assertion of the harness itself counts only when
                        // no run shows a violation of the property proper
                        let soft = v.class.starts_with("HARNESS");
                        let mut b = best_bad.lock().unwrap();
                        if b.as_ref().map_or(true, |(j, w, _)| (soft, i) < (w.class.starts_with("HARNESS"), *j)) {
                            *b = Some((i, v, out.choices));
                            if !soft {
                                limit.fetch_min(i, SeqCst);
                            }
                        }
                    }
                }
                let mut a = agg.lock().unwrap();
                for (k, v) in counters {
                    *a.counters.entry(k).or_insert(0) += v;
                }
                for (k, v) in per_scn {
                    *a.per_scn.entry(k).or_insert(0) += v;
                }
                a.hashes.extend(hashes);
                a.nontriv.extend(nontriv);
                a.sim_ms += sim_ms;
                a.steps += steps;
                a.polls += polls;
                a.events += events;
                a.runs += nruns;
                a.rerun += rerun;
                a.rerun_bad += rerun_bad;
            });
        }
    });
    let a = agg.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let mut rc = 0;
    let mut nviol = 0;
    for (t, n) in known_hits.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {} ({} runs)", p.id, t, n);
    }
    let mut samples: Vec<Value> = vec![];
    let bad = best_bad.into_inner().unwrap();
    if let Some((i, v, choices)) = &bad {
        nviol = 1;
        rc = 1;
        let scn = &p.scns[scn_of(p, *i)];
        println!("run {i} (scenario {}) violates {}: {}: {}", scn.name, p.id, v.class, v.msg);
        let wslot = o.threads;
        let wf = |c: &Arc<Ctx>| {
            *watch.slots[wslot].lock().unwrap() = Some((Instant::now(), *i, c.clone()));
        };
        let mut test = |cand: &Vec<u32>| -> Option<Vec<u32>> {
            let o = execute(scn.run, Source::Replay(cand.clone()), false, &wf);
            match o.violation {
                Some(x) if x.class == v.class => Some(trim(o.choices)),
                _ => None,
            }
        };
        let small = shrink(choices.clone(), Duration::from_secs(if thorough { 60 } else { 15 }), &mut test);
        let full = execute(scn.run, Source::Replay(small.clone()), true, &wf);
        *watch.slots[wslot].lock().unwrap() = None;
        let path = format!("{}/replays/{}-{}-{}.json", o.root, p.id, o.seed, i);
        let (full, shrunk) = if full.violation.as_ref().map_or(false, |x| x.class == v.class) {
            (full, true)
        } else {
            (execute(scn.run, Source::Replay(choices.clone()), true, &|_| {}), false)
        };
        write_replay(&path, p.id, scn.name, o.seed, *i, &full, shrunk);
        println!("minimised {} choices to {}; event trace:", choices.len(), full.choices.len());
        for l in full.trace.iter().flatten().take(120) {
            println!("  {l}");
        }
        // replay in a fresh process
        let exe = std::env::current_exe().unwrap();
        let r = std::process::Command::new(exe).arg("replay").arg(&path).arg("--quiet").status();
        println!("replay in a fresh process reproduces: {}", matches!(r, Ok(s) if s.code() == Some(1)));
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    // two sample runs written out
    for k in 0..2u64 {
        let i = o.start + k * 7;
        if bad.is_some() {
            break;
        }
        let scn = &p.scns[scn_of(p, i)];
        let out = execute(scn.run, Source::Random(Rng::new(run_seed(o.seed, p.id, i))), true, &|_| {});
        let tr = out.trace.unwrap_or_default();
        samples.push(json!({
            "run_index": i, "scenario": scn.name, "events": tr.len(),
            "trace": tr.into_iter().take(60).collect::<Vec<_>>(),
        }));
    }
    if let Some((i, v, _)) = &bad {
        samples.push(json!({"run_index": i, "violation": v.class, "message": v.msg}));
    }
    done.store(true, SeqCst);
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<_, _> = a.counters.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<_, _> = a.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let ev = json!({
        "property": p.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontriv.len(),
            "rule": p.rule,
            "samples": samples,
            "explanation": "One evaluation is one complete simulated execution decided by one seed. distinct = distinct event-log hashes (every poll, readiness result, call, completion, drop, time step and fault in order); nontrivial is set by the scenario (see rule).",
            "distinct_interleavings": a.hashes.len(),
            "runs_per_scenario": a.per_scn,
            "runs_per_hour": (a.runs as f64 / search_s * 3600.0) as u64,
            "simulated_ms": a.sim_ms,
            "scheduler_steps": a.steps,
            "task_polls": a.polls,
            "events": a.events,
            "faults_injected": faults,
            "probes": probes,
            "determinism_reruns": a.rerun,
            "determinism_mismatches": a.rerun_bad,
            "real_code": p.real,
            "stubbed": p.stub,
        },
        "assumptions": ["the simulator's stubs are legal environments for tower", "a clean batch is evidence for the explored seeds only", "tokio, tokio-util, futures and hdrhistogram are trusted"],
        "wall_s": wall,
        "violations": nviol,
    });
    if o.write_evidence {
        let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
        let _ = std::fs::write(
            format!("{}/evidence/{}.json", o.root, p.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        );
    }
    println!(
        "{} {}: {} runs, {} distinct, {} distinct non-trivial, {:.1} s simulated, {:.1} s wall, violations {}",
        p.id, o.tier, a.runs, a.hashes.len(), a.nontriv.len(), a.sim_ms as f64 / 1000.0, wall, nviol
    );
    if a.rerun_bad > 0 {
        println!("WARNING: {} of {} re-executed runs were not deterministic", a.rerun_bad, a.rerun);
    }
    rc
}

pub fn replay(props: &[Prop], path: &str, quiet: bool) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let j: Value = match serde_json::from_str(&s) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("bad replay file: {e}");
            return 2;
        }
    };
    let id = j["property"].as_str().unwrap_or("");
    let scn = j["scenario"].as_str().unwrap_or("");
    let want = j["class"].as_str().unwrap_or("").to_string();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let Some(sc) = p.scns.iter().find(|x| x.name == scn) else {
        eprintln!("unknown scenario {scn}");
        return 2;
    };
    if want == "abort" && std::env::var_os("SIM_CHILD").is_none() {
        let died = died(&child(&["replay", path, "--quiet"]).status());
        if !died {
            println!("replay: the process did not die");
            return 0;
        }
        if !quiet {
            println!("class abort: the run killed its process again");
            println!("VIOLATION property={id} replay={path}");
        }
        return 1;
    }
    let choices: Vec<u32> = j["choices"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
        .unwrap_or_default();
    let pid = id.to_string();
    let ppath = path.to_string();
    std::thread::spawn(move || {
        std::thread::sleep(WATCHDOG);
        println!("replay: hang");
        println!("VIOLATION property={pid} replay={ppath}");
        std::process::exit(1);
    });
    let o = execute(sc.run, Source::Replay(choices), true, &|_| {});
    if !quiet {
        for l in o.trace.iter().flatten() {
            println!("{l}");
        }
    }
    match o.violation {
        Some(v) => {
            let same_hash = j["hash"].as_str() == Some(&format!("{:016x}", o.hash));
            if !quiet {
                println!("class {} (recorded {want}); event log identical: {same_hash}", v.class);
                println!("VIOLATION property={id} replay={path}");
            }
            if v.class == want && same_hash {
                1
            } else {
                3
            }
        }
        None => {
            if !quiet {
                println!("replay: no violation");
            }
            0
        }
    }
}


// ---------------------------------------------------------------- runs that kill the process

fn child(args: &[&str]) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
    c.args(args).env("SIM_CHILD", "1");
    c
}
fn died(r: &std::io::Result<std::process::ExitStatus>) -> bool {
    matches!(r, Ok(s) if s.code().is_none())
}

/// Executes one run, from its seed or from a choice sequence, writing every
/// choice to `tee` as it is drawn.
pub fn one(p: &Prop, seed: u64, i: u64, choices: Option<&str>, tee: &str) -> i32 {
    let scn = &p.scns[scn_of(p, i)];
    let src = match choices {
        Some(f) => Source::Replay(read_choices(f)),
        None => Source::Random(Rng::new(run_seed(seed, p.id, i))),
    };
    std::thread::spawn(|| {
        std::thread::sleep(WATCHDOG);
        std::process::exit(3);
    });
    execute(scn.run, src, false, &|c| c.lock().tee = std::fs::File::create(tee).ok());
    0
}
fn read_choices(f: &str) -> Vec<u32> {
    std::fs::read(f)
        .unwrap_or_default()
        .chunks_exact(4)
        .map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
        .collect()
}

/// Runs the search in a child process, so that a run which kills its process
/// (a panic while unwinding, a stack overflow, memory exhaustion) is reported.
pub fn guarded(p: &Prop, seed: u64, root: &str) -> i32 {
    let dir = format!("{root}/replays/.{}-{}", p.id, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let rc = guarded_in(p, seed, root, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    rc
}
fn guarded_in(p: &Prop, seed: u64, root: &str, dir: &str) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let progress = format!("{dir}/progress");
    let r = child(&args).env("SIM_PROGRESS", &progress).status();
    if !died(&r) {
        return r.ok().and_then(|s| s.code()).unwrap_or(2);
    }
    println!("the search process died ({:?}); looking for the run that killed it", r);
    let mut cand: Vec<u64> = std::fs::read(&progress)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
        .filter(|x| *x > 0)
        .map(|x| x - 1)
        .collect();
    cand.sort();
    let tee = format!("{dir}/tee");
    let feed = format!("{dir}/choices");
    let seed_s = seed.to_string();
    let tier = if args.get(2) == Some(&"thorough") { "thorough" } else { "quick" };
    for i in cand {
        let i_s = i.to_string();
        let quiet = |c: &mut std::process::Command| {
            c.env("VERIF_SEED", &seed_s).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null());
        };
        let mut c = child(&["one", p.id, &i_s, &tee]);
        quiet(&mut c);
        let st = c.status();
        let hang = matches!(&st, Ok(s) if s.code() == Some(3));
        if !died(&st) && !hang {
            continue;
        }
        let start = read_choices(&tee);
        let n = start.len();
        let mut test = |cand: &Vec<u32>| -> Option<Vec<u32>> {
            let bytes: Vec<u8> = cand.iter().flat_map(|x| x.to_le_bytes()).collect();
            let _ = std::fs::write(&feed, bytes);
            let mut c = child(&["one", p.id, &i_s, &tee, &feed]);
            quiet(&mut c);
            died(&c.status()).then(|| trim(read_choices(&tee)))
        };
        let small = if hang { start } else { shrink(start, Duration::from_secs(40), &mut test) };
        println!("run {i}: minimised {n} choices to {}", small.len());
        let path = format!("{root}/replays/{}-{}-{}-abort.json", p.id, seed, i);
        let j = json!({"property": p.id, "scenario": p.scns[scn_of(p, i)].name, "verif_seed": seed, "run_index": i,
            "minimised": !hang, "class": if hang { "hang" } else { "abort" },
            "message": if hang { "a single poll did not return within 20 s of real time" } else { "the run killed the process it executed in" },
            "hash": "", "choices": small, "trace": []});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        let ev = json!({"property": p.id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": i + 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [j]},
            "assumptions": [], "wall_s": 0.0, "violations": 1});
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        let _ = std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap());
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    println!("no single run kills a process on its own");
    2
}
