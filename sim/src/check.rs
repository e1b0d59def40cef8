//! The driver: many seeded runs, replay, minimisation, evidence.

use crate::exec::{execute, Outcome};
use crate::gen;
use crate::oracle::Violation;
use crate::plan::*;
use crate::rng::hash2;
use crate::run::Env;
use crate::world::{self, World, WorldSpec};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Scratch space of this process, removed at the end.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        // Directories of checks that were killed.
        if let Ok(rd) = std::fs::read_dir(base) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                if let Some(pid) = n.strip_prefix("swcsim-") {
                    if !Path::new(&format!("/proc/{}", pid.trim_start_matches('0'))).exists() {
                        let _ = std::fs::remove_dir_all(e.path());
                    }
                }
            }
        }
        let p = PathBuf::from(format!("{}/swcsim-{:08}", base, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Worlds are built on demand and shared by all workers.
pub struct Worlds {
    dir: PathBuf,
    map: Mutex<HashMap<WorldSpec, Arc<Mutex<Option<Arc<World>>>>>>,
    n: AtomicU64,
}
impl Worlds {
    pub fn new(dir: PathBuf) -> Self {
        Worlds { dir, map: Default::default(), n: AtomicU64::new(0) }
    }
    pub fn get(&self, spec: &WorldSpec) -> Arc<World> {
        let slot = self.map.lock().unwrap().entry(spec.clone()).or_default().clone();
        let mut s = slot.lock().unwrap();
        if let Some(w) = &*s {
            return w.clone();
        }
        let k = self.n.fetch_add(1, Ordering::SeqCst);
        let w = Arc::new(world::build(spec, &self.dir.join(format!("world{:04}", k))));
        *s = Some(w.clone());
        w
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub what: String,
    pub verif_seed: u64,
    pub run: u64,
    /// Condensed record of everything the run did; a replay must produce the same.
    pub digest: String,
    pub plan: Plan,
    /// What happened, for the reader.
    pub trace: Vec<String>,
}

pub struct Tier {
    pub name: String,
    pub runs: u64,
    pub worlds: u64,
    pub cap: Duration,
}

pub fn tier(name: &str, property: &str) -> Tier {
    let (runs, cap) = match name {
        "thorough" => (12_000, 840),
        _ => (
            match property {
                "C06" | "C07" => 420,
                "C13" => 4000,
                "C11" => 320,
                "C12" | "C09" => 1000,
                "C15" | "C16" => 1400,
                "C17" | "C18" => 2400,
                _ => 700,
            },
            200,
        ),
    };
    let runs = std::env::var("SWCSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs);
    Tier { name: name.into(), runs, worlds: if name == "thorough" { 120 } else { 32 }, cap: Duration::from_secs(cap) }
}

fn profile_of_cli(property: &str) -> bool {
    ["C15", "C16", "C17", "C18"].contains(&property)
}

pub fn plan_of(property: &str, verif_seed: u64, run: u64, worlds: u64, ws: &Worlds) -> (Plan, Arc<World>) {
    let mut spec = gen::world_spec(property, hash2(verif_seed, 0x3000 + run % worlds) % 1_000_000);
    if property == "C10" && run % worlds == 7 {
        spec.special = "many".into();
    }
    if property == "C09" && [5, 21].contains(&(run % worlds)) {
        spec.special = "refs".into();
    }
    if ["C01", "C05", "C10", "C11", "C14", "C15", "C16", "C17"].contains(&property) && (run % worlds == 11 || profile_of_cli(property) && run % worlds == 27) {
        spec.special = "rows".into();
    }
    if property == "C18" && run % (2 * worlds) == 6 {
        spec.max_comps = 17;
    }
    let w = ws.get(&spec);
    let seed = hash2(hash2(verif_seed, 0x77), run);
    (gen::plan(property, seed, &spec, &w), w)
}

#[derive(Default)]
struct Total {
    runs: u64,
    nontrivial: u64,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    other: BTreeMap<String, u64>,
    sched: BTreeSet<u64>,
    shapes: BTreeSet<u64>,
    logs: BTreeSet<u64>,
    stats: crate::hist::Stats,
    samples: Vec<serde_json::Value>,
    errors: Vec<String>,
    reruns: u64,
    mismatches: u64,
    found: Vec<(u64, Plan, Violation)>,
}

pub fn sample(run: u64, plan: &Plan, o: &Outcome) -> serde_json::Value {
    json!({
        "run": run,
        "seed": plan.seed,
        "profile": plan.profile,
        "operations": plan.ops.iter().filter(|x| x.at_us != EPILOGUE).take(12).map(|x| format!("{} us: {}{}", x.at_us, crate::oracle::describe(x), if x.client == Client::Normal { String::new() } else { format!(" {:?}", x.client) })).collect::<Vec<_>>(),
        "command_lines": plan.cli.iter().map(|c| c.args.join(" ")).collect::<Vec<_>>(),
        "faults": plan.faults.iter().map(|f| format!("{:?}", f)).collect::<Vec<_>>(),
        "fired": o.fired,
        "schedule_deviations": o.devs.iter().map(|d| d.len()).sum::<usize>(),
        "decisions": o.stats.steps,
        "simulated_s": o.stats.sim_ns as f64 / 1e9,
    })
}

fn add(m: &mut BTreeMap<String, u64>, x: &BTreeMap<String, u64>) {
    for (k, v) in x {
        *m.entry(k.clone()).or_default() += v;
    }
}

pub fn known_lines(root: &Path, property: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(root.join("KNOWN_FINDINGS")).unwrap_or_default();
    let tag = format!("finding: property={} ", property);
    s.lines().filter_map(|l| l.strip_prefix(&tag)).filter_map(|l| l.split_once(' ')).map(|(id, what)| (id.to_string(), what.to_string())).collect()
}

pub fn check(property: &str, tier_name: &str, env: &Env, root: &Path) -> i32 {
    let start = Instant::now();
    let verif_seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    println!("property {} tier {} VERIF_SEED {}", property, tier_name, verif_seed);
    let t = tier(tier_name, property);
    let scratch = Scratch::new();
    let ws = Worlds::new(scratch.0.clone());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Total::default());
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    std::thread::scope(|s| {
        for k in 0..workers {
            let (next, stop, total, ws, t) = (&next, &stop, &total, &ws, &t);
            let dir = scratch.0.join(format!("w{:02}", k));
            s.spawn(move || loop {
                let run = next.fetch_add(1, Ordering::SeqCst);
                if run >= t.runs || stop.load(Ordering::SeqCst) || start.elapsed() > t.cap {
                    return;
                }
                let (plan, w) = plan_of(property, verif_seed, run, t.worlds, ws);
                let o = execute(&plan, env, &w, &dir);
                // Same plan, same worker count, other worker: must give the same record.
                let again = if run % 40 == 7 { Some(execute(&plan, env, &w, &dir)) } else { None };
                let mut tt = total.lock().unwrap();
                tt.runs += 1;
                if let Some(e) = &o.harness_error {
                    tt.errors.push(format!("run {}: {}", run, e));
                }
                if let Some(a) = again {
                    tt.reruns += 1;
                    if a.digest != o.digest {
                        tt.mismatches += 1;
                        let k = a.events.iter().zip(&o.events).position(|(x, y)| x != y).unwrap_or(a.events.len().min(o.events.len()));
                        eprintln!("run {} is not deterministic: event {} {:?} / {:?}, {:?} / {:?}", run, k, o.events.get(k), a.events.get(k), o.stats, a.stats);
                        for (x, y) in o.parts.iter().zip(&a.parts).filter(|(x, y)| x != y).take(5) {
                            eprintln!("  {:?} / {:?}", x, y);
                        }
                    }
                }
                add(&mut tt.fired, &o.fired);
                add(&mut tt.probes, &o.probes);
                add(&mut tt.other, &o.other);
                tt.sched.extend(o.sched.iter());
                if o.nontrivial && tt.logs.insert(o.digest) {
                    tt.nontrivial += 1;
                }
                tt.shapes.insert(o.shape);
                let x = &mut tt.stats;
                x.steps += o.stats.steps;
                x.switches += o.stats.switches;
                x.choice_points += o.stats.choice_points;
                x.sim_ns += o.stats.sim_ns;
                x.git += o.stats.git;
                x.threads = x.threads.max(o.stats.threads);
                x.clock_reads += o.stats.clock_reads;
                if run < 3 {
                    let v = sample(run, &plan, &o);
                    tt.samples.push(v);
                }
                if let Some(v) = o.violations.first() {
                    let mut p = plan.clone();
                    p.devs = Some(o.devs.clone());
                    tt.found.push((run, p, v.clone()));
                    if tier_name != "thorough" || tt.found.len() >= 5 {
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let mut tt = total.into_inner().unwrap();
    tt.found.sort_by_key(|f| f.0);
    let search_s = start.elapsed().as_secs_f64();

    // Findings that are recorded instead of repaired: demonstrated every time, reported as such.
    let mut known = Vec::new();
    for (id, what) in known_lines(root, property) {
        if let Some((plan, w, class, needle)) = gen::finding(&id, &ws) {
            let o = execute(&plan, env, &w, &scratch.0.join("k00"));
            if o.violations.iter().any(|v| v.class == class && v.text.contains(&needle)) {
                println!("KNOWN-FINDING: property={} {} {}", property, id, what);
                known.push(json!({"id": id, "what": what, "shown": true}));
                continue;
            }
        }
        known.push(json!({"id": id, "what": what, "shown": false}));
    }

    let mut code = 0;
    let mut violations = 0;
    let mut unreproducible = 0;
    for (run, plan, v) in tt.found.iter().take(3) {
        let w = ws.get(&plan.world);
        let dir = scratch.0.join("m00");
        let Some((small, o, v2)) = minimise(plan, v.class, env, &w, &dir, &ws, if violations == 0 { 90 } else { 15 }) else {
            unreproducible += 1;
            println!("not reproducible, ignored: run {} {} {}", run, v.class, v.text);
            continue;
        };
        violations += 1;
        code = 1;
        let out = root.join("out").join(property);
        let _ = std::fs::create_dir_all(&out);
        let path = out.join(format!("replay-{}-{}.json", verif_seed, run));
        let r = Replay {
            property: property.into(),
            class: v2.class.into(),
            what: v2.text.clone(),
            verif_seed,
            run: *run,
            digest: format!("{:016x}", o.digest),
            plan: small,
            trace: o.events.clone(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("write replay");
        println!("{}: {}", v2.class, v2.text);
        println!("VIOLATION property={} replay={}", property, path.display());
    }
    let errors = tt.errors.len();
    for e in tt.errors.iter().take(5) {
        println!("harness error: {}", e);
    }
    let wall = start.elapsed().as_secs_f64();
    let real = match property {
        "C15" | "C16" | "C17" | "C18" => "the unmodified subweight binary (all of its Rust code, including argument parsing and table rendering), the real git binary, a real file system",
        _ => "the unmodified subweight-web binary (actix runtime, HTTP parsing, handlers, cache, comparison core, page rendering) with all its threads, and for some runs the subweight binary; the real git binary with real repositories; a real file system",
    };
    let ev = json!({
        "property": property,
        "tier": t.name,
        "seed": verif_seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tt.runs,
            "distinct_nontrivial": tt.nontrivial,
            "rule": "one evaluation = one simulated run of the whole program, made from a seed that decides repositories, history of the remote, operations, thread schedule, durations, faults and I/O noise; non-trivial = at least two requests were answered (or a command line run ended) and at least one git step or file of a repository was involved; distinct = the complete event log (times, schedules, answers) differs from every other run",
            "samples": tt.samples,
            "runs_per_hour": (tt.runs as f64 / search_s * 3600.0).round(),
            "seeds_per_hour": (tt.runs as f64 / search_s * 3600.0).round(),
            "runs_planned": t.runs,
            "simulated_s": tt.stats.sim_ns as f64 / 1e9,
            "simulated_s_per_wall_s": tt.stats.sim_ns as f64 / 1e9 / search_s,
            "scheduling_decisions": tt.stats.steps,
            "decisions_with_a_choice": tt.stats.choice_points,
            "thread_switches": tt.stats.switches,
            "threads_at_most": tt.stats.threads,
            "clock_reads": tt.stats.clock_reads,
            "faults_fired": tt.fired,
            "probes": tt.probes,
            "distinct_thread_schedules": tt.sched.len(),
            "distinct_interleavings": tt.shapes.len(),
            "interleaving_measure": "order of request arrivals, answers, git step beginnings and ends with their connection and sub-command, without times",
            "determinism_reruns": tt.reruns,
            "determinism_mismatches": tt.mismatches,
            "observations_belonging_to_other_properties": tt.other,
            "known_findings": known,
            "harness_errors": errors,
            "not_reproducible": unreproducible,
            "real_components": real,
            "stubbed_components": "thread scheduler, clocks and timers, random numbers, TCP (unix sockets inside the scratch directory), CPU count, the network between git and GitHub (a local bare repository per remote), git steps that a fault replaces, order of directory entries",
        },
        "assumptions": [
            "a crash kills the server and the git processes it started",
            "threads interleave at synchronisation, system call, spawn, file and socket operations; code between two of these runs undisturbed",
            "git itself behaves as the installed version does; faults cover its failing, dying half-way, leaving locks and producing damaged output",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let ed = root.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", property)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
    println!(
        "{} runs in {:.1} s, {:.0} simulated s, {} schedules, {} interleavings, faults {:?}, other {:?}, {} mismatches of {} reruns",
        tt.runs,
        wall,
        tt.stats.sim_ns as f64 / 1e9,
        tt.sched.len(),
        tt.shapes.len(),
        tt.fired.values().sum::<u64>(),
        tt.other,
        tt.mismatches,
        tt.reruns
    );
    if code == 0 && (errors as u64 * 20 > tt.runs || tt.runs == 0) {
        println!("too many harness errors");
        return 2;
    }
    code
}

/// Removes chunks of a list while the failure stays, largest chunks first.
fn ddmin<T: Clone>(list: &[T], test: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = list.to_vec();
    let mut n = 2usize;
    if cur.is_empty() || test(&[]) {
        return vec![];
    }
    while cur.len() > 1 {
        let size = cur.len().div_ceil(n);
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() {
            let mut c = cur.clone();
            c.drain(i..(i + size).min(c.len()));
            if test(&c) {
                cur = c;
                reduced = true;
                n = (n - 1).max(2);
                break;
            }
            i += size;
        }
        if !reduced {
            if size == 1 {
                break;
            }
            n = (n * 2).min(cur.len());
        }
    }
    cur
}

/// Shrinks a failing plan; None if it does not fail again.
pub fn minimise(plan: &Plan, class: &str, env: &Env, w: &World, dir: &Path, _ws: &Worlds, budget_s: u64) -> Option<(Plan, Outcome, Violation)> {
    let start = Instant::now();
    let mut best: Option<(Plan, Outcome, Violation)> = None;
    let mut tries = 0;
    let mut run = |p: &Plan, force: bool| -> Option<(Outcome, Violation)> {
        if !force && (start.elapsed().as_secs() >= budget_s || tries > 600) {
            return None;
        }
        tries += 1;
        let o = execute(p, env, w, dir);
        let v = o.violations.iter().find(|v| v.class == class)?.clone();
        Some((o, v))
    };
    let (o, v) = run(plan, true)?;
    best.replace((plan.clone(), o, v));
    let mut cur = plan.clone();
    // From here on with the seeded schedule as long as that still fails, since recorded decisions do not fit a shortened run.
    let mut free = cur.clone();
    free.devs = None;
    let mut none = cur.clone();
    none.devs = Some(vec![]);
    if let Some((o, v)) = run(&none, false) {
        best = Some((none.clone(), o, v));
        cur = none;
    } else if let Some((o, v)) = run(&free, false) {
        best = Some((free.clone(), o, v));
        cur = free;
    }
    macro_rules! attempt {
        ($p:expr) => {{
            let p: Plan = $p;
            if p != cur {
                if let Some((o, v)) = run(&p, false) {
                    cur = p.clone();
                    best = Some((p, o, v));
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    {
        let mut p = cur.clone();
        p.noise = Noise { seed: p.noise.seed, ..Default::default() };
        attempt!(p);
        let mut p = cur.clone();
        p.preempt_pm = 0;
        attempt!(p);
        let mut p = cur.clone();
        p.ops.retain(|o| o.at_us != EPILOGUE || matches!(o.kind, Kind::Repair));
        attempt!(p);
    }
    for _round in 0..2 {
        let base = cur.clone();
        let faults = ddmin(&base.faults, &mut |f| {
            let mut p = base.clone();
            p.faults = f.to_vec();
            attempt!(p)
        });
        let mut b2 = cur.clone();
        b2.faults = faults;
        let base = cur.clone();
        ddmin(&base.ops, &mut |x| {
            let mut p = base.clone();
            p.ops = x.to_vec();
            attempt!(p)
        });
        let base = cur.clone();
        ddmin(&base.cli, &mut |x| {
            let mut p = base.clone();
            p.cli = x.to_vec();
            !x.is_empty() && attempt!(p)
        });
        for k in 0..cur.ops.len() {
            if k < cur.ops.len() && cur.ops[k].client != Client::Normal {
                let mut p = cur.clone();
                p.ops[k].client = Client::Normal;
                attempt!(p);
            }
        }
        // Faults are addressed by position; after dropping operations an earlier one may do.
        for k in 0..cur.faults.len() {
            let n = cur.faults[k].nth;
            for m in [0, n / 4, n / 2] {
                if m < cur.faults[k].nth {
                    let mut p = cur.clone();
                    p.faults[k].nth = m;
                    if attempt!(p) {
                        break;
                    }
                }
            }
        }
    }
    // Finally pin the schedule and drop the decisions that do not matter.
    if cur.devs.is_none() {
        let mut p = cur.clone();
        p.devs = Some(best.as_ref().unwrap().1.devs.clone());
        attempt!(p);
    }
    if let Some(devs) = cur.devs.clone() {
        for i in 0..devs.len() {
            let base = cur.clone();
            ddmin(&devs[i], &mut |d| {
                let mut p = base.clone();
                p.devs.as_mut().unwrap()[i] = d.to_vec();
                attempt!(p)
            });
        }
    }
    best
}

pub fn replay(path: &Path, env: &Env) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("parse replay");
    let scratch = Scratch::new();
    let ws = Worlds::new(scratch.0.clone());
    let w = ws.get(&r.plan.world);
    let o = execute(&r.plan, env, &w, &scratch.0.join("m00"));
    let same = format!("{:016x}", o.digest) == r.digest;
    println!("recorded run reproduced exactly: {}", same);
    match o.violations.iter().find(|v| v.class == r.class) {
        Some(v) => {
            println!("{}: {}", v.class, v.text);
            println!("VIOLATION property={} replay={}", r.property, path.display());
            1
        }
        None => {
            println!("no violation of {} ({})", r.property, r.class);
            0
        }
    }
}
