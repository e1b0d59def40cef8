//! Executes a plan and judges it.

use crate::gen;
use crate::hist::*;
use crate::oracle::{self, Violation};
use crate::plan::*;
use crate::run::{Engine, Env};
use crate::world::World;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// Violations of the property the plan was made for.
    pub violations: Vec<Violation>,
    /// Observations that concern other properties; not judged here.
    pub other: BTreeMap<String, u64>,
    pub stats: Stats,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sched: Vec<u64>,
    pub digest: u64,
    pub shape: u64,
    pub devs: Vec<Vec<(u64, u32)>>,
    pub events: Vec<String>,
    pub harness_error: Option<String>,
    pub nontrivial: bool,
    pub parts: Vec<(String, u64)>,
}

/// Which observations break which property, in the runs made for that property.
pub fn counts_for(property: &str, class: &str) -> bool {
    let wrong = ["wrong-answer", "wrong-revision", "bad-page"];
    let dead = ["server-died", "dropped", "unanswered", "stuck", "livelock", "not-recovered"];
    match property {
        "C01" => wrong.contains(&class) || ["wrong-hit", "unknown-repo-served", "other-arguments"].contains(&class),
        "C02" => wrong.contains(&class) || ["success-despite-failure", "spurious-error", "not-recovered", "wrong-hit", "server-died", "dropped"].contains(&class),
        "C03" => wrong.contains(&class) || ["spurious-error", "wrong-hit", "success-despite-failure"].contains(&class) || dead.contains(&class),
        "C04" => ["shared-checkout", "concurrent-git"].contains(&class),
        "C05" => dead.contains(&class) || ["timeout", "page-error", "bad-status", "page-content", "branches-error"].contains(&class),
        "C06" => wrong.contains(&class) || ["wrong-hit", "stale-hit", "spurious-error", "not-recovered", "success-despite-failure"].contains(&class),
        "C07" => ["computed-twice", "hit-with-git", "no-hit-row", "hit-not-labelled", "wrong-hit", "other-arguments"].contains(&class),
        "C08" => wrong.contains(&class) || ["network-without-pull", "spurious-error", "not-recovered"].contains(&class),
        "C09" => class.starts_with("branches-") || ["not-recovered", "unknown-repo-served", "bad-status"].contains(&class),
        "C10" => wrong.contains(&class) || ["read-error-hidden", "listing-error-hidden", "lenient-gave-up", "spurious-error"].contains(&class),
        "C11" => wrong.contains(&class) || ["different-bytes", "spurious-error"].contains(&class),
        "C12" => {
            wrong.contains(&class)
                || ["escape", "foreign-program", "option-injection", "refspec-injection", "wrong-directory", "unexposed-repo", "unknown-repo-served", "secret-shown", "outside-changed", "local-refs-changed"]
                    .contains(&class)
        }
        "C13" => class.starts_with("start-"),
        "C14" => wrong.contains(&class) || dead.contains(&class) || ["spurious-error", "bad-status", "page-error"].contains(&class),
        _ => class.starts_with("cli-"),
    }
}

fn kind_name(f: &Fault) -> String {
    let k = format!("{:?}", f.kind);
    let k: String = k.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    format!("{:?}/{}", f.class, k)
}

pub fn digest_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Who did what in which order, without times: the interleaving of a run.
fn shape(h: &History) -> u64 {
    let mut v: Vec<(u64, String)> = Vec::new();
    for g in &h.git {
        v.push((g.begin_seq, format!("b{} {} {}", g.conn, g.sub(), g.cwd.replace(&h.scratch, ""))));
        v.push((g.done_seq, format!("e{} {}", g.conn, g.ok)));
    }
    for r in &h.reqs {
        v.push((r.send_seq, format!("s{}", r.op)));
        v.push((r.answer_seq, format!("a{} {:?}", r.op, r.resp.as_ref().map(|x| x.status))));
    }
    for c in &h.cli {
        v.push((0, format!("{:?} {}", c.exit, c.stdout.len())));
    }
    v.sort();
    digest_of(&v)
}

fn merge(o: &mut Outcome, e: &Engine, second: bool) {
    let h = &e.h;
    let s = &h.stats;
    let t = &mut o.stats;
    t.steps += s.steps;
    t.switches += s.switches;
    t.choice_points += s.choice_points;
    t.messages += s.messages;
    t.threads = t.threads.max(s.threads);
    t.clock_reads += s.clock_reads;
    t.git += s.git;
    t.opens += s.opens;
    t.sim_ns += s.sim_ns;
    t.chunked += s.chunked;
    t.eintr += s.eintr;
    t.shuffled += s.shuffled;
    t.aborts += s.aborts;
    t.frags += s.frags;
    t.pushes += s.pushes;
    t.skews += s.skews;
    t.restarts += s.restarts;
    t.short_writes += s.short_writes;
    t.overlapping += s.overlapping;
    for f in &h.fired {
        *o.fired.entry(kind_name(&e.plan.faults[f.idx])).or_default() += 1;
    }
    for (k, n) in [
        ("Read/Short", s.chunked),
        ("Read/Eintr", s.eintr),
        ("Dir/Shuffled", s.shuffled),
        ("Client/Abort", s.aborts),
        ("Client/Fragmented", s.frags),
        ("Remote/Push", s.pushes),
        ("Clock/Jump", s.skews),
        ("Stdout/Short", s.short_writes),
        ("Process/CrashRestart", s.restarts),
        ("Bind/AddressInUse", h.incs.iter().enumerate().filter(|(k, i)| e.plan.setup.taken(*k) && !i.listened).count() as u64),
    ] {
        if n > 0 {
            *o.fired.entry(k.into()).or_default() += n;
        }
    }
    let mut p = |k: &str, n: u64| {
        if n > 0 {
            *o.probes.entry(k.into()).or_default() += n;
        }
    };
    p("git steps", s.git);
    p("git steps begun while another one runs", s.overlapping);
    p("requests", h.reqs.len() as u64);
    p("requests answered 200", h.reqs.iter().filter(|r| r.resp.as_ref().map_or(false, |x| x.status == 200)).count() as u64);
    p("requests answered 500", h.reqs.iter().filter(|r| r.resp.as_ref().map_or(false, |x| x.status == 500)).count() as u64);
    p("requests cut off by a crash", h.reqs.iter().filter(|r| r.crashed).count() as u64);
    p("requests abandoned by the client", h.reqs.iter().filter(|r| r.aborted).count() as u64);
    p("index locks left behind", h.locks.len() as u64);
    p("command line runs", h.cli.len() as u64);
    p("command line runs that succeeded", h.cli.iter().filter(|c| c.exit == Some(crate::proc::Exit::Code(0))).count() as u64);
    p("command line runs that failed", h.cli.iter().filter(|c| matches!(c.exit, Some(crate::proc::Exit::Code(x)) if x != 0)).count() as u64);
    p("command line runs that were killed", h.cli.iter().filter(|c| c.crashed).count() as u64);
    p("file accesses inside the scratch tree", s.opens);
    let hits = h.reqs.iter().filter(|r| r.resp.as_ref().map_or(false, |x| crate::http::find(&x.body, b" hit</td>").is_some_and(|i| crate::http::find(&x.body[i..], b"<td>Yes</td>").is_some_and(|j| j < 60)))).count();
    p("cache hits", hits as u64);
    o.sched.extend(h.incs.iter().map(|i| i.sched_hash));
    if !second {
        o.devs.extend(h.incs.iter().map(|i| i.devs.clone()));
    }
    o.events.extend(h.events.iter().cloned());
    o.digest = digest_of(&(o.digest, e.digest()));
    o.shape = digest_of(&(o.shape, shape(h)));
    o.parts.extend(e.digest_parts());
    if o.harness_error.is_none() {
        o.harness_error = h.harness_error.clone();
    }
}

/// Runs the plan. Everything that happens is a function of the plan and the code.
pub fn execute(plan: &Plan, env: &Env, w: &World, dir: &Path) -> Outcome {
    let odd = dir.with_file_name(format!("o[0]{}", dir.file_name().unwrap().to_string_lossy()));
    let dir = if plan.setup.odd_dir { &odd } else { dir };
    let mut o = Outcome::default();
    let mut all: Vec<Violation> = Vec::new();
    let answered = |h: &History| h.reqs.iter().filter(|r| r.resp.is_some()).count() > 1 && !h.git.is_empty();
    match plan.profile.as_str() {
        "web" => {
            let mut e = Engine::new(plan, env, w, dir);
            e.run_web();
            merge(&mut o, &e, false);
            o.nontrivial = answered(&e.h);
            all.extend(oracle::check_web(&oracle::Ctx { plan, w, h: &e.h }));
        }
        "pair" => {
            // The same plan once more with everything different that must not matter.
            let other = gen::disturbed(plan);
            let mut hs: Vec<History> = vec![];
            for (k, p) in [plan, &other].into_iter().enumerate() {
                let mut e = Engine::new(p, env, w, dir);
                e.run_web();
                if !p.cli.is_empty() {
                    e.run_cli();
                }
                merge(&mut o, &e, k > 0);
                o.nontrivial |= answered(&e.h);
                all.extend(oracle::check_web(&oracle::Ctx { plan: p, w, h: &e.h }));
                hs.push(std::mem::take(&mut e.h));
            }
            all.extend(oracle::check_pair(plan, &hs[0], &hs[1]));
        }
        "start" => {
            let mut e = Engine::new(plan, env, w, dir);
            e.run_web();
            merge(&mut o, &e, false);
            o.nontrivial = !e.h.git.is_empty() || e.h.incs.iter().any(|i| i.exit.is_some());
            let c = oracle::Ctx { plan, w, h: &e.h };
            all.extend(oracle::check_start(&c, &env.statics));
            all.extend(oracle::check_web(&c));
        }
        "cli" => {
            let mut e = Engine::new(plan, env, w, dir);
            e.run_cli();
            merge(&mut o, &e, false);
            o.nontrivial = e.h.cli.iter().any(|c| c.exit == Some(crate::proc::Exit::Code(0)) && !c.stdout.is_empty());
            let n = &plan.noise;
            let reference = if plan.property == "C16" && (n.short_write_pm + n.eintr_write_pm > 0 || !plan.faults.is_empty()) {
                // The same commands with an output that takes everything at once.
                let mut q = plan.clone();
                q.noise = Noise::default();
                q.faults.clear();
                let mut r = Engine::new(&q, env, w, dir);
                r.run_cli();
                Some(std::mem::take(&mut r.h))
            } else {
                None
            };
            all.extend(crate::oracle_cli::check_cli(&oracle::Ctx { plan, w, h: &e.h }, reference.as_ref()));
        }
        p => o.harness_error = Some(format!("unknown profile {}", p)),
    }
    for v in all {
        if counts_for(&plan.property, v.class) {
            o.violations.push(v);
        } else {
            *o.other.entry(v.class.into()).or_default() += 1;
        }
    }
    let _ = std::fs::remove_dir_all(dir);
    o
}
