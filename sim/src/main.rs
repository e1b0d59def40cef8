mod check;
mod exec;
mod gen;
mod hist;
mod http;
mod oracle;
mod oracle_cli;
mod plan;
mod proc;
mod rng;
mod run;
mod weights;
mod world;
use std::path::PathBuf;

fn env() -> run::Env {
    let root = root();
    let p = |k: &str, d: &str| std::env::var(k).map(PathBuf::from).unwrap_or_else(|_| root.join(d));
    run::Env {
        web: p("SWCSIM_WEB", "target/swc/debug/subweight-web"),
        cli: p("SWCSIM_CLI", "target/swc/debug/subweight"),
        shim: p("SWCSIM_SHIM", "target/libswcsim.so"),
        statics: p("SWCSIM_STATIC", "../repo/web/static"),
    }
}

fn root() -> PathBuf {
    std::env::var("SWCSIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check::check(&a[2], a.get(3).map_or("quick", |s| s), &env(), &root()),
        Some("replay") => check::replay(&PathBuf::from(&a[2]), &env()),
        Some("twice") => twice(&a[2], a[3].parse().unwrap()),
        Some("pages") => pages(&PathBuf::from(&a[2])),
        Some("one") => one(&a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: swcsim check <property> [quick|thorough] | replay <file> | one <property> <run>");
            2
        }
    };
    std::process::exit(code);
}

/// Runs a single plan and shows everything that was noticed.
fn one(property: &str, n: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scratch = check::Scratch::new();
    let ws = check::Worlds::new(scratch.0.clone());
    let (plan, w) = check::plan_of(property, seed, n, check::tier("quick", property).worlds, &ws);
    if std::env::var("PLAN").is_ok() {
        println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    }
    let o = exec::execute(&plan, &env(), &w, &scratch.0.join("w00"));
    println!("digest {:016x} error {:?} other {:?} fired {:?} probes {:?}", o.digest, o.harness_error, o.other, o.fired, o.probes);
    for v in &o.violations {
        println!("{} op{} {}", v.class, v.op, v.text);
    }
    0
}

/// Fetches the pages that the real server renders for some configurations, for the simulation of the browser code.
fn pages(out: &std::path::Path) -> i32 {
    const SETS: [&[(&str, &str)]; 4] = [
        &[("polkadot-sdk", "paritytech")],
        &[("polkadot-sdk", "paritytech"), ("substrate", "paritytech"), ("Cumulus", "paritytech")],
        &[("substrate", "paritytech"), ("polkadot-sdk", "paritytech"), ("runtimes", "polkadot-fellows"), ("orml.v2", "open-web3-stack")],
        &[("polkadot-sdk", "paritytech"), ("polkadot", "paritytech")],
    ];
    let scratch = check::Scratch::new();
    let ws = check::Worlds::new(scratch.0.clone());
    let spec = gen::world_spec("C13", 1);
    let w = ws.get(&spec);
    let mut sets = Vec::new();
    for set in SETS {
        let mut p = gen::base("C13", "start", 1, &spec);
        p.noise = plan::Noise::default();
        p.setup.repos = set.iter().map(|x| x.0.to_string()).collect();
        p.setup.extra = set.iter().filter(|x| !w.repos.iter().any(|r| r.name == x.0)).map(|x| (x.0.to_string(), format!("https://github.com/{}/{}", x.1, x.0))).collect();
        let orgs: Vec<String> = set.iter().map(|x| w.repos.iter().find(|r| r.name == x.0).map_or(x.1.to_string(), |r| r.org.clone())).collect();
        for (k, t) in ["/", "/compare-mr"].iter().enumerate() {
            p.ops.push(plan::Op { id: k as u32, at_us: 2_000_000 * (k as u64 + 1), client: plan::Client::Normal, kind: plan::Kind::Get(t.to_string()) });
        }
        let env = env();
        let dir = scratch.0.join("w00");
        let mut e = run::Engine::new(&p, &env, &w, &dir);
        e.run_web();
        let mut bodies = vec![String::new(); 2];
        for r in &e.h.reqs {
            match &r.resp {
                Some(x) if x.status == 200 => bodies[r.op as usize] = String::from_utf8_lossy(&x.body).into_owned(),
                x => {
                    eprintln!("page {} of {:?}: {:?} {:?}", r.op, set, x.as_ref().map(|x| x.status), e.h.harness_error);
                    return 3;
                }
            }
        }
        if bodies.iter().any(|b| b.is_empty()) {
            eprintln!("no page for {:?}: {:?}", set, e.h.incs.iter().map(|i| i.stderr.clone()).collect::<Vec<_>>());
            return 3;
        }
        sets.push(serde_json::json!({"repos": set.iter().zip(&orgs).map(|(x, o)| serde_json::json!({"name": x.0, "org": o})).collect::<Vec<_>>(), "root": bodies[0], "mr": bodies[1]}));
    }
    let mut compares = Vec::new();
    for seed in 1..=2u64 {
        let spec = gen::world_spec("C01", seed);
        let w = ws.get(&spec);
        let mut p = gen::base("C01", "pages", seed, &spec);
        p.noise = plan::Noise::default();
        p.setup.repos = w.repos.iter().map(|r| r.name.clone()).collect();
        let mut queries = compare_queries(&w, seed);
        for (k, q) in queries.iter().enumerate() {
            p.ops.push(plan::Op { id: k as u32, at_us: 2_000_000 + 700_000 * k as u64, client: plan::Client::Normal, kind: plan::Kind::Compare(q.clone()) });
        }
        let env = env();
        let mut e = run::Engine::new(&p, &env, &w, &scratch.0.join("w00"));
        e.run_web();
        let mut pages = Vec::new();
        for r in &e.h.reqs {
            let op = &p.ops[r.op as usize];
            match &r.resp {
                Some(x) if x.status == 200 => pages.push((r.op, serde_json::json!({"target": run::target(op), "args": queries[r.op as usize], "body": String::from_utf8_lossy(&x.body)}))),
                // A filter that cannot be evaluated, or a revision that does not exist.
                _ => {}
            }
        }
        pages.sort_by_key(|x| x.0);
        if pages.len() * 2 < queries.len() {
            eprintln!("only {} of {} comparisons could be rendered: {:?}", pages.len(), queries.len(), e.h.harness_error);
            return 3;
        }
        queries.clear();
        compares.push(serde_json::json!({"repos": w.repos.iter().map(|r| &r.name).collect::<Vec<_>>(), "names": w.repos[0].init.heads.keys().chain(w.repos[0].init.tags.keys()).collect::<Vec<_>>(), "pages": pages.into_iter().map(|x| x.1).collect::<Vec<_>>()}));
    }
    std::fs::write(out, serde_json::to_string(&serde_json::json!({"sets": sets, "compares": compares})).unwrap()).expect("write pages");
    0
}

/// All combinations of some arguments, so that a user can go from page to page, and some less ordinary ones.
fn compare_queries(w: &world::World, seed: u64) -> Vec<plan::Query> {
    let mut g = gen::Gen::new(seed, w);
    let o = gen::QueryOpts { unknown_pm: 0, filters_pm: 800, ..Default::default() };
    let mut base = g.query_for(0, &gen::QueryOpts { unknown_pm: 0, filters_pm: 0, hash_pm: 0, ..Default::default() });
    base.lenient = true;
    base.pattern = world::PATTERNS[0].into();
    base.pull = None;
    let mut v = Vec::new();
    for bits in 0..32u32 {
        let b = |k: u32| bits >> k & 1 == 1;
        let mut q = base.clone();
        q.unit = if b(0) { "proof" } else { "time" }.into();
        q.method = if b(1) { "base" } else { "asymptotic" }.into();
        q.threshold = if b(2) { 0 } else { 10 };
        q.pull = if b(3) { Some(false) } else { None };
        q.pallet = if b(4) { Some("frame".into()) } else { None };
        v.push(q);
    }
    for k in 0..24u32 {
        let mut q = g.query(&o);
        q.lenient = k % 3 > 0;
        match k {
            0 => q.pallet = Some("a&b=c|.*".into()),
            1 => q.extrinsic = Some("x\"y|<b>|.*".into()),
            2 => q.pallet = Some("it's|#1|100%|.*".into()),
            3 => q.pattern = "**/*.rs , **/no+such&one.rs".into(),
            4 => q.threshold = 4_000_000_000,
            5..=9 => q.method = ["base", "guess-worst", "exact-worst", "exact-asymptotic", "asymptotic"][k as usize - 5].into(),
            10 => q.extrinsic = Some("ü|\\s|.*".into()),
            _ => {}
        }
        if (5..=9).contains(&k) {
            q.lenient = true;
        }
        v.push(q);
    }
    v
}

/// Runs a plan twice and shows how the answers differ.
fn twice(property: &str, n: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scratch = check::Scratch::new();
    let ws = check::Worlds::new(scratch.0.clone());
    let (plan, w) = check::plan_of(property, seed, n, check::tier("quick", property).worlds, &ws);
    let env = env();
    let mut prev: Option<Vec<(u32, String)>> = None;
    for k in 0..20 {
        let d = scratch.0.join("w00");
        let mut e = run::Engine::new(&plan, &env, &w, &d);
        e.run_web();
        let v: Vec<(u32, String)> = e.h.reqs.iter().map(|r| (r.op, r.resp.as_ref().map(|x| String::from_utf8_lossy(&x.body).into_owned()).unwrap_or_default())).collect();
        println!("{} {:016x} {:?}", k, e.digest(), e.h.incs.iter().map(|i| i.sched_hash).collect::<Vec<_>>());
        if let Some(p) = &prev {
            for (a, b) in p.iter().zip(&v) {
                if a != b {
                    let i = a.1.bytes().zip(b.1.bytes()).position(|(x, y)| x != y).unwrap_or(0);
                    println!("op{}: {:?} / {:?}", a.0, a.1.get(i.saturating_sub(60)..i + 100), b.1.get(i.saturating_sub(60)..i + 100));
                }
            }
        }
        prev = Some(v);
    }
    0
}
