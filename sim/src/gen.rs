//! Makes the plan of a run from a property, a seed and a generated world.

use crate::plan::*;
use crate::rng::{hash2, Rng};
use crate::weights::{self, METHODS};
use crate::world::*;

pub fn world_spec(property: &str, wseed: u64) -> WorldSpec {
    let mut r = Rng::new(hash2(wseed, 0xA11CE));
    let mut s = WorldSpec { seed: wseed, repos: r.range(1, 3) as u32, commits: r.range(5, 9) as u32, bad_pm: 100, hostile_pm: 0, links: false, max_comps: 3, special: String::new() };
    match property {
        "C01" | "C04" => s.repos = r.range(2, 3) as u32,
        "C05" => {
            s.repos = r.range(2, 3) as u32;
            s.bad_pm = 160;
        }
        "C02" | "C03" | "C15" => {
            s.repos = r.range(1, 2) as u32;
            s.bad_pm = 60;
        }
        "C06" | "C07" => {
            if r.pm(350) {
                s.special = format!("joined{}", r.pick(&["", "", "-", "_", ".", ",", "|", "&", "+"]));
            }
            s.repos = r.range(1, 2) as u32;
            s.commits = 6;
            s.bad_pm = 60;
        }
        "C10" | "C17" => {
            s.repos = 1;
            s.bad_pm = 150;
            if r.pm(120) {
                s.special = "large".into();
            }
        }
        "C12" => {
            s.links = true;
            s.repos = r.range(1, 3) as u32;
        }
        "C14" => {
            s.hostile_pm = 450;
            s.repos = r.range(1, 2) as u32;
            s.commits = 9;
        }
        "C18" => {
            s.repos = 1;
            s.bad_pm = 0;
            s.max_comps = match r.below(40) {
                0 => 17,
                1..=8 => 9,
                _ => 5,
            };
        }
        "C16" => {
            s.repos = 1;
            s.bad_pm = 0;
        }
        _ => {}
    }
    s
}

pub struct Gen<'a> {
    pub r: Rng,
    pub w: &'a World,
    pub ops: Vec<Op>,
    pub refs: Vec<Refs>,
    pub names: Vec<Vec<String>>,
    id: u32,
    /// Pushes may create a branch and a tag of the same name.
    pub twins: bool,
    /// The calls of this world have a dozen components: compare few of them, mostly at their worst corner.
    pub wide: bool,
}

pub struct QueryOpts {
    pub unknown_pm: u64,
    pub nopull_pm: u64,
    pub lenient_pm: u64,
    pub hash_pm: u64,
    pub filters_pm: u64,
}
impl Default for QueryOpts {
    fn default() -> Self {
        QueryOpts { unknown_pm: 40, nopull_pm: 200, lenient_pm: 400, hash_pm: 300, filters_pm: 250 }
    }
}

const FILTER_PALLET: [&str; 10] = [".*", "frame", "weights/pallet_", "^frame/stamp", "assets|balances", "src/weights.rs$", "FRAME", "frame/\\S*/src", "", "Stamp|assets"];
const FILTER_EXT: [&str; 10] = [".*", "stamp", "^transfer$", "bond", "mint|burn|stamp", "^s.*", "STAMP", "\\S*tamp", "", "Mint|BURN"];

impl<'a> Gen<'a> {
    pub fn new(seed: u64, w: &'a World) -> Self {
        let refs: Vec<Refs> = w.repos.iter().map(|r| r.init.clone()).collect();
        let names = refs.iter().map(|r| r.heads.keys().chain(r.tags.keys()).cloned().collect()).collect();
        Gen { r: Rng::new(seed), w, ops: vec![], refs, names, id: 0, twins: false, wide: false }
    }
    pub fn add(&mut self, at_us: u64, kind: Kind) {
        self.id += 1;
        self.ops.push(Op { id: self.id, at_us, kind, client: Client::Normal });
    }
    pub fn add_client(&mut self, at_us: u64, kind: Kind, client: Client) {
        self.id += 1;
        self.ops.push(Op { id: self.id, at_us, kind, client });
    }
    pub fn revision(&mut self, ri: usize, o: &QueryOpts) -> String {
        if self.r.pm(o.unknown_pm) {
            if self.r.pm(400) {
                // A long name of characters of several bytes, shifted by some bytes.
                let c = *self.r.pick(&["ü", "–", "名", "🦀"]);
                let (a, n) = (self.r.idx(5), if self.r.pm(700) { self.r.range(1, 90) } else { self.r.range(90, 700) } as usize);
                return format!("{}{}", &"branch"[..a + 1], c.repeat(n));
            }
            return self.r.pick(&["no-such-branch", "v9.9", "feature/none", "deadbeefdeadbeefdeadbeefdeadbeefdeadbeef"]).to_string();
        }
        if self.r.pm(o.hash_pm) {
            let n = self.w.repos[ri].commits.len();
            let c = self.r.idx(n);
            return self.w.repos[ri].commits[c].hash.clone();
        }
        let n = self.names[ri].clone();
        self.r.pick(&n).clone()
    }
    pub fn query(&mut self, o: &QueryOpts) -> Query {
        let ri = self.r.idx(self.w.repos.len());
        self.query_for(ri, o)
    }
    pub fn query_for(&mut self, ri: usize, o: &QueryOpts) -> Query {
        let old = self.revision(ri, o);
        let mut new = self.revision(ri, o);
        if new == old && !self.r.pm(100) {
            new = self.revision(ri, o);
        }
        let f = self.r.pm(o.filters_pm);
        Query {
            old,
            new,
            repo: self.w.repos[ri].name.clone(),
            pattern: self.r.pick(&PATTERNS).to_string(),
            pallet: if f && self.r.pm(500) { Some(if self.r.pm(25) { weights::RUNAWAY.into() } else { self.r.pick(&FILTER_PALLET).to_string() }) } else { None },
            extrinsic: if f && self.r.pm(500) { Some(self.r.pick(&FILTER_EXT).to_string()) } else { None },
            lenient: self.r.pm(o.lenient_pm),
            threshold: *self.r.pick(&[0, 0, 1, 5, 10, 30]),
            unit: self.r.pick(&["time", "proof", "weight", "time"]).to_string(),
            pull: if self.r.pm(o.nopull_pm) {
                Some(false)
            } else if self.r.pm(300) {
                Some(true)
            } else {
                None
            },
            method: self.r.pick(&METHODS).1.to_string(),
        }
    }
    /// Moves, creates or deletes refs of the remote.
    pub fn push(&mut self, at_us: u64) {
        let ri = self.r.idx(self.w.repos.len());
        self.push_for(ri, at_us)
    }
    pub fn push_for(&mut self, ri: usize, at_us: u64) {
        let n = self.w.repos[ri].commits.len();
        let mut edits = vec![];
        for _ in 0..self.r.range(1, 2) {
            let heads: Vec<String> = self.refs[ri].heads.keys().cloned().collect();
            let tags: Vec<String> = self.refs[ri].tags.keys().cloned().collect();
            let c = self.r.idx(n);
            if self.twins && self.r.pm(250) {
                // A branch and a tag of the same name; not compared, because git prefers one of them.
                let name = self.r.pick(&["twin", "v7.0", "master-1"]).to_string();
                let d = self.r.idx(n);
                for e in [Edit::SetHead(name.clone(), c), Edit::SetTag(name, d, self.r.clone().pm(500))] {
                    e.apply(&mut self.refs[ri]);
                    edits.push(e);
                }
                continue;
            }
            let e = match self.r.below(12) {
                0 => {
                    let name = if self.twins && self.r.pm(300) {
                        // Not compared.
                        let name = self.r.pick(&["refs/heads/weird", "heads/weird", "tags/v1.0", "origin/master", "HEAD-1", "v0.1", "refs/tags/weird", "deadbeefdead"]).to_string();
                        let e = Edit::SetHead(name, c);
                        e.apply(&mut self.refs[ri]);
                        edits.push(e);
                        continue;
                    } else if self.r.pm(350) {
                        self.r.pick(&["x+y", "50%off", "a#b", "ünïcode", "a&b", "feature/a/b/c", "it's", "a=b;c", "Master", "a,b", "–long-–", "v0.9.1", "<b>", "%2e%2e"]).to_string()
                    } else {
                        self.r.pick(&["new-branch", "feature/x", "hotfix"]).to_string()
                    };
                    if !self.names[ri].contains(&name) {
                        self.names[ri].push(name.clone());
                    }
                    Edit::SetHead(name, c)
                }
                1 => {
                    let del: Vec<&String> = heads.iter().filter(|h| *h != "master" && !tags.contains(h)).collect();
                    if del.is_empty() {
                        continue;
                    }
                    Edit::DelHead(self.r.pick(&del).to_string())
                }
                2 => {
                    let name = self.r.pick(&["v3.0", "v1.0", "nightly"]).to_string();
                    if !self.names[ri].contains(&name) {
                        self.names[ri].push(name.clone());
                    }
                    Edit::SetTag(name, c, self.r.pm(500))
                }
                3 if !tags.is_empty() && self.r.pm(300) => Edit::DelTag(self.r.pick(&tags).clone()),
                _ => Edit::SetHead(self.r.pick(&heads).clone(), c),
            };
            e.apply(&mut self.refs[ri]);
            edits.push(e);
        }
        if !edits.is_empty() {
            self.add(at_us, Kind::Push { repo: ri, edits });
        }
    }
    pub fn branches(&mut self) -> Kind {
        let ri = self.r.idx(self.w.repos.len());
        Kind::Branches {
            repo: self.w.repos[ri].name.clone(),
            fetch: *self.r.pick(&[None, Some(false), Some(true), Some(true)]),
        }
    }
    pub fn page(&mut self) -> Kind {
        Kind::Get(self.r.pick(&["/", "/compare-mr", "/version", "/static/root.js", "/compare-commit", "/version/badge"]).to_string())
    }
    /// Requests that have to be answered once everything else is over.
    pub fn epilogue(&mut self) {
        self.add(EPILOGUE, Kind::Repair);
        for ri in 0..self.w.repos.len() {
            let refs = self.refs[ri].clone();
            let names = self.names[ri].clone();
            let heads: Vec<&String> = refs.heads.keys().filter(|h| names.contains(*h)).collect();
            let old = (*self.r.pick(&heads)).clone();
            let new = (*self.r.pick(&heads)).clone();
            self.add(
                EPILOGUE,
                Kind::Compare(Query {
                    old,
                    new,
                    repo: self.w.repos[ri].name.clone(),
                    pattern: "**/*.rs".into(),
                    pallet: None,
                    extrinsic: None,
                    lenient: true,
                    // A value no other request uses, so that it is computed.
                    threshold: 0,
                    unit: "time".into(),
                    pull: Some(true),
                    method: "asymptotic".into(),
                }),
            );
            if let Some(Op { kind: Kind::Compare(q), .. }) = self.ops.last_mut() {
                q.extrinsic = Some("...|stamp".replace("...", ".*"));
            }
            let repo = self.w.repos[ri].name.clone();
            self.add(EPILOGUE, Kind::Branches { repo, fetch: Some(true) });
        }
        self.add(EPILOGUE, Kind::Get("/".into()));
        self.add(EPILOGUE, Kind::Get("/compare-mr".into()));
    }
}

pub fn base(property: &str, profile: &str, seed: u64, spec: &WorldSpec) -> Plan {
    let mut r = Rng::new(hash2(seed, 1));
    let noisy = r.pm(400);
    Plan {
        property: property.into(),
        profile: profile.into(),
        seed,
        world: spec.clone(),
        sched_seed: r.next(),
        hash_seed: r.next(),
        preempt_pm: *r.pick(&[0, 20, 150, 500, 900]),
        devs: None,
        dur_seed: r.next(),
        dur_scale: *r.pick(&[0, 30, 100, 100, 300]),
        ops: vec![],
        cli: vec![],
        faults: vec![],
        noise: Noise {
            seed: r.next(),
            chunk_pm: if noisy { 300 } else { 0 },
            eintr_pm: if noisy { 200 } else { 0 },
            shuffle_pm: if noisy { 700 } else { 0 },
            short_write_pm: 0,
            eintr_write_pm: 0,
        },
        setup: Setup { root_kind: if r.pm(200) { r.pick(&["/", "root", "root/", "./root", "./root/."]).to_string() } else { String::new() }, odd_dir: r.pm(200), log: if r.pm(150) { r.pick(&["info", "info", "info", "debug", "trace"]).to_string() } else { String::new() }, ..Default::default() },
    }
}

pub fn git_fault(r: &mut Rng, horizon: u64, crash: bool) -> Fault {
    let class = *r.pick(&[Class::Git, Class::GitNet, Class::GitTree, Class::GitTree, Class::Git]);
    let errno = *r.pick(&[libc::EAGAIN, libc::ENOMEM, libc::EMFILE, libc::ENOENT]);
    let down_ms = r.range(10, 5000);
    let repair = r.pm(600);
    let frac = r.below(1001) as u32;
    let lock = r.pm(500);
    let kind = if crash && r.pm(800) {
        match r.below(4) {
            0 => FaultKind::CrashBefore { down_ms, repair },
            1 => FaultKind::CrashAfter { down_ms, repair },
            _ => FaultKind::CrashTorn { frac, lock, down_ms, repair },
        }
    } else {
        match r.below(12) {
            9 | 10 => FaultKind::Partial { pm: r.below(1001) as u32, kill: r.pm(500) },
            11 => FaultKind::Loud(*r.pick(&[1, 70, 200])),
            0 => FaultKind::SpawnErr(errno),
            1 if r.pm(500) => FaultKind::Exit { code: *r.pick(&[1, 128]), text: Text::Own, effect: true },
            1 => FaultKind::Exit { code: *r.pick(&[1, 128]), text: Text::Usual(r.below(14) as u32), effect: r.pm(500) },
            2 | 3 => FaultKind::Exit { code: 128, text: r.pick(&[Text::Net, Text::Lock, Text::None]).clone(), effect: false },
            4 => FaultKind::Exit { code: *r.pick(&[1, 128, 255]), text: r.pick(&[Text::Binary, Text::Net]).clone(), effect: r.pm(300) },
            5 => FaultKind::Kill { effect: false },
            6 => FaultKind::Kill { effect: true },
            7 => FaultKind::Torn { frac, lock: false },
            _ => FaultKind::Torn { frac, lock },
        }
    };
    Fault { class, nth: r.below(horizon.max(1)), kind }
}

/// A branch or tag that the clone is told about in one way or another before the remote changes it again.
fn known_then_moved(g: &mut Gen, mut t: u64, o: &QueryOpts) -> u64 {
    let ri = g.r.idx(g.w.repos.len());
    let n = g.w.repos[ri].commits.len();
    let repo = g.w.repos[ri].name.clone();
    let tag = g.r.pm(600);
    let known: Vec<String> = if tag { g.refs[ri].tags.keys().cloned().collect() } else { g.refs[ri].heads.keys().cloned().collect() };
    let name = if known.is_empty() || g.r.pm(400) {
        if tag { "v3.0" } else { "hotfix" }.to_string()
    } else {
        g.r.pick(&known).clone()
    };
    if if tag { g.refs[ri].heads.contains_key(&name) } else { g.refs[ri].tags.contains_key(&name) } {
        return t;
    }
    if !g.names[ri].contains(&name) {
        g.names[ri].push(name.clone());
    }
    let gap = *g.r.pick(&[3_000_000u64, 30_000_000]);
    for k in 0..g.r.range(2, 3) {
        let c = g.r.idx(n);
        let e = match (tag, k > 0 && name != "master" && g.r.pm(150)) {
            (true, false) => Edit::SetTag(name.clone(), c, g.r.pm(400)),
            (false, false) => Edit::SetHead(name.clone(), c),
            (true, true) => Edit::DelTag(name.clone()),
            (false, true) => Edit::DelHead(name.clone()),
        };
        e.apply(&mut g.refs[ri]);
        g.add(t, Kind::Push { repo: ri, edits: vec![e] });
        t += gap;
        if g.r.pm(700) {
            g.add(t, Kind::Branches { repo: repo.clone(), fetch: Some(true) });
            t += gap;
        }
        let mut q = g.query_for(ri, o);
        if g.r.pm(500) { &mut q.new } else { &mut q.old }.clone_from(&name);
        if g.r.pm(700) {
            q.pull = *g.r.pick(&[None, Some(true)]);
        }
        g.add(t, Kind::Compare(q));
        t += gap;
    }
    t
}

fn concurrent(g: &mut Gen, bursts: u64, width: u64, gap_ms: u64, branch_pm: u64, page_pm: u64, push_pm: u64, o: &QueryOpts) -> u64 {
    let mut t = 1_000_000u64;
    for _ in 0..bursts {
        let n = g.r.range(1, width);
        for _ in 0..n {
            let at = t + g.r.below(*g.r.clone().pick(&[1, 2000, 400_000]) as u64);
            let k = if g.r.pm(branch_pm) {
                g.branches()
            } else if g.r.pm(page_pm) {
                g.page()
            } else {
                Kind::Compare(g.query(o))
            };
            g.add(at, k);
        }
        while g.r.pm(push_pm) {
            let at = t + g.r.below(gap_ms * 1000);
            g.push(at);
        }
        t += g.r.range(gap_ms / 4, gap_ms) * 1000;
    }
    t
}

pub fn plan(property: &str, seed: u64, spec: &WorldSpec, w: &World) -> Plan {
    match property {
        "C15" | "C16" | "C17" | "C18" => return cli_plan(property, seed, spec, w),
        _ => {}
    }
    let mut p = base(property, "web", seed, spec);
    let mut g = Gen::new(hash2(seed, 2), w);
    match property {
        "C01" => {
            let o = QueryOpts::default();
            let gap = *g.r.pick(&[300, 2000, 8000]);
            let (b, wd) = (g.r.range(2, 4), g.r.range(2, 6));
            concurrent(&mut g, b, wd, gap, 150, 50, 500, &o);
        }
        "C02" => {
            let o = QueryOpts { unknown_pm: 0, ..Default::default() };
            let gap = *g.r.pick(&[500, 4000]);
            let (b, wd) = (g.r.range(2, 5), g.r.range(1, 3));
            concurrent(&mut g, b, wd, gap, 100, 0, 700, &o);
            let n = g.ops.len() as u64 * 4;
            for _ in 0..g.r.range(1, 3) {
                let f = git_fault(&mut g.r, n, false);
                p.faults.push(f);
            }
        }
        "C03" => {
            let o = QueryOpts { unknown_pm: 0, ..Default::default() };
            let (b, wd) = (g.r.range(3, 5), g.r.range(1, 3));
            concurrent(&mut g, b, wd, 4000, 80, 0, 500, &o);
            let n = g.ops.len() as u64 * 3;
            for _ in 0..g.r.range(1, 2) {
                let f = git_fault(&mut g.r, n, true);
                p.faults.push(f);
            }
            if g.r.pm(250) {
                let at = g.r.range(1_000_000, 20_000_000);
                g.add(at, Kind::Crash(500));
            }
            if g.r.pm(250) {
                // What an interrupted checkout of some other commit leaves behind.
                let ri = g.r.idx(w.repos.len());
                let c = g.r.idx(w.repos[ri].commits.len());
                let at = g.r.range(500_000, 6_000_000);
                let path = g.r.pick(&["frame/leftover/src/weights.rs", "runtime/kusama/src/weights/leftover.rs", "frame/assets/src/weights.rs.orig", "frame/assets/src/old/weights.rs"]).to_string();
                g.add(at, Kind::Debris { repo: ri, path, commit: c });
            }
        }
        "C04" => {
            let o = QueryOpts { unknown_pm: 30, hash_pm: 100, ..Default::default() };
            p.dur_scale = *g.r.pick(&[30, 100, 300]);
            let (b, wd) = (g.r.range(1, 3), g.r.range(3, 6));
            concurrent(&mut g, b, wd, 1500, 400, 50, 200, &o);
        }
        "C05" => {
            let o = QueryOpts { unknown_pm: 150, ..QueryOpts::default() };
            let (b, wd) = (g.r.range(1, 3), g.r.range(2, 6));
            concurrent(&mut g, b, wd, 2000, 300, 250, 200, &o);
            let n = g.ops.len() as u64 * 3;
            for _ in 0..g.r.below(4) {
                let mut f = git_fault(&mut g.r, n, false);
                if g.r.pm(300) {
                    f.kind = FaultKind::Slow(g.r.range(5_000, 120_000));
                }
                if g.r.pm(250) {
                    f.class = Class::GitList;
                    f.nth = g.r.below(4);
                    f.kind = match g.r.below(3) {
                        0 => FaultKind::Loud(*g.r.pick(&[70, 150, 400])),
                        _ => FaultKind::Garbage(g.r.below(6) as u32),
                    };
                } else if g.r.pm(150) {
                    f.kind = FaultKind::Loud(*g.r.pick(&[70, 150, 400]));
                }
                p.faults.push(f);
            }
            let n = g.ops.len();
            for k in 0..n {
                if !matches!(g.ops[k].kind, Kind::Compare(_) | Kind::Branches { .. } | Kind::Get(_)) {
                    continue;
                }
                match g.r.below(6) {
                    0 => g.ops[k].client = Client::Abort { after_us: g.r.below(600_000) },
                    1 => {
                        let piece = g.r.range(1, 60) as usize;
                        let gap_us = *g.r.pick(&[1, 1000, 200_000]);
                        g.ops[k].client = Client::Frag { piece, gap_us }
                    }
                    _ => {}
                }
            }
        }
        "C06" | "C07" => cache(property, &mut g, &mut p),
        "C08" => {
            let o = QueryOpts { unknown_pm: 20, nopull_pm: 350, hash_pm: 200, ..Default::default() };
            p.dur_scale = *g.r.pick(&[0, 100, 300]);
            let gap = *g.r.pick(&[500, 3000]);
            let (b, wd) = (g.r.range(3, 6), g.r.range(1, 3));
            let bp = *g.r.pick(&[0, 200]);
            let mut t = concurrent(&mut g, b, wd, gap, bp, 0, 800, &o) + 20_000_000;
            for _ in 0..*g.r.pick(&[0, 1, 1, 2]) {
                t = known_then_moved(&mut g, t, &o);
            }
        }
        "C09" => {
            let o = QueryOpts { unknown_pm: 0, ..Default::default() };
            g.twins = true;
            let gap = *g.r.pick(&[500, 3000]);
            let (b, wd) = (g.r.range(3, 6), g.r.range(1, 3));
            concurrent(&mut g, b, wd, gap, 850, 0, 700, &o);
            let n = g.ops.len() as u64;
            for _ in 0..g.r.below(4) {
                let mut f = git_fault(&mut g.r, n, false);
                f.class = *g.r.pick(&[Class::GitNet, Class::GitList, Class::Git]);
                if f.class == Class::GitList {
                    f.nth = g.r.below(n / 2 + 2);
                    match g.r.below(4) {
                        0 | 1 => f.kind = FaultKind::Garbage(g.r.below(6) as u32),
                        2 => f.kind = FaultKind::Partial { pm: g.r.below(1001) as u32, kill: g.r.pm(500) },
                        _ => {}
                    }
                }
                p.faults.push(f);
            }
            if g.r.pm(100) {
                g.add(2_000_000, Kind::Branches { repo: "unknown".into(), fetch: Some(true) });
            }
        }
        "C10" => {
            let o = QueryOpts { unknown_pm: 0, lenient_pm: 500, filters_pm: 100, ..Default::default() };
            let b = g.r.range(3, 5);
            concurrent(&mut g, b, 2, 3000, 0, 0, 300, &o);
            let n = g.ops.len() as u64 * 10;
            for _ in 0..g.r.range(1, 3) {
                let f = io_fault(&mut g.r, n);
                p.faults.push(f);
            }
        }
        "C11" => {
            p.profile = "pair".into();
            pair(&mut g, &mut p);
            g.ops.sort_by_key(|o| o.at_us);
            p.ops = g.ops;
            return p;
        }
        "C12" => hostile_args(&mut g, &mut p),
        "C13" => {
            start(&mut g, &mut p);
            g.add(EPILOGUE, Kind::Get("/".into()));
            g.add(EPILOGUE, Kind::Get("/compare-mr".into()));
            g.ops.sort_by_key(|o| o.at_us);
            p.ops = g.ops;
            return p;
        }
        "C14" => {
            let o = QueryOpts { unknown_pm: 0, hash_pm: 700, ..Default::default() };
            let (b, wd) = (g.r.range(3, 6), g.r.range(1, 4));
            concurrent(&mut g, b, wd, 3000, 80, 50, 300, &o);
        }
        _ => {}
    }
    g.epilogue();
    g.ops.sort_by_key(|o| o.at_us);
    p.ops = g.ops;
    p
}

pub fn io_fault(r: &mut Rng, n: u64) -> Fault {
    let errno = *r.pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ELOOP]);
    if r.pm(200) {
        // Every file is looked at several times, and so are the directories on the way.
        return Fault { class: Class::Stat, nth: r.below(n * 4), kind: FaultKind::StatErr(errno) };
    }
    if r.pm(250) {
        let kind = if r.pm(500) { FaultKind::DirErr(*r.pick(&[libc::EIO, libc::EACCES, libc::EMFILE])) } else { FaultKind::DirReadErr { idx: r.below(8), errno: libc::EIO } };
        Fault { class: Class::Dir, nth: r.below(n), kind }
    } else {
        let kind = if r.pm(400) {
            FaultKind::OpenErr(errno)
        } else {
            let off = match r.below(3) {
                0 => 0,
                1 => r.below(400),
                _ => r.below(2500),
            };
            FaultKind::ReadErr { off, errno: libc::EIO }
        };
        Fault { class: Class::Open, nth: r.below(n), kind }
    }
}

fn cache(property: &str, g: &mut Gen, p: &mut Plan) {
    let o = QueryOpts { unknown_pm: 0, hash_pm: 150, filters_pm: 300, ..Default::default() };
    p.dur_scale = *g.r.pick(&[0, 0, 30, 100]);
    let mut pool: Vec<Query> = vec![];
    let q = g.query(&o);
    pool.push(q.clone());
    // Neighbours that differ in exactly one argument.
    let ri = g.w.repos.iter().position(|r| r.name == q.repo).unwrap();
    for _ in 0..g.r.range(2, 6) {
        let mut n = g.r.pick(&pool).clone();
        match g.r.below(13) {
            0 => n.old = g.revision(ri, &o),
            1 => n.new = g.revision(ri, &o),
            2 => std::mem::swap(&mut n.old, &mut n.new),
            3 => {
                let x = g.query(&o);
                n.repo = x.repo;
            }
            4 => n.pattern = g.r.pick(&PATTERNS).to_string(),
            5 => {
                n.pallet = if g.r.pm(300) { None } else { Some(g.r.pick(&FILTER_PALLET).to_string()) }
            }
            6 => {
                n.extrinsic = if g.r.pm(300) { None } else { Some(g.r.pick(&FILTER_EXT).to_string()) }
            }
            7 => n.lenient = !n.lenient,
            8 => n.threshold = *g.r.pick(&[0, 1, 5, 10, 30, 100]),
            9 => n.unit = g.r.pick(&["time", "proof"]).to_string(),
            10 => n.pull = *g.r.pick(&[None, Some(true), Some(false)]),
            11 => {
                // The same characters, split differently between two filters.
                let a = n.pallet.take();
                n.pallet = n.extrinsic.take();
                n.extrinsic = a;
            }
            _ => n.method = g.r.pick(&METHODS).1.to_string(),
        }
        pool.push(n);
    }
    let mut t = 1_000_000u64;
    if let Some(sep) = p.world.special.strip_prefix("joined") {
        // Revisions that look the same when they are put next to each other.
        let name = |n: usize| vec!["x"; n].join(sep);
        for (a, b) in [(1, 3), (2, 2), (3, 1)] {
            let mut x = q.clone();
            x.old = name(a);
            x.new = name(b);
            if x.pallet.is_some() || x.extrinsic.is_some() {
                x.threshold = 0;
            }
            pool.push(x);
        }
    }
    if g.r.pm(80) {
        // More comparisons than a small cache can hold, and the first ones again.
        p.dur_scale = 0;
        let n = *g.r.pick(&[6, 10, 20, 40, 60]);
        let many: Vec<Query> = (0..n)
            .map(|i| {
                let mut x = q.clone();
                x.pull = Some(false);
                x.threshold = 40 + i;
                x
            })
            .collect();
        for x in &many {
            g.add(t, Kind::Compare(x.clone()));
            t += 500_000;
        }
        for x in many.iter().take(4).chain(many.iter().rev().take(2)) {
            g.add(t, Kind::Compare(x.clone()));
            t += 500_000;
        }
        g.push_for(ri, t);
        t += g.r.range(1, 100) * 1_000_000;
        for x in many.iter().take(3) {
            g.add(t, Kind::Compare(x.clone()));
            t += 500_000;
        }
    }
    let rounds = g.r.range(4, 9);
    for _ in 0..rounds {
        let n = if g.r.pm(350) { g.r.range(2, 4) } else { 1 };
        let same = g.r.pm(600);
        let q0 = g.r.pick(&pool).clone();
        for _ in 0..n {
            let q = if same { q0.clone() } else { g.r.pick(&pool).clone() };
            let at = t + g.r.below(*g.r.clone().pick(&[1, 5000, 500_000]));
            g.add(at, Kind::Compare(q));
        }
        if g.r.pm(500) {
            let at = t + g.r.below(2_000_000);
            g.push_for(ri, at);
        }
        if g.r.pm(300) {
            // Everything else that can be asked for in between.
            let at = t + g.r.below(5_000_000);
            let k = match g.r.below(8) {
                0 => g.page(),
                1 => {
                    let mut x = q0.clone();
                    x.new = "no-such-branch".into();
                    Kind::Compare(x)
                }
                2 => {
                    let x = g.r.idx(g.w.repos.len());
                    Kind::Branches { repo: g.w.repos[x].name.clone(), fetch: None }
                }
                _ => Kind::Branches { repo: q0.repo.clone(), fetch: Some(true) },
            };
            g.add(at, k);
        }
        if g.r.pm(200) {
            let at = t + g.r.below(1_000_000);
            let s = *g.r.pick(&[-3600i64, 3600, -700, 700, 86400, -31536000]);
            g.add(at, Kind::Skew(s * 1_000_000_000));
        }
        t += match g.r.below(8) {
            0 => g.r.range(598_000, 602_500) * 1000,
            1 => 599_500_000,
            2 => g.r.range(200, 400) * 1_000_000,
            3 => g.r.range(601, 1500) * 1_000_000,
            4 => g.r.range(560, 600) * 1_000_000,
            _ => g.r.range(1, 100) * 1_000_000,
        };
    }
    let n = g.ops.len() as u64 * 2;
    let m = if property == "C06" { 4 } else { 2 };
    for _ in 0..g.r.below(m) {
        let f = git_fault(&mut g.r, n, false);
        p.faults.push(f);
    }
}

/// The same plan under other circumstances that no answer may show.
pub fn disturbed(p: &Plan) -> Plan {
    let mut r = Rng::new(hash2(p.seed, 0xD157));
    let mut q = p.clone();
    q.sched_seed = r.next();
    q.hash_seed = r.next();
    q.preempt_pm = *r.pick(&[0, 150, 900]);
    q.devs = None;
    q.dur_seed = r.next();
    q.noise = Noise { seed: r.next(), chunk_pm: 500, eintr_pm: 300, shuffle_pm: 900, short_write_pm: 300, eintr_write_pm: 200 };
    q.setup.skew = *r.pick(&[0, 86_400_000_000_000, -7_000_000_000_000_000]);
    for c in &mut q.cli {
        c.hash_seed = r.next();
    }
    q
}

/// Requests that differ in nothing their answer depends on.
fn pair(g: &mut Gen, p: &mut Plan) {
    let o = QueryOpts { unknown_pm: 0, hash_pm: 400, nopull_pm: 250, lenient_pm: 500, filters_pm: 300 };
    let mut pool: Vec<Query> = vec![];
    let mut t = 1_000_000u64;
    for _ in 0..g.r.range(2, 4) {
        let n = g.r.range(1, 4);
        for _ in 0..n {
            let q = if !pool.is_empty() && g.r.pm(350) {
                g.r.pick(&pool).clone()
            } else {
                let mut q = g.query(&o);
                // Whether a commit is there already may depend on earlier requests.
                let hash = |s: &str| s.len() == 40 && s.bytes().all(|b| b.is_ascii_hexdigit());
                if hash(&q.old) || hash(&q.new) {
                    q.pull = Some(true);
                }
                if g.r.pm(600) {
                    q.threshold = 0;
                }
                q
            };
            pool.push(q.clone());
            let at = t + g.r.below(*g.r.clone().pick(&[1, 400_000]));
            g.add(at, Kind::Compare(q));
        }
        if g.r.pm(300) {
            let k = g.page();
            g.add(t + 5000, k);
        }
        if g.r.pm(300) {
            let ri = g.r.idx(g.w.repos.len());
            g.add(t + 7000, Kind::Branches { repo: g.w.repos[ri].name.clone(), fetch: Some(true) });
        }
        t += *g.r.pick(&[5_000_000, 60_000_000, 650_000_000]);
    }
    for _ in 0..g.r.range(1, 2) {
        let mut o2 = QueryOpts { unknown_pm: 0, hash_pm: 0, ..Default::default() };
        o2.filters_pm = 100;
        let mut c = if g.r.pm(500) { g.files_run(0, 100, 9) } else { g.commits_run(&o2) };
        if let Some(i) = c.args.iter().position(|a| a == "--threshold") {
            c.args[i + 1] = "0".into();
        }
        if !c.args.iter().any(|a| a == "--git-force") && c.args[1] == "commits" {
            c.args.push("--git-force".into());
        }
        p.cli.push(c);
    }
}

fn hostile_args(g: &mut Gen, p: &mut Plan) {
    p.setup.static_kind = "local".into();
    let first = g.w.repos[0].name.clone();
    if g.r.pm(600) {
        // A checkout that is not exposed.
        p.setup.extra.push(("hidden".into(), format!("copy:{}", first)));
    }
    if g.w.repos.len() > 1 && g.r.pm(300) {
        p.setup.repos = g.w.repos.iter().skip(1).map(|r| r.name.clone()).collect();
    }
    let exposed: Vec<usize> = (0..g.w.repos.len()).filter(|i| p.setup.repos.is_empty() || p.setup.repos.contains(&g.w.repos[*i].name)).collect();
    let o = QueryOpts { unknown_pm: 0, hash_pm: 300, filters_pm: 0, ..Default::default() };
    const REPOS: [&str; 12] =
        ["hidden", "../secret", "../root/substrate", "substrate/", "./substrate", "", ".", "..", "substrate/../hidden", "Substrate", "substrate\0", "/etc"];
    const REVS: [&str; 44] = [
        "-h", "--help", "--upload-pack=touch pwned", "--upload-pack=$(touch pwned)", "-f", "--orphan=x", "-bpwned", "--detach", "--exec=touch pwned", "-",
        "+refs/heads/master:refs/heads/master", "master:refs/heads/pwned", "refs/heads/dev:refs/heads/master", ":refs/heads/master", "+master:refs/remotes/origin/dev",
        "refs/heads/*:refs/heads/*", "refs/*:refs/*", "*:*", "*", "refs/heads/*", "HEAD", "FETCH_HEAD", "HEAD~1", "master~2", "master^", "@{-1}", "@{u}", ":/c", "^master", "master..dev",
        "origin/master", "refs/heads/master", "refs/remotes/origin/dev", "", " ", "	", "README.md", "frame", "&#45;h", "&plus;master:refs/heads/pwned", "master;touch pwned", "$(touch pwned)", "../../secret", "ext::sh -c touch% pwned",
    ];
    const PATHS: [&str; 32] = [
        "../secret/*.rs", "../../secret/**/*.rs", ".*/.*/secret/*.rs", ".*/.*/secret/**/*.rs", "[.][.]/[.][.]/secret/*.rs", "frame/../../../secret/*.rs", "/etc/passwd", "//etc/passwd",
        "/etc/*", "?.*/secret/*.rs", "..", "**/../*.rs", "frame/link/src/weights.rs", "frame/link2/src/*.rs", "runtime/link/src/weights/*.rs", "frame/zlink/*.rs", "frame/zlink/**/*.rs",
        "&period;&period;/&period;&period;/secret/*.rs", "&#46;&#46;/secret/*.rs", "**/*.rs,../../secret/*.rs", ".git/*", ".git/**/*", "**", "*/.*/.*/.*/secret/*.rs", "***", "[!a]*/**/secret.rs",
        "frame/*/src/weights.rs,../../secret/*.rs", "../../secret/*.rs,**/*.rs", "**/*.rs,/etc/passwd", "frame/*/src/weights.rs,.*/.*/secret/*.rs", ",../../secret/*.rs", "frame/../../../secret/*.rs,frame/*/src/weights.rs",
    ];
    let mut t = 1_000_000u64;
    for _ in 0..g.r.range(5, 12) {
        let ri = *g.r.pick(&exposed);
        let mut q = g.query_for(ri, &o);
        match g.r.below(10) {
            0 | 1 => {
                q.repo = g.r.pick(&REPOS).to_string();
                if g.r.pm(150) {
                    q.repo = first.clone();
                }
            }
            2..=5 => {
                let s = g.r.pick(&REVS).to_string();
                if g.r.pm(500) {
                    q.old = s;
                } else {
                    q.new = s;
                }
                if g.r.pm(200) {
                    q.old = q.new.clone();
                }
            }
            6..=8 => q.pattern = g.r.pick(&PATHS).to_string(),
            _ => {}
        }
        if g.r.pm(150) {
            q.pattern = g.r.pick(&PATHS).to_string();
        }
        let k = match g.r.below(14) {
            0 => Kind::Branches { repo: g.r.pick(&REPOS).to_string(), fetch: Some(true) },
            1 => Kind::Get(
                g.r.pick(&["/static/../secret/secret.rs", "/static/%2e%2e/secret/secret.rs", "/static/..%2fsecret%2fsecret.rs", "/static//../../secret/weights.rs", "/secret/secret.rs", "/static/.%2e/root/hidden/README.md", "/root/substrate/README.md"])
                    .to_string(),
            ),
            _ => Kind::Compare(q),
        };
        g.add(t, k);
        if g.r.pm(150) {
            g.push(t + 100);
        }
        t += *g.r.pick(&[1000, 400_000, 3_000_000]);
    }
}

fn start(g: &mut Gen, p: &mut Plan) {
    p.profile = "start".into();
    let mut names: Vec<String> = g.w.repos.iter().map(|r| r.name.clone()).collect();
    const KINDS: [(&str, &str); 16] = [
        ("extra-fine", "https://github.com/paritytech/extra-fine"),
        ("extra-dotgit", "https://github.com/paritytech/extra-dotgit.git"),
        ("extra-copy", "copy:substrate"),
        ("extra-absent", "absent"),
        ("extra-empty", "empty"),
        ("extra-file", "file"),
        ("extra-noorigin", "noorigin"),
        ("extra-gitlab", "https://gitlab.com/org/extra-gitlab"),
        ("extra-embedded", "https://evil.example/https://github.com/paritytech/x"),
        ("extra-local", "/somewhere/else"),
        ("extra-inparent", "parent"),
        ("extra-bare", "bare"),
        ("substrate/frame", "empty"),
        ("substrate/.git", "absent"),
        ("../secret", "absent"),
        ("extra-ssh", "ssh://gitlab.com:myorg/myrepo"),
    ];
    let n = *g.r.pick(&[0, 0, 1, 1, 1, 2]);
    for _ in 0..n {
        let (name, kind) = *g.r.pick(&KINDS);
        if p.setup.extra.iter().any(|e| e.0 == name) {
            continue;
        }
        p.setup.extra.push((name.into(), kind.into()));
        let at = g.r.idx(names.len() + 1);
        names.insert(at, name.into());
    }
    if g.r.pm(150) {
        let n = g.r.pick(&names).clone();
        names.push(n);
    }
    p.setup.repos = names.clone();
    p.setup.static_kind = g.r.pick(&["", "", "", "", "", "local", "missing", "file"]).to_string();
    if g.r.pm(300) {
        p.setup.tls = g.r.pick(&["valid", "valid", "valid", "valid", "only-cert", "only-key", "no-cert", "no-key", "bad-cert", "bad-key", "cut-key", "swapped", "other-key", "other-key"]).to_string();
    }
    if g.r.pm(250) {
        p.setup.port = g.r.pick(&["80", "443", "8081", "65535", "8080", "65536", "-1", "http"]).to_string();
    }
    if g.r.pm(150) {
        p.setup.endpoint = g.r.pick(&["127.0.0.1", "127.0.0.2", "0.0.0.0", "[::1]", "[::]"]).to_string();
    }
    if g.r.pm(150) {
        p.setup.busy = *g.r.pick(&[1, 2, 3]);
    }
    if g.r.pm(30) {
        p.setup.root_kind = "noroot".into();
    }
    p.setup.no_repos = g.r.pm(20);
    for _ in 0..*g.r.pick(&[0, 0, 1, 1, 2]) {
        let mut f = git_fault(&mut g.r, names.len() as u64 + 1, false);
        f.class = Class::Git;
        match g.r.below(8) {
            0 | 1 => f.kind = FaultKind::Garbage(g.r.below(6) as u32),
            2 => f.kind = FaultKind::Slow(g.r.range(1000, 90_000)),
            3 => f.kind = FaultKind::Exit { code: *g.r.pick(&[1, 2, 128, 255]), text: Text::None, effect: false },
            4 => f.kind = FaultKind::Partial { pm: g.r.below(1001) as u32, kill: g.r.pm(500) },
            _ => {}
        }
        p.faults.push(f);
    }
    if g.r.pm(200) {
        g.add(3_000_000, Kind::Crash(g.r.clone().range(10, 3000)));
    }
    for k in ["/", "/compare-mr", "/version", "/static/root.js", "/static/common.js", "/static/table.css"] {
        g.add(2_000_000, Kind::Get(k.into()));
    }
}

/// The scenario that shows a recorded finding: plan, world, class and a part of the message.
pub fn finding(id: &str, ws: &crate::check::Worlds) -> Option<(Plan, std::sync::Arc<World>, &'static str, String)> {
    match id {
        "deep-nesting" => {
            let mut spec = world_spec("C14", 1);
            spec.hostile_pm = 0;
            spec.special = "nesting".into();
            let w = ws.get(&spec);
            let mut p = base("C14", "web", 1, &spec);
            p.noise = Noise::default();
            let mut g = Gen::new(1, &w);
            let mut q = g.query(&QueryOpts { unknown_pm: 0, filters_pm: 0, ..Default::default() });
            q.repo = w.repos[0].name.clone();
            q.old = w.repos[0].commits[0].hash.clone();
            q.new = "master".into();
            q.pattern = "**/*.rs".into();
            q.pull = None;
            g.add(1_000_000, Kind::Compare(q));
            p.ops = g.ops;
            Some((p, w, "server-died", "overflow".into()))
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- command line

fn query_args(q: &Query, format: &str, changes: &[String]) -> Vec<String> {
    let mut v: Vec<String> = vec!["--method".into(), q.method.clone(), "--unit".into(), q.unit.clone(), "--threshold".into(), q.threshold.to_string(), "--format".into(), format.into()];
    if q.lenient {
        v.push("--ignore-errors".into());
    }
    if let Some(x) = &q.pallet {
        v.push(format!("--pallet={}", x));
    }
    if let Some(x) = &q.extrinsic {
        v.push(format!("--extrinsic={}", x));
    }
    for c in changes {
        v.push(format!("--change={}", c));
    }
    v
}

impl Gen<'_> {
    fn format(&mut self) -> String {
        if self.r.pm(30) {
            // Accepted but not implemented.
            return self.r.pick(&["json", "brief-human"]).to_string();
        }
        self.r.pick(&["csv", "csv", "human", "markdown"]).to_string()
    }
    fn changes(&mut self) -> Vec<String> {
        if !self.r.pm(120) {
            return vec![];
        }
        let mut v: Vec<String> = ["unchanged", "added", "removed", "changed"].iter().map(|s| s.to_string()).collect();
        let k = self.r.range(1, 3) as usize;
        self.r.shuffle(&mut v);
        v.truncate(k);
        v
    }
    fn common(&mut self, args: &mut Vec<String>) {
        if self.r.pm(500) {
            args.push("--no-color".into());
        }
        if self.r.pm(150) {
            args.push("--print-terms".into());
        }
        if self.r.pm(80) {
            args.push("--verbose".into());
        }
    }
    pub fn commits_run(&mut self, o: &QueryOpts) -> CliRun {
        let mut q = self.query(o);
        q.unit = self.r.pick(&["time", "proof"]).to_string();
        q.pull = Some(self.r.pm(450));
        let repo = self.w.repos.iter().position(|r| r.name == q.repo).unwrap();
        let (force, offline) = (self.r.pm(650), self.r.pm(120));
        let (format, changes) = (self.format(), self.changes());
        let mut args = vec!["compare".to_string(), "commits".into(), q.old.clone()];
        if q.new != "master" || self.r.pm(500) {
            args.push(q.new.clone());
        }
        let inside = self.r.pm(300);
        let at_root = self.r.pm(300);
        if !inside || self.r.pm(500) {
            args.push("--repo".into());
            args.push(match (inside, at_root, self.r.below(3)) {
                (true, _, 0) => "./.".into(),
                (true, _, _) => ".".into(),
                (_, true, 0) => format!("./{}", q.repo),
                (_, true, 1) => format!("{}/", q.repo),
                (_, true, _) => q.repo.clone(),
                (_, _, 0) => format!("../root/{}", q.repo),
                (_, _, 1) => format!("./../root/./{}", q.repo),
                _ => format!("$S/root/{}", q.repo),
            });
        }
        args.push(format!("--path-pattern={}", q.pattern));
        args.extend(query_args(&q, &format, &changes));
        if q.pull == Some(true) {
            args.push("--git-pull".into());
        }
        if force {
            args.push("--git-force".into());
        }
        if offline {
            args.push("--offline".into());
            q.pull = Some(false);
        }
        self.common(&mut args);
        let cwd = if inside { format!("root/{}", q.repo) } else { if at_root { "root" } else { "files" }.into() };
        CliRun { args, cwd, what: CliWhat::Commits { repo, q, force, offline, format, changes }, push: vec![], repair: false, hash_seed: self.r.next() }
    }
    /// Some files of a commit, and sometimes one that does not exist.
    fn pick_files(&mut self, ri: usize, c: usize, max: u64, missing_pm: u64, bad_pm: u64) -> Vec<(usize, usize, String)> {
        use crate::weights::File;
        let tree = &self.w.repos[ri].commits[c].tree;
        let mut good: Vec<String> = tree.iter().filter(|f| matches!(f.1, File::Weights(_))).map(|f| f.0.clone()).collect();
        let bad: Vec<String> = tree.iter().filter(|f| !matches!(f.1, File::Weights(_))).map(|f| f.0.clone()).collect();
        self.r.shuffle(&mut good);
        let n = self.r.range(1, max) as usize;
        good.truncate(n);
        if !bad.is_empty() && self.r.pm(bad_pm) {
            good.push(self.r.pick(&bad).clone());
        }
        if self.r.pm(missing_pm) {
            good.push("frame/nowhere/src/weights.rs".into());
        }
        self.r.shuffle(&mut good);
        good.into_iter().map(|p| (ri, c, p)).collect()
    }
    pub fn files_run(&mut self, missing_pm: u64, bad_pm: u64, max: u64) -> CliRun {
        let ri = self.r.idx(self.w.repos.len());
        let n = self.w.repos[ri].commits.len();
        let (a, b) = (self.r.idx(n), self.r.idx(n));
        let max = if self.wide { max.min(2) } else { max };
        let old = self.pick_files(ri, a, max, missing_pm, bad_pm);
        let new = if self.r.pm(if self.wide { 950 } else { 600 }) {
            // The same files of another revision, in another order.
            let mut v: Vec<(usize, usize, String)> = old.iter().map(|f| (f.0, b, f.2.clone())).filter(|f| self.w.repos[ri].commits[b].tree.contains_key(&f.2)).collect();
            self.r.shuffle(&mut v);
            if v.is_empty() {
                self.pick_files(ri, b, max, missing_pm, bad_pm)
            } else {
                v
            }
        } else {
            self.pick_files(ri, b, max, missing_pm, bad_pm)
        };
        let mut q = self.query_for(ri, &QueryOpts { unknown_pm: 0, filters_pm: 150, ..Default::default() });
        q.unit = self.r.pick(&["time", "proof"]).to_string();
        if let Some(p) = &mut q.pallet {
            *p = self.r.pick(&[".*", "weights", "^pallet_", "weights.rs$"]).to_string();
        }
        if self.wide && self.r.pm(800) {
            q.method = self.r.pick(&["guess-worst", "guess-worst", "exact-worst"]).to_string();
            q.unit = "time".into();
        }
        let rel = self.r.pm(400);
        let base = |side: &str, p: &str| if rel { format!("{}/{}", side, p) } else { format!("$S/files/{}/{}", side, p) };
        let (format, changes) = (self.format(), self.changes());
        let mut args = vec!["compare".to_string(), "files".into()];
        let (x, y) = (self.r.pm(500), self.r.pm(500));
        for (k, (side, list)) in [("old", &old), ("new", &new)].into_iter().enumerate() {
            if if k == 0 { x } else { y } {
                for f in list {
                    args.push(format!("--{}", side));
                    args.push(base(side, &f.2));
                }
            } else {
                args.push(format!("--{}", side));
                args.extend(list.iter().map(|f| base(side, &f.2)));
            }
        }
        args.extend(query_args(&q, &format, &changes));
        self.common(&mut args);
        CliRun { args, cwd: "files".into(), what: CliWhat::Files { old, new, q, format, changes }, push: vec![], repair: false, hash_seed: self.r.next() }
    }
    pub fn parse_run(&mut self, missing_pm: u64, bad_pm: u64) -> CliRun {
        let ri = self.r.idx(self.w.repos.len());
        let c = self.r.idx(self.w.repos[ri].commits.len());
        let files = self.pick_files(ri, c, 6, missing_pm, bad_pm);
        let mut args = vec!["parse".to_string(), "files".into()];
        args.extend(files.iter().map(|f| format!("$S/files/p/{}", f.2)));
        if self.r.pm(150) {
            args.push("--verbose".into());
        }
        CliRun { args, cwd: "files".into(), what: CliWhat::Parse { files }, push: vec![], repair: false, hash_seed: self.r.next() }
    }
}

fn cli_plan(property: &str, seed: u64, spec: &WorldSpec, w: &World) -> Plan {
    let mut p = base(property, "cli", seed, spec);
    let mut g = Gen::new(hash2(seed, 3), w);
    g.wide = spec.max_comps >= 16;
    match property {
        "C15" => {
            let o = QueryOpts { unknown_pm: 40, hash_pm: 250, ..Default::default() };
            let n = g.r.range(3, 6);
            for k in 0..n {
                let mut c = g.commits_run(&o);
                while k > 0 && g.r.pm(400) {
                    let before = g.ops.len();
                    g.push(0);
                    for op in g.ops.split_off(before) {
                        if let Kind::Push { repo, edits } = op.kind {
                            c.push.extend(edits.into_iter().map(|e| (repo, e)));
                        }
                    }
                }
                c.repair = g.r.pm(700);
                p.cli.push(c);
            }
            let steps = n * 6;
            for _ in 0..g.r.below(4) {
                let crash = g.r.pm(300);
                let f = git_fault(&mut g.r, steps, crash);
                p.faults.push(f);
            }
            if g.r.pm(250) {
                let f = io_fault(&mut g.r, n * 14);
                p.faults.push(f);
            }
        }
        "C16" => {
            p.noise.short_write_pm = *g.r.pick(&[0, 300, 800]);
            p.noise.eintr_write_pm = *g.r.pick(&[0, 0, 200, 500]);
            let o = QueryOpts { unknown_pm: 0, hash_pm: 700, filters_pm: 80, ..Default::default() };
            let n = g.r.range(2, 4);
            for _ in 0..n {
                let mut c = match g.r.below(5) {
                    0 => g.parse_run(0, 0),
                    1 | 2 => g.commits_run(&o),
                    _ => g.files_run(0, 0, 9),
                };
                if let CliWhat::Commits { q, .. } | CliWhat::Files { q, .. } = &mut c.what {
                    if g.r.pm(500) {
                        // Much output.
                        q.threshold = 0;
                        let i = c.args.iter().position(|a| a == "--threshold").unwrap();
                        c.args[i + 1] = "0".into();
                    }
                }
                p.cli.push(c);
            }
            for _ in 0..g.r.below(3) {
                let kind = if g.r.pm(600) {
                    FaultKind::WriteErr(*g.r.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EAGAIN, libc::EFBIG, libc::EDQUOT]))
                } else {
                    FaultKind::WriteShort(g.r.range(1, 80))
                };
                let nth = if g.r.pm(600) { g.r.below(4) } else { g.r.below(60) };
                p.faults.push(Fault { class: Class::Write, nth, kind });
            }
        }
        "C17" => {
            let n = g.r.range(2, 5);
            for _ in 0..n {
                let (m, b) = *g.r.pick(&[(0, 0), (250, 0), (0, 400), (100, 100)]);
                let c = if g.r.pm(250) { g.parse_run(m, b) } else { g.files_run(m, b, 5) };
                p.cli.push(c);
            }
            for _ in 0..g.r.below(4) {
                let mut f = io_fault(&mut g.r, n * 6);
                if f.class != Class::Open {
                    f = Fault { class: Class::Open, nth: f.nth, kind: FaultKind::ReadErr { off: g.r.below(3000), errno: libc::EIO } };
                }
                p.faults.push(f);
            }
        }
        _ => {
            let n = g.r.range(1, 3);
            for _ in 0..n {
                let mut c = g.files_run(0, 0, 4);
                if let CliWhat::Files { q, .. } = &mut c.what {
                    q.threshold = 0;
                    let i = c.args.iter().position(|a| a == "--threshold").unwrap();
                    c.args[i + 1] = "0".into();
                }
                // Twice, visiting everything in another order.
                let mut d = c.clone();
                d.hash_seed = g.r.next();
                p.cli.push(c);
                p.cli.push(d);
            }
        }
    }
    p
}
