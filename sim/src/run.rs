//! The simulator: owns the clock, the network, the remotes, the disk faults and the processes, and
//! decides every event of a run from the plan alone.

use crate::hist::*;
use crate::http::{parse_response, urlencode};
use crate::plan::*;
use crate::proc::*;
use crate::rng::{hash2, Rng};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Env {
    pub web: PathBuf,
    pub cli: PathBuf,
    pub shim: PathBuf,
    pub statics: PathBuf,
}

struct Conn {
    req: usize,
    stream: Option<UnixStream>,
    inbuf: Vec<u8>,
    out: Vec<u8>,
    piece: usize,
    gap: u64,
    /// Only starts a TLS handshake and looks whether the server takes part.
    hello: bool,
}

/// The answer to a TLS 1.2 ClientHello: 200 if the server continues the handshake, which it only
/// can with a usable key, and 525 if it refuses.
fn parse_hello(b: &[u8]) -> Result<Option<crate::http::Response>, String> {
    if b.len() < 6 {
        return Ok(None);
    }
    let status = match (b[0], b[5]) {
        (0x16, 2) => 200,
        (0x15, _) => 525,
        x => return Err(format!("not a TLS server: {:?}", x)),
    };
    Ok(Some(crate::http::Response { status, ctype: String::new(), body: vec![] }))
}

enum Ev {
    Op(usize),
    Piece(usize),
    Abort(usize),
}

enum Flow {
    Go,
    Crash { down_ms: u64, repair: bool },
}

pub struct Engine<'a> {
    pub plan: &'a Plan,
    pub env: &'a Env,
    pub world: &'a World,
    pub dir: PathBuf,
    shm: ShmMap,
    pub h: History,
    seq: u64,
    now: u64,
    skew: i64,
    refs: Vec<Refs>,
    counters: BTreeMap<Class, u64>,
    open_events: u64,
    dir_events: u64,
    write_events: u64,
    inc: u32,
    n_conn: u32,
    conns: Vec<Conn>,
    queue: BTreeMap<(u64, u64), Ev>,
    qseq: u64,
    epilogue: Vec<usize>,
    last_progress: u64,
    live_git: BTreeSet<usize>,
    locked: BTreeMap<usize, u64>,
    cli_faults: Vec<usize>,
    cli_write_error: bool,
    trace: bool,
}

pub fn target(op: &Op) -> Option<String> {
    let q = |v: &[(&str, String)]| v.iter().map(|(k, v)| format!("{}={}", k, urlencode(v))).collect::<Vec<_>>().join("&");
    match &op.kind {
        Kind::Compare(c) => {
            let mut v = vec![
                ("old", c.old.clone()),
                ("new", c.new.clone()),
                ("repo", c.repo.clone()),
                ("path_pattern", c.pattern.clone()),
                ("ignore_errors", c.lenient.to_string()),
                ("threshold", c.threshold.to_string()),
                ("unit", c.unit.clone()),
                ("method", c.method.clone()),
            ];
            if let Some(x) = &c.pallet {
                v.push(("pallet", x.clone()));
            }
            if let Some(x) = &c.extrinsic {
                v.push(("extrinsic", x.clone()));
            }
            if let Some(x) = c.pull {
                v.push(("git_pull", x.to_string()));
            }
            Some(format!("/compare?{}", q(&v)))
        }
        Kind::Branches { repo, fetch } => {
            let mut v = vec![("repo", repo.clone())];
            if let Some(f) = fetch {
                v.push(("fetch", f.to_string()));
            }
            Some(format!("/branches?{}", q(&v)))
        }
        Kind::Get(p) => Some(p.clone()),
        _ => None,
    }
}

fn is_tree(sub: &str) -> bool {
    ["reset", "checkout", "clean", "switch", "restore", "merge", "pull", "stash", "read-tree", "checkout-index", "rebase"].contains(&sub)
}
fn is_net(sub: &str) -> bool {
    ["fetch", "ls-remote", "pull", "clone"].contains(&sub)
}

pub fn read_refs(repo: &Path) -> LocalRefs {
    read_git_dir(&repo.join(".git"))
}
/// The same for a bare repository, which is its own git directory.
pub fn read_git_dir(g: &Path) -> LocalRefs {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(base, &p, out);
            } else if let Ok(s) = std::fs::read_to_string(&p) {
                let n = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                if !n.ends_with(".lock") {
                    out.insert(n, s.trim().to_string());
                }
            }
        }
    }
    let mut l = LocalRefs::default();
    if let Ok(s) = std::fs::read_to_string(g.join("packed-refs")) {
        for x in s.lines() {
            if x.starts_with('#') || x.starts_with('^') {
                continue;
            }
            if let Some((h, n)) = x.split_once(' ') {
                l.refs.insert(n.to_string(), h.to_string());
            }
        }
    }
    walk(g, &g.join("refs"), &mut l.refs);
    l
}

/// The path without `..`.
fn lexical(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

impl<'a> Engine<'a> {
    pub fn new(plan: &'a Plan, env: &'a Env, world: &'a World, dir: &Path) -> Self {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).expect("run directory");
        for d in ["root", "remote"] {
            copy_tree(&world.dir.join(d), &dir.join(d)).expect("copy world");
        }
        for d in ["sock", "secret", "files", "tmp"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        write_gitconfig(dir);
        // A file that no request may reach.
        std::fs::write(
            dir.join("secret/secret.rs"),
            "impl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T> {\n\tfn secret_call() -> Weight {\n\t\tWeight::from_parts(424242, 0)\n\t}\n}\n",
        )
        .unwrap();
        std::fs::create_dir_all(dir.join("secret/src")).unwrap();
        std::fs::copy(dir.join("secret/secret.rs"), dir.join("secret/src/weights.rs")).unwrap();
        std::fs::copy(dir.join("secret/secret.rs"), dir.join("secret/weights.rs")).unwrap();
        let mut h = History { scratch: dir.display().to_string(), ..Default::default() };
        let refs: Vec<Refs> = world.repos.iter().map(|r| r.init.clone()).collect();
        for (i, r) in refs.iter().enumerate() {
            h.remote.push((0, i, r.clone()));
            h.local.push((0, i, read_refs(&dir.join("root").join(&world.repos[i].name))));
        }
        Engine {
            plan,
            env,
            world,
            dir: dir.to_path_buf(),
            shm: ShmMap::create(&dir.join("shm")),
            h,
            seq: 0,
            now: 0,
            skew: plan.setup.skew,
            refs,
            counters: BTreeMap::new(),
            open_events: 0,
            dir_events: 0,
            write_events: 0,
            inc: 0,
            n_conn: 0,
            conns: vec![],
            queue: BTreeMap::new(),
            qseq: 0,
            epilogue: vec![],
            last_progress: 0,
            live_git: BTreeSet::new(),
            locked: BTreeMap::new(),
            cli_faults: vec![],
            cli_write_error: false,
            trace: std::env::var("SWCSIM_TRACE").is_ok(),
        }
    }

    fn log(&mut self, s: String) {
        let s = s.replace(&self.h.scratch, "$S");
        if self.trace {
            eprintln!("[{:>6}] {}", self.seq, s);
        }
        self.h.events.push(s);
    }

    fn conf_launch(&mut self, hash_seed: u64, bin: &Path, args: &[String], cwd: &Path, out: &Path, watch_stdout: bool) -> Proc {
        let devs: Vec<(u64, u32)> = match &self.plan.devs {
            Some(d) => d.get(self.inc as usize).cloned().unwrap_or_default(),
            None => vec![],
        };
        let sock = self.dir.join("sock");
        for e in std::fs::read_dir(&sock).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(e.path());
        }
        if self.plan.setup.taken(self.inc as usize) {
            // Nobody can bind to a name that is there.
            let _ = std::fs::write(self.port(), b"");
        }
        let dir = self.dir.clone();
        let conf = Conf {
            sched_seed: hash2(self.plan.sched_seed, self.inc as u64),
            hash_seed: hash2(hash_seed, self.inc as u64),
            preempt_pm: self.plan.preempt_pm,
            replay: self.plan.devs.is_some(),
            devs: &devs,
            watch_stdout,
            watch_stat: self.plan.faults.iter().any(|f| f.class == Class::Stat),
            start_now: self.now,
            real_skew: self.skew,
            max_steps: 3_000_000,
            watch: &dir,
            sockdir: &sock,
            log: &self.plan.setup.log,
        };
        let err = self.dir.join("stderr");
        let _ = std::fs::remove_file(&err);
        self.n_conn = 0;
        self.h.incs.push(Incarnation { start: self.now, ..Default::default() });
        let env = self.env;
        launch(&mut self.shm, &conf, &dir, bin, args, cwd, out, &err, &env.shim)
    }

    fn port(&self) -> PathBuf {
        let s = &self.plan.setup;
        let at = match s.endpoint.as_str() {
            "" | "127.0.0.1" => String::new(),
            a => format!(".{}", a.trim_matches(['[', ']'])),
        };
        self.dir.join(format!("sock/tcp.{}{}", s.listens_on().unwrap_or(8080), at))
    }

    /// Connects to the server, wherever it listens.
    fn connect(&self) -> Option<UnixStream> {
        connect(&self.port()).or_else(|| std::fs::read_dir(self.dir.join("sock")).into_iter().flatten().flatten().find_map(|e| connect(&e.path())))
    }

    fn harvest(&mut self, exit: Option<Exit>, crashed: bool) {
        let s = self.shm.get();
        let devs: Vec<(u64, u32)> = (0..s.n_dev_out as usize).map(|i| (s.dev_out[i].step, s.dev_out[i].thread)).collect();
        let st = &mut self.h.stats;
        st.steps += s.steps;
        st.switches += s.switches;
        st.choice_points += s.choice_points;
        st.threads = st.threads.max(s.threads);
        st.clock_reads += s.clock_reads;
        let (hash, listening) = (s.sched_hash, s.listening);
        let stderr = std::fs::read(self.dir.join("stderr")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        if stderr.contains("swcsim:") {
            self.h.harness_error = Some(stderr.clone());
        }
        let end = self.now;
        let ours = self.port();
        let elsewhere = std::fs::read_dir(self.dir.join("sock")).into_iter().flatten().flatten().filter(|e| e.path() != ours).map(|e| e.file_name().to_string_lossy().into_owned()).collect();
        let i = self.h.incs.last_mut().unwrap();
        i.end = end;
        i.exit = exit;
        i.crashed = crashed;
        i.listened |= listening > 0;
        i.devs = devs;
        i.sched_hash = hash;
        i.stderr = stderr;
        i.elsewhere = elsewhere;
    }

    /// Everything below the scratch directory that no request may change.
    pub fn guarded(&self) -> BTreeMap<String, String> {
        fn walk(base: &Path, d: &Path, out: &mut BTreeMap<String, String>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            for e in rd.flatten() {
                let name = e.path().strip_prefix(base).unwrap_or(&e.path()).display().to_string();
                if e.file_type().map_or(false, |t| t.is_dir()) {
                    out.insert(name, "dir".into());
                    walk(base, &e.path(), out);
                } else {
                    out.insert(name, std::fs::read(e.path()).map(|b| crate::exec::digest_of(&b).to_string()).unwrap_or_default());
                }
            }
        }
        let mut out = BTreeMap::new();
        for d in ["secret", "files", "static", "root/hidden"] {
            walk(&self.dir, &self.dir.join(d), &mut out);
        }
        for d in ["", "root"] {
            for e in std::fs::read_dir(self.dir.join(d)).into_iter().flatten().flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                if !["shm", "sock", "stdout", "stderr", "tmp", "out.0"].contains(&n.as_str()) {
                    out.insert(format!("{}/{}", d, n), String::new());
                }
            }
        }
        for (i, r) in self.world.repos.iter().enumerate() {
            let l = read_git_dir(&self.dir.join("remote").join(&r.org).join(format!("{}.git", r.name)));
            let want = &self.refs[i];
            let commit = |c: &usize| &r.commits[*c];
            let mut exp: BTreeMap<String, String> = want.heads.iter().map(|(n, c)| (format!("refs/heads/{}", n), commit(c).hash.clone())).collect();
            exp.extend(want.tags.iter().map(|(n, (c, a))| (format!("refs/tags/{}", n), if *a { commit(c).tag.clone() } else { commit(c).hash.clone() })));
            out.insert(format!("remote refs of {}", r.name), if exp == l.refs { String::new() } else { format!("{:?} instead of {:?}", l.refs, exp) });
        }
        out
    }

    fn repo_of(&self, path: &str) -> Option<usize> {
        let root = format!("{}/root/", self.h.scratch);
        let rest = path.strip_prefix(&root).or_else(|| path.strip_prefix(&root.replace("/root/", "/root//")))?;
        let name = rest.trim_start_matches('/').split('/').next()?;
        self.world.repos.iter().position(|r| r.name == name)
    }

    fn fault_at(&self, class: Class, nth: u64) -> Option<usize> {
        self.plan.faults.iter().position(|f| f.class == class && f.nth == nth)
    }
    fn bump(&mut self, class: Class) -> Option<usize> {
        let c = self.counters.entry(class).or_insert(0);
        let n = *c;
        *c += 1;
        self.fault_at(class, n)
    }
    fn fire(&mut self, idx: usize, conn: u32, repo: Option<usize>) {
        let repo = repo.map(|r| self.world.repos[r].name.clone()).unwrap_or_default();
        self.h.fired.push(FaultFired { idx, now: self.now, seq: self.seq, conn, inc: self.inc, repo });
        self.cli_faults.push(idx);
        let k = format!("{:?}", self.plan.faults[idx]);
        self.log(format!("fault {}", k));
    }

    fn git_cmd(&self, cwd: &Path, argv: &[String]) -> bool {
        let mut c = Command::new("git");
        git_env(&mut c, &self.dir);
        for (k, v) in self.net_env() {
            c.env(k, v);
        }
        c.args(&argv[1..]).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c.status().map(|s| s.success()).unwrap_or(false)
    }
    fn net_env(&self) -> Vec<(String, String)> {
        vec![
            ("GIT_CONFIG_COUNT".into(), "2".into()),
            // What the remote end prints does not reach the local terminal; over a local transport
            // it would, in an order nobody decides.
            ("GIT_CONFIG_KEY_1".into(), "remote.origin.uploadpack".into()),
            ("GIT_CONFIG_VALUE_1".into(), "git-upload-pack 2>/dev/null".into()),
            ("GIT_CONFIG_KEY_0".into(), format!("url.{}/remote/.insteadOf", self.h.scratch)),
            ("GIT_CONFIG_VALUE_0".into(), "https://github.com/".into()),
        ]
    }

    /// Does to the checkout what a git command that is killed on the way does.
    fn torn(&mut self, repo: usize, cwd: &str, argv: &[String], frac: u32, lock: bool) {
        let name = self.world.repos[repo].name.clone();
        let real = self.dir.join("root").join(&name);
        let copy_root = self.dir.join("tmp/torn");
        let _ = std::fs::remove_dir_all(&copy_root);
        let copy = copy_root.join(&name);
        if copy_tree(&real, &copy).is_err() {
            return;
        }
        let from = real.display().to_string();
        let rel = cwd.strip_prefix(&from).unwrap_or("").trim_start_matches('/').to_string();
        let argv: Vec<String> = argv.iter().map(|a| a.replace(&from, &copy.display().to_string())).collect();
        self.git_cmd(&copy.join(rel), &argv);
        fn files(base: &Path, dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
            let Ok(rd) = std::fs::read_dir(dir) else { return };
            for e in rd.flatten() {
                if e.file_name() == ".git" {
                    continue;
                }
                let p = e.path();
                let t = e.file_type().unwrap();
                if t.is_dir() {
                    files(base, &p, out);
                } else {
                    let k = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                    let v = if t.is_symlink() {
                        [b"L".to_vec(), std::fs::read_link(&p).unwrap().as_os_str().as_encoded_bytes().to_vec()].concat()
                    } else {
                        [b"F".to_vec(), std::fs::read(&p).unwrap_or_default()].concat()
                    };
                    out.insert(k, v);
                }
            }
        }
        let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
        files(&real, &real, &mut a);
        files(&copy, &copy, &mut b);
        let mut steps: Vec<(String, Option<Vec<u8>>)> = a.keys().filter(|k| !b.contains_key(*k)).map(|k| (k.clone(), None)).collect();
        steps.extend(b.iter().filter(|(k, v)| a.get(*k) != Some(v)).map(|(k, v)| (k.clone(), Some(v.clone()))));
        let k = (steps.len() as u64 * frac as u64).div_ceil(1000) as usize;
        for (i, (p, v)) in steps.iter().take(k).enumerate() {
            let p = real.join(p);
            let _ = std::fs::remove_file(&p);
            match v {
                None => {
                    let mut d = p.parent();
                    while let Some(x) = d {
                        if x == real || std::fs::remove_dir(x).is_err() {
                            break;
                        }
                        d = x.parent();
                    }
                }
                Some(v) => {
                    let _ = std::fs::create_dir_all(p.parent().unwrap());
                    if v[0] == b'L' {
                        let _ = std::os::unix::fs::symlink(std::str::from_utf8(&v[1..]).unwrap_or("x"), &p);
                    } else {
                        // The last file may be cut off.
                        let cut = i + 1 == k && frac % 3 == 0;
                        let _ = std::fs::write(&p, &v[1..if cut { 1 + v.len() / 2 } else { v.len() }]);
                    }
                }
            }
        }
        self.log(format!("torn {} of {} changes in {}", k, steps.len(), name));
        if lock {
            let _ = std::fs::write(real.join(".git/index.lock"), b"");
            self.locked.entry(repo).or_insert(self.now);
        }
        let _ = std::fs::remove_dir_all(&copy_root);
    }

    fn repair(&mut self) {
        for (i, r) in self.world.repos.iter().enumerate() {
            fn locks(d: &Path) {
                let Ok(rd) = std::fs::read_dir(d) else { return };
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        locks(&p);
                    } else if p.extension().map_or(false, |x| x == "lock") {
                        let _ = std::fs::remove_file(p);
                    }
                }
            }
            locks(&self.dir.join("root").join(&r.name).join(".git"));
            if let Some(t) = self.locked.remove(&i) {
                self.h.locks.push((t, self.now, i));
            }
        }
        self.log("repair".into());
    }

    fn push(&mut self, repo: usize, edits: &[Edit]) {
        if repo >= self.world.repos.len() {
            return;
        }
        for e in edits {
            e.apply(&mut self.refs[repo]);
        }
        let r = &self.world.repos[repo];
        let bare = self.dir.join("remote").join(&r.org).join(format!("{}.git", r.name));
        write_refs(&bare, r, &self.refs[repo]);
        self.h.remote.push((self.now, repo, self.refs[repo].clone()));
        self.h.stats.pushes += 1;
        self.log(format!("push {} {:?}", r.name, edits));
    }

    fn duration(&self, id: u64, sub: &str) -> u64 {
        let base_ms: u64 = match sub {
            "fetch" | "pull" | "ls-remote" => 400,
            "reset" | "checkout" => 60,
            _ => 8,
        };
        let mut r = Rng::new(hash2(self.plan.dur_seed, id));
        let pm = match r.below(10) {
            0 => r.range(3000, 12000),
            1 | 2 => 0,
            _ => r.range(100, 2500),
        };
        base_ms * 1_000_000 * pm / 1000 * self.plan.dur_scale / 100
    }

    /// Messages that web and command line runs have in common.
    fn handle(&mut self, p: &mut Proc, m: &Msg) -> Flow {
        let h = m.h;
        match h.typ {
            M_HELLO => p.reply(Reply::default(), &[]),
            M_SPAWN_BEGIN => {
                let parts: Vec<String> = m.payload.split(|b| *b == 0).map(|s| String::from_utf8_lossy(s).into_owned()).collect();
                let n = parts.len() - 1;
                let raw = parts[2..n].to_vec();
                let (cwd, argv) = working_dir(&parts[0], &raw);
                let id = self.h.git.len();
                let mut ev = GitEv {
                    id: id as u64,
                    inc: self.inc,
                    tid: h.tid,
                    epoch: h.epoch,
                    conn: h.conn,
                    cwd: lexical(&cwd),
                    file: parts[1].clone(),
                    argv,
                    raw,
                    begin: h.now,
                    begin_seq: self.seq,
                    ..Default::default()
                };
                let sub = ev.sub().to_string();
                let mut f = self.bump(Class::Git);
                if is_net(&sub) {
                    f = self.bump(Class::GitNet).or(f);
                }
                if is_tree(&sub) {
                    f = self.bump(Class::GitTree).or(f);
                }
                if sub == "ls-remote" {
                    f = self.bump(Class::GitList).or(f);
                }
                ev.fault = f;
                let mut d = self.duration(id as u64, &sub);
                if let Some(FaultKind::Slow(ms)) = f.map(|i| &self.plan.faults[i].kind) {
                    d = ms * 1_000_000;
                }
                self.log(format!("{} t{} c{} begin #{} {:?} in {}", h.now, h.tid, h.conn, id, ev.argv, ev.cwd));
                self.h.git.push(ev);
                self.h.stats.git += 1;
                self.live_git.insert(id);
                self.h.stats.overlapping += (self.live_git.len() > 1) as u64;
                let before = if d == 0 { 0 } else { 1 + hash2(self.plan.dur_seed ^ 77, id as u64) % d };
                p.reply(Reply { a: id as u64, b: before, ..Default::default() }, &[]);
            }
            M_SPAWN_EXEC => {
                let id = h.a as usize;
                self.h.git[id].exec_seq = self.seq;
                let ev = self.h.git[id].clone();
                let repo = self.repo_of(&ev.cwd);
                let sub = ev.sub().to_string();
                let d = self.duration(ev.id, &sub);
                let before = if d == 0 { 0 } else { 1 + hash2(self.plan.dur_seed ^ 77, ev.id) % d };
                let after = d.saturating_sub(before);
                let mut env: Vec<String> = Vec::new();
                if sub != "remote" && sub != "config" {
                    env = self.net_env().into_iter().map(|(k, v)| format!("{}={}", k, v)).collect();
                }
                let mut argv: Vec<String> = vec![];
                let mut code = 0;
                let sh = |script: String, keep: bool| -> Vec<String> {
                    let mut v = vec!["/bin/sh".to_string(), "-c".to_string(), script, "sh".to_string()];
                    if keep {
                        v.extend(ev.raw.iter().cloned());
                    }
                    v
                };
                let kind = ev.fault.map(|i| self.plan.faults[i].kind.clone());
                if let (Some(i), Some(k)) = (ev.fault, &kind) {
                    if !matches!(k, FaultKind::CrashAfter { .. }) {
                        self.fire(i, h.conn, repo);
                    }
                }
                match kind {
                    Some(FaultKind::SpawnErr(e)) => code = e,
                    Some(FaultKind::Exit { code, text, effect }) => {
                        let t = match text {
                            Text::None => "",
                            Text::Net => "fatal: unable to access remote: Could not resolve host: github.com\\n",
                            Text::Lock => "fatal: Unable to create index.lock: File exists.\\n",
                            Text::Binary => "fatal: \\377\\376\\200 broken\\n",
                            Text::Own => "",
                            Text::Usual(_) => "%s\\n",
                        };
                        let t = match text {
                            Text::Usual(n) => t.replace("%s", &USUAL[n as usize % USUAL.len()].replace('\'', "\\047").replace('\n', "\\n").replace('%', "")),
                            _ => t.to_string(),
                        };
                        let run = match (effect, &text) {
                            (true, Text::Own) => "\"$@\"; ",
                            (true, _) => "\"$@\" >/dev/null 2>&1; ",
                            _ => "",
                        };
                        argv = sh(format!("{}printf '{}' >&2; exit {}", run, t, code), effect);
                    }
                    Some(FaultKind::Kill { effect }) => {
                        let run = if effect { "\"$@\" >/dev/null 2>&1; " } else { "" };
                        argv = sh(format!("{}kill -9 $$", run), effect);
                    }
                    Some(FaultKind::Torn { frac, lock }) => {
                        if let (Some(r), true) = (repo, is_tree(&sub)) {
                            self.torn(r, &ev.cwd, &ev.argv, frac, lock);
                        }
                        argv = sh("kill -9 $$".into(), false);
                    }
                    Some(FaultKind::Partial { pm, kill }) => {
                        let f = format!("{}/tmp/part.{}", self.h.scratch, id);
                        let end = if kill { "kill -9 $$" } else { "printf 'fatal: the remote end hung up unexpectedly\\n' >&2; exit 128" };
                        argv = sh(format!("\"$@\" >{f} 2>/dev/null; n=$(wc -c <{f}); head -c $((n * {pm} / 1000)) {f}; {end}"), true);
                    }
                    Some(FaultKind::Loud(kb)) => {
                        argv = sh(format!("yes 'remote: Counting objects: 99% (12345/12345)' | head -c {}000 >&2; exec \"$@\"", kb), true);
                    }
                    Some(FaultKind::Garbage(k)) => {
                        let t = match k % 6 {
                            0 => "garbage\\n",
                            1 => "1234567\\trefs/heads/x\\n",
                            2 => "\\377\\376\\200\\377\\376\\200\\377\\376\\200\\377\\376\\200\\trefs/heads/y\\n",
                            3 => "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\\n",
                            4 => "\\n\\n",
                            _ => "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\\trefs/heads/x\\n \\n",
                        };
                        argv = sh(format!("printf '{}'", t), false);
                    }
                    Some(FaultKind::CrashBefore { down_ms, repair }) => return Flow::Crash { down_ms, repair },
                    Some(FaultKind::CrashTorn { frac, lock, down_ms, repair }) => {
                        if let (Some(r), true) = (repo, is_tree(&sub)) {
                            self.torn(r, &ev.cwd, &ev.argv, frac, lock);
                        }
                        return Flow::Crash { down_ms, repair };
                    }
                    _ => {}
                }
                if code > 0 {
                    p.reply(Reply { code, a: after, ..Default::default() }, &[]);
                } else {
                    let pl = exec_payload(&env, &argv);
                    p.reply(Reply { a: after, ..Default::default() }, &pl);
                }
            }
            M_SPAWN_DONE => {
                let id = h.a as usize;
                let res = i32::from_le_bytes(m.payload[..4].try_into().unwrap());
                let ok = res == 0 && (h.b >> 32) == 1 && (h.b & 0xffffffff) == 0;
                let seq = self.seq;
                let e = &mut self.h.git[id];
                e.done = h.now;
                e.done_seq = seq;
                e.res = res;
                e.ok = ok;
                e.finished = true;
                let (cwd, fault, conn) = (e.cwd.clone(), e.fault, e.conn);
                let mutating = !READ_ONLY.contains(&e.sub());
                let repo = self.repo_of(&cwd);
                if let (true, Some(r)) = (mutating, repo) {
                    let l = read_refs(&self.dir.join("root").join(&self.world.repos[r].name));
                    self.h.local.push((h.now, r, l));
                }
                self.log(format!("{} done #{} ok={} res={} status={:x}", h.now, id, ok, res, h.b));
                if let Some(FaultKind::CrashAfter { down_ms, repair }) = fault.map(|i| self.plan.faults[i].kind.clone()) {
                    self.fire(fault.unwrap(), conn, repo);
                    return Flow::Crash { down_ms, repair };
                }
                p.reply(Reply::default(), &[]);
            }
            M_SPAWN_RET => {
                let id = h.a as usize;
                self.h.git[id].ret_seq = self.seq;
                self.live_git.remove(&id);
                p.reply(Reply::default(), &[]);
            }
            M_OPEN | M_OPENDIR => {
                let dir = h.typ == M_OPENDIR;
                let mut path = String::from_utf8_lossy(&m.payload).into_owned();
                if self.plan.profile == "cli" {
                    path = lexical(&path);
                }
                let watched = if dir { h.a } else { h.b } != 0;
                let write = !dir && (h.a & 3) != 0;
                let inside = watched && (path.contains("/root/") || path.contains("/files/")) && !path.contains("/.git/");
                let mut ev = FileEv {
                    seq: self.seq,
                    now: h.now,
                    inc: self.inc,
                    tid: h.tid,
                    epoch: h.epoch,
                    conn: h.conn,
                    real: std::fs::canonicalize(&path).map(|p| p.display().to_string()).unwrap_or_else(|_| path.clone()),
                    path: path.clone(),
                    dir,
                    watched,
                    write,
                    fault: None,
                    hit: false,
                };
                let mut r = Reply::default();
                let n = &self.plan.noise;
                let repo = self.repo_of(&path);
                if inside && dir {
                    let k = self.dir_events;
                    self.dir_events += 1;
                    if hash2(n.seed ^ 1, k) % 1000 < n.shuffle_pm {
                        r.a = hash2(n.seed ^ 2, k) | 1;
                        self.h.stats.shuffled += 1;
                    }
                    if let Some(f) = self.bump(Class::Dir) {
                        ev.fault = Some(f);
                        ev.hit = true;
                        match self.plan.faults[f].kind {
                            FaultKind::DirErr(e) => r.code = e,
                            FaultKind::DirReadErr { idx, errno } => {
                                r.b = idx + 1;
                                r.c = errno as u64;
                            }
                            _ => ev.hit = false,
                        }
                        self.fire(f, h.conn, repo);
                    }
                } else if inside && !write {
                    let k = self.open_events;
                    self.open_events += 1;
                    if hash2(n.seed ^ 3, k) % 1000 < n.chunk_pm {
                        r.a = 1 + hash2(n.seed ^ 4, k) % 97;
                        self.h.stats.chunked += 1;
                    }
                    if hash2(n.seed ^ 5, k) % 1000 < n.eintr_pm {
                        r.d = 1 + hash2(n.seed ^ 6, k) % 3;
                        self.h.stats.eintr += 1;
                    }
                    if let Some(f) = self.bump(Class::Open) {
                        ev.fault = Some(f);
                        let size = std::fs::metadata(&path).map(|m| m.len());
                        match self.plan.faults[f].kind {
                            FaultKind::OpenErr(e) => {
                                r.code = e;
                                ev.hit = true;
                            }
                            FaultKind::ReadErr { off, errno } => {
                                r.b = off + 1;
                                r.c = errno as u64;
                                // The reader notices when it reaches the offset, and the end of the file is one.
                                ev.hit = size.map_or(false, |s| off <= s);
                            }
                            _ => {}
                        }
                        if ev.hit {
                            self.fire(f, h.conn, repo);
                        }
                    }
                }
                if watched {
                    self.h.stats.opens += 1;
                    self.log(format!("{} t{} c{} {} {}{}", h.now, h.tid, h.conn, if dir { "list" } else { "open" }, ev.path, if ev.hit { " FAULT" } else { "" }));
                }
                self.h.files.push(ev);
                p.reply(r, &[]);
            }
            M_STAT => {
                let mut path = String::from_utf8_lossy(&m.payload).into_owned();
                if self.plan.profile == "cli" {
                    path = lexical(&path);
                }
                let mut r = Reply::default();
                let root = format!("{}/root/", self.h.scratch);
                // Not the repositories themselves: whether one exists is another question.
                let inside = path.strip_prefix(&root).map_or(false, |p| p.contains('/')) && !format!("{}/", path).contains("/.git/");
                if inside {
                    if let Some(f) = self.bump(Class::Stat) {
                        if let FaultKind::StatErr(e) = self.plan.faults[f].kind {
                            r.code = e;
                            let repo = self.repo_of(&path);
                            self.fire(f, h.conn, repo);
                            self.log(format!("{} t{} c{} stat {} FAULT", h.now, h.tid, h.conn, path));
                            self.h.unseen.push((self.inc, h.conn, path));
                        }
                    }
                }
                p.reply(r, &[]);
            }
            M_WRITE => {
                let k = self.write_events;
                self.write_events += 1;
                let n = &self.plan.noise;
                let mut r = Reply { a: h.a, ..Default::default() };
                if hash2(n.seed ^ 7, k) % 1000 < n.short_write_pm && h.a > 1 {
                    r.a = 1 + hash2(n.seed ^ 8, k) % (h.a - 1);
                    self.h.stats.short_writes += 1;
                } else if hash2(n.seed ^ 9, k) % 1000 < n.eintr_write_pm {
                    r.code = libc::EINTR;
                    self.h.stats.eintr += 1;
                }
                if let Some(f) = self.bump(Class::Write) {
                    match self.plan.faults[f].kind {
                        FaultKind::WriteErr(e) => {
                            r.code = e;
                            self.cli_write_error = true;
                        }
                        FaultKind::WriteShort(b) => {
                            r.code = 0;
                            r.a = b.max(1).min(h.a);
                        }
                        _ => {}
                    }
                    self.fire(f, 0, None);
                }
                self.log(format!("write {} -> {} {}", h.a, r.a, r.code));
                p.reply(r, &[]);
            }
            M_EXEC_OTHER => {
                let s = String::from_utf8_lossy(&m.payload).into_owned();
                self.h.other_exec.push(s);
                p.reply(Reply::default(), &[]);
            }
            M_LIVELOCK => {
                self.h.livelock = true;
                p.reply(Reply::default(), &[]);
            }
            _ => p.reply(Reply::default(), &[]),
        }
        Flow::Go
    }

    // ------------------------------------------------------------------ web

    fn at(&mut self, t: u64, e: Ev) {
        self.qseq += 1;
        self.queue.insert((t, self.qseq), e);
    }

    fn poll_clients(&mut self) {
        for i in 0..self.conns.len() {
            let c = &mut self.conns[i];
            let Some(s) = c.stream.as_mut() else { continue };
            let mut buf = [0u8; 65536];
            let mut eof = false;
            let mut got = false;
            loop {
                match s.read(&mut buf) {
                    Ok(0) => {
                        eof = true;
                        break;
                    }
                    Ok(n) => {
                        got = true;
                        c.inbuf.extend_from_slice(&buf[..n])
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => {
                        eof = true;
                        break;
                    }
                }
            }
            if !got && !eof {
                continue;
            }
            let parsed = if c.hello { parse_hello(&c.inbuf) } else { parse_response(&c.inbuf, eof) };
            let req = c.req;
            let seq = self.seq;
            let now = self.now;
            let r = &mut self.h.reqs[req];
            match parsed {
                Ok(Some(resp)) => {
                    r.answer = Some(now);
                    r.answer_seq = seq;
                    let (st, len, op) = (resp.status, resp.body.len(), r.op);
                    r.resp = Some(resp);
                    c.stream = None;
                    self.last_progress = now;
                    self.log(format!("{} answer op{} {} {} bytes", now, op, st, len));
                }
                Ok(None) if eof => {
                    r.dropped = Some(format!("closed after {} bytes", c.inbuf.len()));
                    r.answer_seq = seq;
                    r.answer = Some(now);
                    let op = r.op;
                    c.stream = None;
                    self.log(format!("{} dropped op{}", now, op));
                }
                Ok(None) => {}
                Err(e) => {
                    r.dropped = Some(e);
                    r.answer = Some(now);
                    r.answer_seq = seq;
                    c.stream = None;
                }
            }
        }
    }

    fn flush(&mut self, i: usize) {
        let now = self.now;
        let c = &mut self.conns[i];
        let Some(s) = c.stream.as_mut() else { return };
        let n = if c.piece == 0 { c.out.len() } else { c.piece.min(c.out.len()) };
        // Many small pieces fill the socket while no worker reads: the rest has to wait.
        let mut gap = c.gap.max(1000);
        match s.write(&c.out[..n]) {
            Ok(k) => {
                c.out.drain(..k);
                self.last_progress = now;
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => gap = gap.max(200_000_000),
            Err(_) => c.out.clear(),
        }
        let c = &self.conns[i];
        if !c.out.is_empty() {
            self.at(now + gap, Ev::Piece(i));
        }
    }

    /// Returns what a crash event asks for.
    fn event(&mut self, e: Ev) -> Flow {
        if !matches!(e, Ev::Piece(_)) {
            self.last_progress = self.now;
        }
        match e {
            Ev::Piece(i) => self.flush(i),
            Ev::Abort(i) => {
                let c = &mut self.conns[i];
                if c.stream.is_some() {
                    c.stream = None;
                    let req = c.req;
                    let op = self.h.reqs[req].op;
                    self.h.reqs[req].aborted = true;
                    self.h.stats.aborts += 1;
                    self.log(format!("{} abort op{}", self.now, op));
                }
            }
            Ev::Op(k) => {
                let plan = self.plan;
                let op = &plan.ops[k];
                match &op.kind {
                    Kind::Push { repo, edits } => self.push(*repo, edits),
                    Kind::Skew(ns) => {
                        self.skew += ns;
                        let s = self.skew;
                        self.shm.get().real_skew = s;
                        self.h.stats.skews += 1;
                        self.log(format!("skew {}", ns));
                    }
                    Kind::Repair => self.repair(),
                    Kind::Debris { repo, path, commit } => {
                        if let Some(r) = self.world.repos.get(*repo) {
                            let f = r.commits.get(*commit).and_then(|c| c.tree.values().find(|f| matches!(f, crate::weights::File::Weights(_))));
                            let p = self.dir.join("root").join(&r.name).join(path);
                            let _ = std::fs::create_dir_all(p.parent().unwrap());
                            let _ = std::fs::write(&p, f.map(|f| f.bytes()).unwrap_or_default());
                            self.log(format!("debris {}", path));
                        }
                    }
                    Kind::Crash(down) => return Flow::Crash { down_ms: *down, repair: false },
                    _ => {
                        let Some(stream) = self.connect() else {
                            // Not listening yet.
                            let t = self.now + 20_000_000;
                            if t < op.at_us.min(1 << 50) * 1000 + 600_000_000_000 || op.at_us == EPILOGUE {
                                self.at(t, Ev::Op(k));
                            } else {
                                self.h.reqs.push(Req {
                                    op: op.id,
                                    inc: self.inc,
                                    conn: 0,
                                    send: self.now,
                                    send_seq: self.seq,
                                    answer: None,
                                    answer_seq: 0,
                                    resp: None,
                                    dropped: Some("nobody listens".into()),
                                    aborted: false,
                                    crashed: false,
                                    frag: false,
                                    epilogue: op.at_us == EPILOGUE,
                                });
                            }
                            return Flow::Go;
                        };
                        self.n_conn += 1;
                        let req = self.h.reqs.len();
                        self.h.reqs.push(Req {
                            op: op.id,
                            inc: self.inc,
                            conn: self.n_conn,
                            send: self.now,
                            send_seq: self.seq,
                            answer: None,
                            answer_seq: 0,
                            resp: None,
                            dropped: None,
                            aborted: false,
                            crashed: false,
                            frag: matches!(op.client, Client::Frag { .. }),
                            epilogue: op.at_us == EPILOGUE,
                        });
                        let t = target(op).unwrap();
                        let hello = !self.plan.setup.tls.is_empty();
                        let out = if hello { include_bytes!("tls/hello.bin").to_vec() } else { format!("GET {} HTTP/1.1\r\nHost: localhost:8080\r\nConnection: close\r\n\r\n", t).into_bytes() };
                        let (piece, gap) = match op.client {
                            Client::Frag { piece, gap_us } => (piece.max(1), gap_us.max(1) * 1000),
                            _ => (0, 0),
                        };
                        if piece > 0 {
                            self.h.stats.frags += 1;
                        }
                        let i = self.conns.len();
                        self.conns.push(Conn { req, stream: Some(stream), inbuf: vec![], out, piece, gap, hello });
                        self.log(format!("{} send op{} c{} {}", self.now, op.id, self.n_conn, t));
                        self.flush(i);
                        if let Client::Abort { after_us } = op.client {
                            self.at(self.now + after_us * 1000, Ev::Abort(i));
                        }
                    }
                }
            }
        }
        Flow::Go
    }

    fn unresolved(&self) -> bool {
        self.conns.iter().any(|c| c.stream.is_some())
    }

    fn crash(&mut self, p: &mut Proc, down_ms: u64, repair: bool) {
        p.kill();
        self.log(format!("{} crash", self.now));
        self.harvest(None, true);
        for c in &mut self.conns {
            if c.stream.take().is_some() {
                self.h.reqs[c.req].crashed = true;
            }
        }
        self.live_git.clear();
        self.now += down_ms.max(1) * 1_000_000;
        self.last_progress = self.now;
        if repair {
            self.repair();
        }
        self.inc += 1;
        self.h.stats.restarts += 1;
    }

    fn server_args(&self) -> Vec<String> {
        let root = match self.plan.setup.root_kind.as_str() {
            "" => self.dir.join("root").display().to_string(),
            "/" => format!("{}/", self.dir.join("root").display()),
            "noroot" => self.dir.join("noroot").display().to_string(),
            rel => rel.into(),
        };
        let mut v = vec!["--root".to_string(), root, "--static".into()];
        v.push(match self.plan.setup.static_kind.as_str() {
            "" => self.env.statics.display().to_string(),
            "missing" => self.dir.join("nostatic").display().to_string(),
            "file" => self.dir.join("gitconfig").display().to_string(),
            // A copy below the scratch directory, next to what must not be served.
            "local" => self.dir.join("static").display().to_string(),
            s => s.into(),
        });
        v.push("--repos".into());
        if self.plan.setup.no_repos {
        } else if self.plan.setup.repos.is_empty() {
            v.extend(self.world.repos.iter().map(|r| r.name.clone()));
        } else {
            v.extend(self.plan.setup.repos.iter().cloned());
        }
        let file = |n: &str| self.dir.join(n).display().to_string();
        let (cert, key) = match self.plan.setup.tls.as_str() {
            "" => ("", ""),
            "only-cert" => ("cert.pem", ""),
            "only-key" => ("", "key.pem"),
            "no-cert" => ("nocert.pem", "key.pem"),
            "no-key" => ("cert.pem", "nokey.pem"),
            "bad-cert" => ("gitconfig", "key.pem"),
            "bad-key" => ("cert.pem", "gitconfig"),
            "cut-key" => ("cert.pem", "cut.pem"),
            "swapped" => ("key.pem", "cert.pem"),
            "other-key" => ("cert.pem", "other.pem"),
            _ => ("cert.pem", "key.pem"),
        };
        if !cert.is_empty() {
            v.extend(["--cert".into(), file(cert)]);
        }
        if !key.is_empty() {
            v.extend(["--key".into(), file(key)]);
        }
        let s = &self.plan.setup;
        if !s.port.is_empty() {
            v.push(format!("--port={}", s.port));
        }
        if !s.endpoint.is_empty() {
            v.push(format!("--endpoint={}", s.endpoint));
        }
        v
    }

    fn start_server(&mut self) -> Proc {
        let args = self.server_args();
        let dir = self.dir.clone();
        let web = self.env.web.clone();
        self.conf_launch(self.plan.hash_seed, &web, &args, &dir, &dir.join("stdout"), false)
    }

    pub fn prepare_setup(&mut self) {
        if !self.plan.setup.tls.is_empty() {
            let key = include_str!("tls/key.pem");
            for (n, text) in [("cert.pem", include_str!("tls/cert.pem")), ("key.pem", key), ("other.pem", include_str!("tls/other.pem")), ("cut.pem", &key[..key.len() / 2])] {
                let _ = std::fs::write(self.dir.join(n), text);
            }
        }
        if self.plan.setup.static_kind == "local" {
            let _ = copy_tree(&self.env.statics, &self.dir.join("static"));
        }
        for (name, kind) in self.plan.setup.extra.clone() {
            let p = self.dir.join("root").join(&name);
            match kind.as_str() {
                "empty" => {
                    let _ = std::fs::create_dir_all(&p);
                }
                "file" => {
                    let _ = std::fs::write(&p, b"x");
                }
                "absent" => {}
                // The directory that holds the repositories is a checkout itself.
                "parent" => {
                    let root = self.dir.join("root");
                    git(&self.dir, &root, &["init", "-q", "--template=", "."]);
                    git(&self.dir, &root, &["remote", "add", "origin", "https://github.com/paritytech/parent"]);
                    let _ = std::fs::create_dir_all(&p);
                }
                "bare" => {
                    let _ = std::fs::create_dir_all(&p);
                    git(&self.dir, &p, &["init", "-q", "--bare", "--template=", "."]);
                    git(&self.dir, &p, &["remote", "add", "origin", "https://github.com/paritytech/bare"]);
                }
                c if c.starts_with("copy:") => {
                    let _ = copy_tree(&self.dir.join("root").join(&c[5..]), &p);
                }
                url => {
                    let _ = std::fs::create_dir_all(&p);
                    git(&self.dir, &p, &["init", "-q", "--template=", "."]);
                    if !url.is_empty() && url != "noorigin" {
                        git(&self.dir, &p, &["remote", "add", "origin", url]);
                    }
                }
            }
        }
    }

    pub fn run_web(&mut self) {
        self.prepare_setup();
        for (k, op) in self.plan.ops.iter().enumerate() {
            if op.at_us == EPILOGUE {
                self.epilogue.push(k);
            } else {
                self.qseq += 1;
                self.queue.insert((op.at_us * 1000, self.qseq), Ev::Op(k));
            }
        }
        self.epilogue.reverse();
        let before = if self.plan.property == "C12" { Some(self.guarded()) } else { None };
        self.serve();
        if let Some(b) = before {
            let a = self.guarded();
            self.h.outside = a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(k, v)| format!("{} {}", k, v)).collect();
            self.h.outside.extend(b.keys().filter(|k| !a.contains_key(*k)).cloned());
        }
    }

    fn serve(&mut self) {
        let mut p = self.start_server();
        loop {
            let m = match p.recv() {
                Recv::Msg(m) => m,
                Recv::Gone(x) => {
                    self.log(format!("server gone: {:?}", x));
                    self.poll_clients();
                    for c in &mut self.conns {
                        if c.stream.take().is_some() {
                            let r = &mut self.h.reqs[c.req];
                            r.dropped = Some(format!("server ended with {:?}", x));
                            r.answer = Some(self.now);
                        }
                    }
                    self.harvest(Some(x), false);
                    self.finish_locks();
                    return;
                }
                Recv::Stuck => {
                    self.h.stuck = true;
                    p.kill();
                    self.harvest(None, false);
                    self.finish_locks();
                    return;
                }
            };
            self.seq += 1;
            self.h.stats.messages += 1;
            self.now = self.now.max(m.h.now);
            if self.shm.get().listening > 0 && !self.h.incs.last().unwrap().listened {
                let seq = self.seq;
                let i = self.h.incs.last_mut().unwrap();
                i.listened = true;
                i.listen_seq = seq;
            }
            self.poll_clients();
            let mut flow = Flow::Go;
            if m.h.typ == M_IDLE {
                match self.idle(m.h.a) {
                    Ok(Some(t)) => {
                        self.now = self.now.max(t);
                        // Until the next event of ours the process may pass the time on its own.
                        let horizon = if self.unresolved() { 0 } else { self.queue.keys().next().map_or(0, |k| k.0.saturating_sub(1)) };
                        p.reply(Reply { a: t, b: horizon, ..Default::default() }, &[]);
                    }
                    Ok(None) => break,
                    Err(f) => flow = f,
                }
            } else {
                self.last_progress = self.now;
                flow = self.handle(&mut p, &m);
            }
            if let Flow::Crash { down_ms, repair } = flow {
                self.crash(&mut p, down_ms, repair);
                p = self.start_server();
            }
            if self.h.livelock {
                break;
            }
        }
        p.kill();
        self.harvest(None, false);
        self.finish_locks();
    }

    fn finish_locks(&mut self) {
        let l: Vec<_> = self.locked.iter().map(|(r, t)| (*t, u64::MAX, *r)).collect();
        self.h.locks.extend(l);
        self.h.stats.sim_ns = self.now;
    }

    /// Everything sleeps: decide what happens next. None = the run is over.
    fn idle(&mut self, min: u64) -> Result<Option<u64>, Flow> {
        if self.queue.is_empty() && !self.unresolved() {
            match self.epilogue.pop() {
                Some(k) => {
                    let t = self.now + 1_000_000;
                    self.at(t, Ev::Op(k));
                }
                None => return Ok(None),
            }
        }
        let next = self.queue.keys().next().map(|k| k.0);
        if let Some(t) = next {
            let t = t.max(self.now);
            if t <= min {
                self.now = t;
                while let Some((&k, _)) = self.queue.iter().next() {
                    if k.0 > t {
                        break;
                    }
                    let e = self.queue.remove(&k).unwrap();
                    if let Flow::Crash { down_ms, repair } = self.event(e) {
                        return Err(Flow::Crash { down_ms, repair });
                    }
                }
                return Ok(Some(t));
            }
        } else if self.unresolved() && self.live_git.is_empty() && (min == u64::MAX || self.now > self.last_progress + 120_000_000_000) {
            let who: Vec<u32> = self.conns.iter().filter(|c| c.stream.is_some()).map(|c| self.h.reqs[c.req].op).collect();
            self.h.hang = Some(format!("no progress for 120 simulated seconds with no git process running; unanswered operations {:?}", who));
            return Ok(None);
        }
        if min == u64::MAX {
            self.h.harness_error = Some("idle without deadline".into());
            return Ok(None);
        }
        Ok(Some(min))
    }

    // ------------------------------------------------------------------ command line

    pub fn run_cli(&mut self) {
        for (k, c) in self.plan.cli.iter().enumerate() {
            for (r, e) in &c.push {
                self.push(*r, std::slice::from_ref(e));
            }
            if c.repair {
                self.repair();
            }
            self.write_files(&c.what);
            // What was pushed before is not what the run may see any more.
            self.now += 1;
            self.cli_faults.clear();
            self.cli_write_error = false;
            let cwd = self.dir.join(&c.cwd);
            let out = self.dir.join(format!("out.{}", k));
            let cli = self.env.cli.clone();
            let args: Vec<String> = c.args.iter().map(|a| a.replace("$S", &self.h.scratch)).collect();
            self.log(format!("run {:?}", args));
            let start = self.now;
            let mut p = self.conf_launch(c.hash_seed, &cli, &args, &cwd, &out, true);
            let mut o = CliOut { start, ..Default::default() };
            loop {
                let m = match p.recv() {
                    Recv::Msg(m) => m,
                    Recv::Gone(x) => {
                        self.log(format!("exit {:?}", x));
                        o.exit = Some(x.clone());
                        self.harvest(Some(x), false);
                        break;
                    }
                    Recv::Stuck => {
                        self.h.stuck = true;
                        p.kill();
                        self.harvest(None, false);
                        break;
                    }
                };
                self.seq += 1;
                self.h.stats.messages += 1;
                self.now = self.now.max(m.h.now);
                if m.h.typ == M_IDLE {
                    if m.h.a == u64::MAX {
                        self.h.hang = Some("the command line tool waits for nothing".into());
                        p.kill();
                        self.harvest(None, false);
                        break;
                    }
                    self.now = self.now.max(m.h.a);
                    p.reply(Reply { a: m.h.a, ..Default::default() }, &[]);
                } else if let Flow::Crash { down_ms, repair } = self.handle(&mut p, &m) {
                    p.kill();
                    o.crashed = true;
                    self.harvest(None, true);
                    self.now += down_ms * 1_000_000;
                    if repair {
                        self.repair();
                    }
                    self.h.stats.restarts += 1;
                    break;
                }
                if self.h.livelock {
                    p.kill();
                    self.harvest(None, false);
                    break;
                }
            }
            self.live_git.clear();
            o.end = self.now;
            o.stdout = std::fs::read(&out).unwrap_or_default();
            o.stderr = self.h.incs.last().map(|i| i.stderr.clone()).unwrap_or_default();
            o.faults = self.cli_faults.clone();
            o.write_error = self.cli_write_error;
            self.h.cli.push(o);
            self.inc += 1;
            self.now += 1_000_000_000;
        }
        self.finish_locks();
    }

    /// Writes the explicit files of a file comparison below `files/`.
    fn write_files(&mut self, w: &CliWhat) {
        let list: Vec<(&str, &Vec<(usize, usize, String)>)> = match w {
            CliWhat::Files { old, new, .. } => vec![("old", old), ("new", new)],
            CliWhat::Parse { files } => vec![("p", files)],
            _ => vec![],
        };
        for (side, files) in list {
            for (repo, commit, path) in files {
                let p = self.dir.join("files").join(side).join(path);
                let _ = std::fs::create_dir_all(p.parent().unwrap());
                let _ = std::fs::remove_file(&p);
                if let Some(f) = self.world.repos.get(*repo).and_then(|r| r.commits.get(*commit)).and_then(|c| c.tree.get(path)) {
                    let _ = std::fs::write(&p, f.bytes());
                }
            }
        }
    }

    /// Condenses everything observable of the run, without the directory it ran in.
    pub fn digest_parts(&self) -> Vec<(String, u64)> {
        use crate::exec::digest_of;
        let mut v = vec![("events".to_string(), digest_of(&self.h.events))];
        for r in &self.h.reqs {
            v.push((format!("op{} times {:?} {} {}", r.op, r.answer, r.send, r.conn), digest_of(&(r.op, r.send, r.answer, r.conn, &r.dropped, r.aborted, r.crashed))));
            if let Some(x) = &r.resp {
                v.push((format!("op{} body {} {} {}", r.op, x.status, x.body.len(), if x.status == 500 { String::from_utf8_lossy(&x.body).into_owned() } else { String::new() }), digest_of(&String::from_utf8_lossy(&x.body).replace(&self.h.scratch, "$S"))));
            }
        }
        for i in &self.h.incs {
            v.push(("schedule".into(), i.sched_hash));
        }
        v.push((format!("steps {} messages {} now {}", self.h.stats.steps, self.h.stats.messages, self.now), 0));
        v
    }

    pub fn digest(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut s = std::collections::hash_map::DefaultHasher::new();
        self.h.events.hash(&mut s);
        for r in &self.h.reqs {
            (r.op, r.send, r.answer, r.conn, &r.dropped, r.aborted, r.crashed).hash(&mut s);
            if let Some(x) = &r.resp {
                x.status.hash(&mut s);
                String::from_utf8_lossy(&x.body).replace(&self.h.scratch, "$S").hash(&mut s);
            }
        }
        for c in &self.h.cli {
            String::from_utf8_lossy(&c.stdout).replace(&self.h.scratch, "$S").hash(&mut s);
            format!("{:?}", c.exit).hash(&mut s);
        }
        for i in &self.h.incs {
            i.sched_hash.hash(&mut s);
        }
        (self.h.stats.steps, self.h.stats.messages, self.now).hash(&mut s);
        s.finish()
    }
}

