//! What a run recorded.

use crate::http::Response;
use crate::proc::Exit;
use crate::world::Refs;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Req {
    pub op: u32,
    pub inc: u32,
    /// Connection in order of acceptance within the incarnation.
    pub conn: u32,
    pub send: u64,
    pub send_seq: u64,
    pub answer: Option<u64>,
    pub answer_seq: u64,
    pub resp: Option<Response>,
    /// The server closed the connection without a complete response.
    pub dropped: Option<String>,
    pub aborted: bool,
    /// The server was killed while this was in flight.
    pub crashed: bool,
    pub frag: bool,
    pub epilogue: bool,
}

#[derive(Clone, Debug, Default)]
pub struct GitEv {
    pub id: u64,
    pub inc: u32,
    pub tid: u32,
    pub epoch: u32,
    pub conn: u32,
    /// The directory that git works in, and its arguments without those that say so (`-C`).
    pub cwd: String,
    pub file: String,
    pub argv: Vec<String>,
    /// The arguments as they were given.
    pub raw: Vec<String>,
    pub begin: u64,
    pub begin_seq: u64,
    pub exec_seq: u64,
    pub done: u64,
    pub done_seq: u64,
    pub ret_seq: u64,
    pub fault: Option<usize>,
    /// errno of the start, and status of the process.
    pub res: i32,
    pub ok: bool,
    pub finished: bool,
}
impl GitEv {
    /// The git sub-command, skipping global options.
    pub fn sub(&self) -> &str {
        sub_of(&self.argv)
    }
}
pub fn sub_of(argv: &[String]) -> &str {
    let mut i = 1;
    while i < argv.len() {
        match argv[i].as_str() {
            "-C" | "-c" | "--git-dir" | "--work-tree" => i += 2,
            s if s.starts_with('-') => i += 1,
            s => return s,
        }
    }
    ""
}
/// Where git works if it is started in `cwd` with these arguments, and the arguments without `-C`.
pub fn working_dir(cwd: &str, argv: &[String]) -> (String, Vec<String>) {
    let join = |dir: &str, p: &str| if p.starts_with('/') { p.to_string() } else { format!("{}/{}", dir, p) };
    let (mut dir, mut out) = (cwd.to_string(), argv.iter().take(1).cloned().collect::<Vec<_>>());
    let (mut tree, mut i) = (None, 1);
    while i < argv.len() && argv[i].starts_with('-') {
        let (a, next) = (argv[i].as_str(), argv.get(i + 1));
        let value = |name: &str| a.strip_prefix(name).and_then(|v| v.strip_prefix('=')).map(|v| v.to_string()).or(if a == name { next.cloned() } else { None });
        if a == "-C" {
            dir = next.map_or(dir.clone(), |n| join(&dir, n));
            i += 2;
            continue;
        }
        if let Some(w) = value("--work-tree") {
            tree = Some(join(&dir, &w));
        } else if let (Some(g), None) = (value("--git-dir"), &tree) {
            tree = join(&dir, &g).trim_end_matches('/').strip_suffix("/.git").map(|t| t.to_string());
        }
        let two = ["-c", "--git-dir", "--work-tree"].contains(&a) as usize;
        out.extend(argv[i..(i + 1 + two).min(argv.len())].iter().cloned());
        i += 1 + two;
    }
    out.extend(argv[i.min(argv.len())..].iter().cloned());
    (tree.unwrap_or(dir), out)
}
pub const READ_ONLY: [&str; 16] = [
    "ls-remote", "rev-parse", "remote", "ls-files", "log", "show", "cat-file", "ls-tree", "for-each-ref", "status", "config", "diff", "describe",
    "rev-list", "version", "show-ref",
];

#[derive(Clone, Debug)]
pub struct FileEv {
    pub seq: u64,
    pub now: u64,
    pub inc: u32,
    pub tid: u32,
    pub epoch: u32,
    pub conn: u32,
    pub path: String,
    pub real: String,
    pub dir: bool,
    pub watched: bool,
    pub write: bool,
    pub fault: Option<usize>,
    /// A read fault only counts if it is inside the file.
    pub hit: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct LocalRefs {
    /// full ref name -> object
    pub refs: BTreeMap<String, String>,
}

#[derive(Clone, Debug)]
pub struct FaultFired {
    pub idx: usize,
    pub now: u64,
    pub seq: u64,
    pub conn: u32,
    pub inc: u32,
    pub repo: String,
}

#[derive(Clone, Debug, Default)]
pub struct Incarnation {
    pub start: u64,
    pub end: u64,
    pub exit: Option<Exit>,
    pub crashed: bool,
    pub listened: bool,
    pub listen_seq: u64,
    pub devs: Vec<(u64, u32)>,
    pub sched_hash: u64,
    pub stderr: String,
    /// Other ports the server listened on.
    pub elsewhere: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub choice_points: u64,
    pub messages: u64,
    pub threads: u64,
    pub clock_reads: u64,
    pub git: u64,
    pub opens: u64,
    pub sim_ns: u64,
    pub chunked: u64,
    pub eintr: u64,
    pub shuffled: u64,
    pub aborts: u64,
    pub frags: u64,
    pub pushes: u64,
    pub skews: u64,
    pub restarts: u64,
    pub short_writes: u64,
    pub overlapping: u64,
}

#[derive(Clone, Debug, Default)]
pub struct CliOut {
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub exit: Option<Exit>,
    pub crashed: bool,
    pub start: u64,
    pub end: u64,
    pub faults: Vec<usize>,
    /// Bytes the program was told were written.
    pub write_error: bool,
}

#[derive(Clone, Debug, Default)]
pub struct History {
    pub reqs: Vec<Req>,
    pub git: Vec<GitEv>,
    pub files: Vec<FileEv>,
    /// Paths that could not be looked at: (incarnation, connection, path).
    pub unseen: Vec<(u32, u32, String)>,
    /// (time, repo, refs) after each change, first entry at time 0.
    pub remote: Vec<(u64, usize, Refs)>,
    /// (time, repo, refs) after each git step that may change refs, first entry at time 0.
    pub local: Vec<(u64, usize, LocalRefs)>,
    pub fired: Vec<FaultFired>,
    pub incs: Vec<Incarnation>,
    pub cli: Vec<CliOut>,
    pub stats: Stats,
    pub other_exec: Vec<String>,
    /// The run ended because nothing moved any more.
    pub hang: Option<String>,
    pub stuck: bool,
    pub livelock: bool,
    /// Directory of the run, to normalise paths.
    pub scratch: String,
    /// Index locks present: (time from, time to, repo).
    pub locks: Vec<(u64, u64, usize)>,
    pub events: Vec<String>,
    /// What changed outside of the checkouts.
    pub outside: Vec<String>,
    pub harness_error: Option<String>,
}
