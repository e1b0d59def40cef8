//! A plan is everything a run depends on besides the code: it is what gets minimised and replayed.

use crate::world::{Refs, WorldSpec};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Query {
    pub old: String,
    pub new: String,
    pub repo: String,
    pub pattern: String,
    pub pallet: Option<String>,
    pub extrinsic: Option<String>,
    pub lenient: bool,
    pub threshold: u32,
    pub unit: String,
    pub pull: Option<bool>,
    pub method: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Edit {
    SetHead(String, usize),
    DelHead(String),
    SetTag(String, usize, bool),
    DelTag(String),
}
impl Edit {
    pub fn apply(&self, r: &mut Refs) {
        match self {
            Edit::SetHead(n, c) => {
                r.heads.insert(n.clone(), *c);
            }
            Edit::DelHead(n) => {
                r.heads.remove(n);
            }
            Edit::SetTag(n, c, a) => {
                r.tags.insert(n.clone(), (*c, *a));
            }
            Edit::DelTag(n) => {
                r.tags.remove(n);
            }
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kind {
    Compare(Query),
    Branches { repo: String, fetch: Option<bool> },
    Get(String),
    Push { repo: usize, edits: Vec<Edit> },
    /// The wall clock jumps.
    Skew(i64),
    /// An operator removes stale lock files.
    Repair,
    /// Kill the server between steps and start it again after this many ms.
    Crash(u64),
    /// A file of the checkout appears that nobody committed (debris).
    Debris { repo: usize, path: String, commit: usize },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Client {
    Normal,
    /// Sends the request in pieces of this many bytes.
    Frag { piece: usize, gap_us: u64 },
    /// Closes the connection this long after sending.
    Abort { after_us: u64 },
}

pub const EPILOGUE: u64 = u64::MAX;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    /// Simulated time in microseconds; EPILOGUE = once everything before has been answered.
    pub at_us: u64,
    pub kind: Kind,
    pub client: Client,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    /// Any git process.
    Git,
    /// git processes that contact the remote.
    GitNet,
    /// git processes that change the checkout.
    GitTree,
    /// ls-remote.
    GitList,
    /// Opening a file of a checkout.
    Open,
    /// Listing a directory of a checkout.
    Dir,
    /// Looking at what a path of a checkout is.
    Stat,
    /// Writing to standard output.
    Write,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Text {
    None,
    Net,
    Lock,
    Binary,
    /// What git itself prints.
    Own,
    /// One of the messages that git prints on many occasions.
    Usual(u32),
}

pub const USUAL: [&str; 14] = [
    "HEAD is now at 1234567 c",
    "Already up to date.",
    "fatal: couldn't find remote ref refs/heads/x",
    "fatal: the remote end hung up unexpectedly",
    "error: RPC failed; curl 28 Operation too slow. Less than 1000 bytes/sec transferred the last 10 seconds",
    "error: cannot lock ref refs/remotes/origin/master: is at 1234567 but expected 7654321",
    "error: Your local changes to the following files would be overwritten by checkout:",
    "error: unable to create file frame/balances/src/weights.rs: No space left on device",
    "fatal: Out of memory, malloc failed (tried to allocate 1048576 bytes)",
    "error: pathspec x did not match any file(s) known to git",
    "warning: exhaustive rename detection was skipped due to too many files.",
    "From https://github.com/paritytech/substrate\n * branch            master     -> FETCH_HEAD",
    "fatal: unable to access the remote: Connection timed out after 300000 milliseconds",
    "error: reference broken; hint: try git gc",
];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FaultKind {
    /// The process cannot be started.
    SpawnErr(i32),
    /// It exits with this code, after having taken effect or not.
    Exit { code: i32, text: Text, effect: bool },
    /// It is killed, after having taken effect or not.
    Kill { effect: bool },
    /// It is killed while changing the checkout.
    Torn { frac: u32, lock: bool },
    /// Prints only this part of its output (per mille of the bytes), then fails or is killed.
    Partial { pm: u32, kill: bool },
    /// Succeeds after printing this many KiB of progress to standard error.
    Loud(u32),
    /// Succeeds with damaged output.
    Garbage(u32),
    /// Takes this long.
    Slow(u64),
    /// The server is killed at this step (before, after or in the middle of it).
    CrashBefore { down_ms: u64, repair: bool },
    CrashAfter { down_ms: u64, repair: bool },
    CrashTorn { frac: u32, lock: bool, down_ms: u64, repair: bool },
    OpenErr(i32),
    ReadErr { off: u64, errno: i32 },
    StatErr(i32),
    DirErr(i32),
    DirReadErr { idx: u64, errno: i32 },
    WriteErr(i32),
    /// Only this many bytes are taken.
    WriteShort(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub class: Class,
    /// Hits the n-th event of its class (from 0).
    pub nth: u64,
    pub kind: FaultKind,
}

/// Harmless variation of I/O.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Noise {
    pub seed: u64,
    /// Per mille of files that are read in small pieces.
    pub chunk_pm: u64,
    pub eintr_pm: u64,
    /// Per mille of directory listings in a random order.
    pub shuffle_pm: u64,
    /// Standard output taken in pieces.
    pub short_write_pm: u64,
    pub eintr_write_pm: u64,
}

/// What the server is started with (C13).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Setup {
    /// Extra directories below the root: (name, kind).
    pub extra: Vec<(String, String)>,
    pub repos: Vec<String>,
    pub static_kind: String,
    /// The wall clock at the start differs from the usual one by this many nanoseconds.
    #[serde(default)]
    pub skew: i64,
    /// How the root directory is given; empty for its absolute path.
    #[serde(default)]
    pub root_kind: String,
    /// Everything lives below a directory whose name looks like a pattern.
    #[serde(default)]
    pub odd_dir: bool,
    /// The certificate and key that are given; empty for none.
    #[serde(default)]
    pub tls: String,
    /// The port and address that are given; empty for none.
    #[serde(default)]
    pub port: String,
    #[serde(default)]
    pub endpoint: String,
    /// Somebody else has the port: bit 0 when the server is first started, bit 1 later.
    #[serde(default)]
    pub busy: u8,
    /// `--repos` is given without a repository.
    #[serde(default)]
    pub no_repos: bool,
    /// What the programs log; empty for errors only.
    #[serde(default)]
    pub log: String,
}

impl Setup {
    /// The port the server is to listen on, if there is one.
    pub fn listens_on(&self) -> Option<u16> {
        match self.port.as_str() {
            "" => Some(8080),
            p => p.parse().ok(),
        }
    }
    pub fn taken(&self, inc: usize) -> bool {
        self.busy & (1 << inc.min(1)) != 0
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CliRun {
    pub args: Vec<String>,
    /// Working directory relative to the scratch directory.
    pub cwd: String,
    /// Model input for the oracle.
    pub what: CliWhat,
    /// Edits pushed to the remote before this run.
    pub push: Vec<(usize, Edit)>,
    pub repair: bool,
    pub hash_seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CliWhat {
    Commits { repo: usize, q: Query, force: bool, offline: bool, format: String, changes: Vec<String> },
    Files { old: Vec<(usize, usize, String)>, new: Vec<(usize, usize, String)>, q: Query, format: String, changes: Vec<String> },
    Parse { files: Vec<(usize, usize, String)> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub profile: String,
    pub seed: u64,
    pub world: WorldSpec,
    pub sched_seed: u64,
    pub hash_seed: u64,
    pub preempt_pm: u32,
    /// Some: only these deviations from the default schedule, per incarnation of the server.
    pub devs: Option<Vec<Vec<(u64, u32)>>>,
    pub dur_seed: u64,
    /// Scale of the duration of git steps, in percent.
    pub dur_scale: u64,
    pub ops: Vec<Op>,
    pub cli: Vec<CliRun>,
    pub faults: Vec<Fault>,
    pub noise: Noise,
    pub setup: Setup,
}

impl FaultKind {
    /// Whether the step has failed, as far as its caller can tell.
    pub fn fails(&self, read_only: bool) -> bool {
        match self {
            FaultKind::SpawnErr(_) | FaultKind::Kill { .. } | FaultKind::Torn { .. } | FaultKind::Partial { .. } => true,
            // "No" as the answer of a question.
            FaultKind::Exit { code, .. } => !(read_only && *code == 1),
            _ => false,
        }
    }
}
