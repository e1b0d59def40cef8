//! One simulated process: the unmodified binary with the shim preloaded, and its control channel.

use crate::world::git_env;
use std::ffi::CString;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::Duration;

pub const MAGIC: u64 = 0x53574353494d3031;
pub const MAX_DEV: usize = 32768;

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Dev {
    pub step: u64,
    pub thread: u32,
    pub pad: u32,
}

/// Mirrors `struct shm` of shim/swcsim.h.
#[repr(C)]
pub struct Shm {
    pub magic: u64,
    pub sched_seed: u64,
    pub hash_seed: u64,
    pub preempt_pm: u32,
    pub replay: u32,
    pub n_dev_in: u32,
    pub watch_stdout: u32,
    pub watch_stat: u32,
    pub pad: u32,
    pub start_now: u64,
    pub max_steps: u64,
    pub real_skew: i64,
    pub watch: [u8; 512],
    pub sockdir: [u8; 256],
    pub now: u64,
    pub steps: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub choice_points: u64,
    pub clock_reads: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub epoll_blocks: u64,
    pub threads: u64,
    pub spurious: u64,
    pub n_dev_out: u32,
    pub listening: u32,
    pub dev_in: [Dev; MAX_DEV],
    pub dev_out: [Dev; MAX_DEV],
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct MsgHead {
    pub typ: u32,
    pub len: u32,
    pub now: u64,
    pub tid: u32,
    pub epoch: u32,
    pub conn: u32,
    pub pad: u32,
    pub a: u64,
    pub b: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Reply {
    pub code: i32,
    pub len: u32,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub d: u64,
}

pub const M_HELLO: u32 = 1;
pub const M_IDLE: u32 = 2;
pub const M_SPAWN_BEGIN: u32 = 3;
pub const M_SPAWN_EXEC: u32 = 4;
pub const M_SPAWN_DONE: u32 = 5;
pub const M_SPAWN_RET: u32 = 6;
pub const M_OPEN: u32 = 7;
pub const M_OPENDIR: u32 = 8;
pub const M_READEND: u32 = 9;
pub const M_WRITE: u32 = 10;
pub const M_LIVELOCK: u32 = 11;
pub const M_STAT: u32 = 12;
pub const M_EXEC_OTHER: u32 = 13;

#[derive(Debug)]
pub struct Msg {
    pub h: MsgHead,
    pub payload: Vec<u8>,
}

/// A view of the control block. The mapping outlives the process.
pub struct ShmMap {
    pub ptr: *mut Shm,
    pub path: PathBuf,
}
unsafe impl Send for ShmMap {}

impl ShmMap {
    pub fn create(path: &Path) -> ShmMap {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("create shm");
        let size = std::mem::size_of::<Shm>();
        f.set_len(size as u64).expect("size shm");
        let p = unsafe { libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED, "mmap shm");
        ShmMap { ptr: p as *mut Shm, path: path.to_path_buf() }
    }
    pub fn get(&mut self) -> &mut Shm {
        unsafe { &mut *self.ptr }
    }
    pub fn now(&self) -> u64 {
        unsafe { std::ptr::read_volatile(&(*self.ptr).now) }
    }
}
impl Drop for ShmMap {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.ptr as *mut libc::c_void, std::mem::size_of::<Shm>());
        }
        let _ = std::fs::remove_file(&self.path);
    }
}

pub struct Conf<'a> {
    pub sched_seed: u64,
    pub hash_seed: u64,
    pub preempt_pm: u32,
    pub replay: bool,
    pub devs: &'a [(u64, u32)],
    pub watch_stdout: bool,
    pub watch_stat: bool,
    pub start_now: u64,
    pub real_skew: i64,
    pub max_steps: u64,
    pub watch: &'a Path,
    pub sockdir: &'a Path,
    pub log: &'a str,
}

pub struct Proc {
    pub child: Child,
    ctl: UnixStream,
    pub dead: bool,
}

#[derive(Debug)]
pub enum Recv {
    Msg(Msg),
    /// The process is gone: exit code or signal.
    Gone(Exit),
    /// It kept the processor for too long without reaching a scheduling point.
    Stuck,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}

fn put(dst: &mut [u8], p: &Path) {
    let b = p.as_os_str().as_encoded_bytes();
    assert!(b.len() < dst.len(), "path too long");
    dst.fill(0);
    dst[..b.len()].copy_from_slice(b);
}

pub fn launch(shm: &mut ShmMap, c: &Conf, scratch: &Path, bin: &Path, args: &[String], cwd: &Path, out: &Path, err: &Path, shim: &Path) -> Proc {
    let s = shm.get();
    s.magic = MAGIC;
    s.sched_seed = c.sched_seed;
    s.hash_seed = c.hash_seed;
    s.preempt_pm = c.preempt_pm;
    s.replay = c.replay as u32;
    s.watch_stdout = c.watch_stdout as u32;
    s.watch_stat = c.watch_stat as u32;
    s.start_now = c.start_now;
    s.max_steps = c.max_steps;
    s.real_skew = c.real_skew;
    put(&mut s.watch, c.watch);
    put(&mut s.sockdir, c.sockdir);
    s.now = c.start_now;
    s.steps = 0;
    s.switches = 0;
    s.sched_hash = 0;
    s.choice_points = 0;
    s.clock_reads = 0;
    s.futex_waits = 0;
    s.futex_wakes = 0;
    s.epoll_blocks = 0;
    s.threads = 0;
    s.spurious = 0;
    s.n_dev_out = 0;
    s.listening = 0;
    let n = c.devs.len().min(MAX_DEV);
    for (i, d) in c.devs.iter().take(n).enumerate() {
        s.dev_in[i] = Dev { step: d.0, thread: d.1, pad: 0 };
    }
    s.n_dev_in = n as u32;

    let (ours, theirs) = UnixStream::pair().expect("socketpair");
    ours.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
    let fd: RawFd = theirs.as_raw_fd();
    let mut cmd = Command::new(bin);
    git_env(&mut cmd, scratch);
    cmd.args(args)
        .current_dir(cwd)
        .env("RUST_BACKTRACE", "0")
        .env("RUST_LOG", if c.log.is_empty() { "error" } else { c.log })
        .env("LD_PRELOAD", shim)
        .env("SWCSIM_CTL", "100")
        .env("SWCSIM_SHM", &shm.path)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(out).expect("stdout file"))
        .stderr(std::fs::OpenOptions::new().create(true).append(true).open(err).expect("stderr file"));
    unsafe {
        cmd.pre_exec(move || {
            if fd == 100 {
                libc::fcntl(fd, libc::F_SETFD, 0);
            } else if libc::dup2(fd, 100) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            libc::personality(0x0040000); // ADDR_NO_RANDOMIZE
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let lim = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
            libc::setrlimit(libc::RLIMIT_STACK, &lim);
            Ok(())
        });
    }
    let child = cmd.spawn().unwrap_or_else(|e| panic!("cannot start {}: {}", bin.display(), e));
    drop(theirs);
    Proc { child, ctl: ours, dead: false }
}

impl Proc {
    fn read_all(&mut self, b: &mut [u8]) -> std::io::Result<()> {
        self.ctl.read_exact(b)
    }
    pub fn recv(&mut self) -> Recv {
        let mut h = MsgHead::default();
        let hb = unsafe { std::slice::from_raw_parts_mut(&mut h as *mut _ as *mut u8, std::mem::size_of::<MsgHead>()) };
        match self.read_all(hb) {
            Ok(()) => {}
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => return Recv::Stuck,
            Err(_) => return Recv::Gone(self.wait()),
        }
        let mut payload = vec![0u8; h.len as usize];
        if h.len > 0 && self.read_all(&mut payload).is_err() {
            return Recv::Gone(self.wait());
        }
        Recv::Msg(Msg { h, payload })
    }
    pub fn reply(&mut self, mut r: Reply, payload: &[u8]) {
        r.len = payload.len() as u32;
        let rb = unsafe { std::slice::from_raw_parts(&r as *const _ as *const u8, std::mem::size_of::<Reply>()) };
        let mut v = rb.to_vec();
        v.extend_from_slice(payload);
        let _ = self.ctl.write_all(&v);
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.dead = true;
    }
    pub fn wait(&mut self) -> Exit {
        use std::os::unix::process::ExitStatusExt;
        self.dead = true;
        match self.child.wait() {
            Ok(s) => s.code().map(Exit::Code).unwrap_or_else(|| Exit::Signal(s.signal().unwrap_or(0))),
            Err(_) => Exit::Signal(0),
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        if !self.dead {
            self.kill();
        }
    }
}

/// Payload of a SPAWN_EXEC reply.
pub fn exec_payload(env: &[String], argv: &[String]) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&(env.len() as u32).to_le_bytes());
    v.extend_from_slice(&(argv.len() as u32).to_le_bytes());
    for s in env.iter().chain(argv) {
        v.extend_from_slice(s.as_bytes());
        v.push(0);
    }
    v
}

/// Connects to a unix socket without blocking; None if nobody listens.
pub fn connect(path: &Path) -> Option<UnixStream> {
    unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return None;
        }
        let fd = OwnedFd::from_raw_fd(fd);
        let mut un: libc::sockaddr_un = std::mem::zeroed();
        un.sun_family = libc::AF_UNIX as u16;
        let c = CString::new(path.as_os_str().as_encoded_bytes()).ok()?;
        let b = c.as_bytes_with_nul();
        if b.len() > un.sun_path.len() {
            panic!("socket path too long: {}", path.display());
        }
        for (i, x) in b.iter().enumerate() {
            un.sun_path[i] = *x as libc::c_char;
        }
        let r = libc::connect(fd.as_raw_fd(), &un as *const _ as *const libc::sockaddr, std::mem::size_of::<libc::sockaddr_un>() as u32);
        if r < 0 {
            return None;
        }
        Some(UnixStream::from(fd))
    }
}
