"""Helpers for demonstrations: scratch repositories, a git wrapper that can delay or fail, the server."""
import atexit, http.client, os, re, shutil, signal, socket, subprocess, sys, tempfile, threading, time, urllib.parse

REPO = os.getcwd()
WEB = os.path.join(REPO, "target/debug/subweight-web")
CLI = os.path.join(REPO, "target/debug/subweight")
GIT = shutil.which("git")
HERE = os.path.dirname(os.path.abspath(sys.argv[0]))


def wf(calls):
    """A weight file. calls: {name: base} or {name: (args, docs, expression)}"""
    s = "impl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T> {\n"
    for n, c in calls.items():
        if isinstance(c, int):
            c = ("", "", "Weight::from_parts(%d, 0)" % c)
        args, docs, expr = c
        for d in docs.splitlines():
            s += "\t/// %s\n" % d
        s += "\tfn %s(%s) -> Weight {\n\t\t%s\n\t}\n" % (n, args, expr)
    return s + "}\n"


class Lab:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="swcdemo")
        self.procs = []
        atexit.register(self.close)
        os.makedirs(self.tmp + "/bin")
        os.makedirs(self.tmp + "/root")
        os.makedirs(self.tmp + "/static")
        with open(self.tmp + "/gitconfig", "w") as f:
            f.write("[user]\n name = a\n email = a@b\n[safe]\n directory = *\n[gc]\n auto = 0\n[protocol \"file\"]\n allow = always\n"
                    "[init]\n defaultBranch = master\n[advice]\n detachedHead = false\n"
                    "[url \"file://%s/remote/\"]\n insteadOf = https://github.com/\n" % self.tmp)
        self.env = dict(PATH=self.tmp + "/bin:/usr/local/bin:/usr/bin:/bin", HOME=self.tmp, LAB=self.tmp, LC_ALL="C", TZ="UTC",
                        GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL=self.tmp + "/gitconfig", GIT_TERMINAL_PROMPT="0")
        with open(self.tmp + "/bin/git", "w") as f:
            f.write("#!/bin/bash\nt() { date +%%s.%%N; }\necho \"$(t) begin $$ ${PWD##*/} $*\" >>\"$LAB/log\"\n"
                    "trap 'echo \"$(t) end $$ ${PWD##*/} $*\" >>\"$LAB/log\"' EXIT\n"
                    "[ \"$1\" = remote ] && export GIT_CONFIG_GLOBAL=/dev/null\n[ -f \"$LAB/hook\" ] && . \"$LAB/hook\"\n%s \"$@\"\n" % GIT)
        os.chmod(self.tmp + "/bin/git", 0o755)

    def close(self):
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def git(self, cwd, *a):
        return subprocess.run([GIT, *a], cwd=cwd, env=self.env, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout.decode()

    def hook(self, text):
        """Shell text that every git of the program under test sources first; None removes it."""
        p = self.tmp + "/hook"
        if text is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            with open(p + ".new", "w") as f:
                f.write(text)
            os.rename(p + ".new", p)

    def log(self):
        p = self.tmp + "/log"
        if not os.path.exists(p):
            return []
        out = []
        for l in open(p):
            f = l.rstrip("\n").split(" ", 4)
            out.append((float(f[0]), f[1], f[2], f[3], f[4] if len(f) > 4 else ""))
        return out

    def clear_log(self):
        open(self.tmp + "/log", "w").close()

    def repo(self, name="polkadot", org="paritytech", files=None):
        """A remote with one commit on master and its clone below root/."""
        work = "%s/work/%s" % (self.tmp, name)
        bare = "%s/remote/%s/%s.git" % (self.tmp, org, name)
        os.makedirs(work)
        os.makedirs(os.path.dirname(bare), exist_ok=True)
        self.git(self.tmp, "init", "-q", "--bare", bare)
        self.git(bare, "config", "uploadpack.allowAnySHA1InWant", "true")
        self.git(work, "init", "-q")
        self.git(work, "remote", "add", "origin", "https://github.com/%s/%s.git" % (org, name))
        self.commit(name, files or {"README.md": "x\n"})
        self.clone(name, org)

    def clone(self, name, org="paritytech"):
        self.git(self.tmp + "/root", "clone", "-q", "https://github.com/%s/%s.git" % (org, name), name)

    def commit(self, name, files, branch="master", base=None, push=True, remove=()):
        """Commits exactly the given changes on top of the work tree and pushes the branch. Returns the hash."""
        work = "%s/work/%s" % (self.tmp, name)
        if base:
            self.git(work, "checkout", "-q", "-f", "-B", branch, base)
        elif subprocess.run([GIT, "rev-parse", "-q", "--verify", "HEAD"], cwd=work, env=self.env, stdout=subprocess.DEVNULL).returncode == 0:
            self.git(work, "checkout", "-q", "-f", "-B", branch)
        for r in remove:
            os.unlink(os.path.join(work, r))
        for p, c in files.items():
            p = os.path.join(work, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p):
                os.unlink(p)
            if isinstance(c, tuple):
                os.symlink(c[0], p)
            else:
                with open(p, "wb") as f:
                    f.write(c.encode() if isinstance(c, str) else c)
        self.git(work, "add", "-A")
        self.git(work, "commit", "-q", "--allow-empty", "-m", "c")
        if push:
            self.git(work, "push", "-q", "-f", "origin", branch)
        return self.git(work, "rev-parse", "HEAD").strip()

    def run(self, args, cwd=None, env=None, **k):
        e = dict(self.env)
        e.update(env or {})
        return subprocess.run(args, cwd=cwd or self.tmp, env=e, stdout=k.pop("stdout", subprocess.PIPE), stderr=subprocess.PIPE, timeout=120, **k)

    def serve(self, *repos, static=None, root=None, wait=True, env=None):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        e = dict(self.env)
        e.update(env or {})
        self.errlog = self.tmp + "/server.log"
        p = subprocess.Popen([WEB, "--root", root or self.tmp + "/root/", "--static", static or self.tmp + "/static", "--port", str(self.port), "--repos", *repos],
                             cwd=self.tmp, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.errlog, "ab"), start_new_session=True)
        self.procs.append(p)
        self.server = p
        if wait:
            for _ in range(200):
                try:
                    if self.get("/version", timeout=5)[0] == 200:
                        return p
                except OSError:
                    pass
                if p.poll() is not None:
                    raise RuntimeError("server ended: " + open(self.errlog).read()[-2000:])
                time.sleep(0.05)
            raise RuntimeError("server does not answer")
        return p

    def get(self, path, timeout=60, **params):
        if params:
            path += "?" + urllib.parse.urlencode(params)
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        try:
            c.request("GET", path, headers={"Connection": "close", "Accept-Encoding": "identity"})
            r = c.getresponse()
            return r.status, r.read().decode("utf-8", "replace")
        finally:
            c.close()

    def compare(self, old, new, repo="polkadot", pattern="**/*.rs", timeout=60, **o):
        a = dict(old=old, new=new, repo=repo, path_pattern=pattern, ignore_errors="false", threshold="0", unit="time", method="base")
        a.update({k: v for k, v in o.items() if v is not None})
        return self.get("/compare", timeout=timeout, **a)


def cached(body):
    """The answer's own statement whether it was a cache hit."""
    t = " ".join(re.sub(r"<[^>]*>", " ", body).split())
    m = re.search(r"Cache hit:?\s*(\S+)", t, re.I)
    return m.group(1).strip().lower().rstrip(".,") if m else None


def text(body):
    return " ".join(re.sub(r"<[^>]*>", " ", body).split())


def bg(f, *a, **k):
    """Runs f in a thread; returns a function that waits for the result."""
    box = []

    def go():
        try:
            box.append((True, f(*a, **k)))
        except Exception as e:
            box.append((False, e))
    t = threading.Thread(target=go, daemon=True)
    t.start()

    def wait(timeout=100):
        t.join(timeout)
        if not box:
            raise TimeoutError()
        ok, v = box[0]
        if not ok:
            raise v
        return v
    return wait


def need(ok, msg):
    if not ok:
        print("BROKEN: " + msg)
        sys.exit(1)
