//! Checks over the recorded history of a run. Nothing here looks at how the code does it.

use crate::hist::*;
use crate::http::*;
use crate::plan::*;
use crate::weights::{self, method, Expect, Params, Row, Tree};
use crate::world::{World, MAX_FILES};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable name of what is wrong; minimisation keeps it.
    pub class: &'static str,
    pub op: u32,
    pub text: String,
}

pub struct Ctx<'a> {
    pub plan: &'a Plan,
    pub w: &'a World,
    pub h: &'a History,
}

/// The arguments of a comparison, without the different ways to write them.
pub fn meaning(q: &Query) -> Query {
    let mut q = q.clone();
    if q.unit == "weight" {
        q.unit = "time".into();
    }
    q.pull = Some(q.pull.unwrap_or(true));
    for s in [&mut q.old, &mut q.new, &mut q.pattern] {
        *s = crate::http::unescape(s).trim().to_string();
    }
    // An empty filter selects everything.
    for s in [&mut q.pallet, &mut q.extrinsic] {
        if s.as_deref() == Some("") {
            *s = None;
        }
    }
    q
}

const HOUR10: u64 = 600_000_000_000;

/// What a comparison page shows, without what may differ between two answers of the same comparison.
pub fn same_page(a: &Page, b: &Page) -> bool {
    a.rows == b.rows && a.errors == b.errors && a.warnings == b.warnings
}

pub fn rows_match(exp: &[Row], page: &Page) -> Result<(), String> {
    let mut have: BTreeMap<(String, String), &PageRow> = BTreeMap::new();
    for r in &page.rows {
        if r.id != format!("{}.{}", r.file, r.name) {
            return Err(format!("row {} {} has the anchor {:?}", r.file, r.name, r.id));
        }
        if have.insert((r.file.clone(), r.name.clone()), r).is_some() {
            return Err(format!("call {} {} is listed twice", r.file, r.name));
        }
    }
    let mut errors = page.errors.clone();
    let mut nwarn = 0;
    for e in exp {
        match e {
            Row::Change { file, name, kind, alts, warn } => {
                let Some(r) = have.remove(&(file.clone(), name.clone())) else { return Err(format!("call {} {} is missing", file, name)) };
                if r.kind != format!("{:?}", kind) {
                    return Err(format!("call {} {} is shown as {} instead of {:?}", file, name, r.kind, kind));
                }
                if !alts.iter().any(|a| a.0 == r.old && a.1 == r.new && a.2 == r.scope) {
                    return Err(format!("call {} {} shows {:?} -> {:?} ({}) instead of one of {:?}", file, name, r.old, r.new, r.scope, alts));
                }
                if r.warn != *warn {
                    return Err(format!("call {} {}: warning {} instead of {}", file, name, r.warn, warn));
                }
                nwarn += *warn as usize;
            }
            Row::Error { file, name, alts } => {
                let Some(i) = errors.iter().position(|x| alts.iter().any(|a| x == a)) else {
                    return Err(format!("error of call {} {} is missing or wrong: {:?} instead of one of {:?}", file, name, errors, alts));
                };
                errors.remove(i);
            }
        }
    }
    if let Some((k, _)) = have.iter().next() {
        return Err(format!("call {} {} is listed but does not belong there", k.0, k.1));
    }
    if !errors.is_empty() {
        return Err(format!("unexpected errors {:?}", errors));
    }
    if page.warnings.len() != nwarn {
        return Err(format!("{} warnings instead of {}", page.warnings.len(), nwarn));
    }
    Ok(())
}

pub fn params(q: &Query) -> Params<'_> {
    Params {
        proof: q.unit == "proof",
        method: method(&q.method),
        pattern: q.pattern.trim(),
        pallet: q.pallet.as_deref(),
        extrinsic: q.extrinsic.as_deref(),
        threshold: q.threshold as f64,
        lenient: q.lenient,
    }
}

impl<'a> Ctx<'a> {
    pub fn op(&self, id: u32) -> &'a Op {
        self.plan.ops.iter().find(|o| o.id == id).expect("operation of a request")
    }
    pub fn repo(&self, name: &str) -> Option<usize> {
        let exposed = &self.plan.setup.repos;
        self.w.repos.iter().position(|r| r.name == name && (exposed.is_empty() || exposed.contains(&r.name)))
    }
    fn by_hash(&self, ri: usize, h: &str) -> Option<usize> {
        self.w.repos[ri].commits.iter().position(|c| c.hash == h || c.tag == h)
    }
    fn is_hash(s: &str) -> bool {
        s.len() == 40 && s.bytes().all(|b| b.is_ascii_hexdigit())
    }
    /// Commits that the remote had under this name at some moment of the window; None = it did not exist.
    pub fn remote_at(&self, ri: usize, rev: &str, t0: u64, t1: u64) -> BTreeSet<Option<usize>> {
        let mut out = BTreeSet::new();
        if Self::is_hash(rev) {
            out.insert(self.by_hash(ri, rev));
            return out;
        }
        let v: Vec<&(u64, usize, crate::world::Refs)> = self.h.remote.iter().filter(|x| x.1 == ri).collect();
        for (i, x) in v.iter().enumerate() {
            let until = v.get(i + 1).map_or(u64::MAX, |n| n.0);
            if x.0 <= t1 && until >= t0 {
                out.insert(x.2.tags.get(rev).map(|t| t.0).or_else(|| x.2.heads.get(rev).copied()));
            }
        }
        out
    }
    /// The same for what the clone knows of the remote.
    pub fn local_at(&self, ri: usize, rev: &str, t0: u64, t1: u64) -> BTreeSet<Option<usize>> {
        let mut out = BTreeSet::new();
        if Self::is_hash(rev) {
            out.insert(self.by_hash(ri, rev));
            // It may never have been fetched.
            out.insert(None);
            return out;
        }
        let v: Vec<&(u64, usize, LocalRefs)> = self.h.local.iter().filter(|x| x.1 == ri).collect();
        for (i, x) in v.iter().enumerate() {
            let until = v.get(i + 1).map_or(u64::MAX, |n| n.0);
            if x.0 <= t1 && until >= t0 {
                let r = &x.2.refs;
                // A local branch is only what the clone was made with; nothing may move it.
                let h = r
                    .get(&format!("refs/remotes/origin/{}", rev))
                    .or_else(|| r.get(&format!("refs/tags/{}", rev)))
                    .or_else(|| v[0].2.refs.get(&format!("refs/heads/{}", rev)));
                out.insert(h.and_then(|h| self.by_hash(ri, h)));
            }
        }
        out
    }
    pub fn revs(&self, ri: usize, rev: &str, pull: bool, t0: u64, t1: u64) -> BTreeSet<Option<usize>> {
        let rev = rev.trim();
        if pull {
            self.remote_at(ri, rev, t0, t1)
        } else {
            self.local_at(ri, rev, t0, t1)
        }
    }

    /// Everything the answer may be: expectations for every admissible pair of revisions.
    pub fn expectations(&self, q: &Query, t0: u64, t1: u64, lost: Option<&Lost>) -> Vec<(String, Expect)> {
        let Some(ri) = self.repo(&q.repo) else { return vec![("unknown repository".into(), Expect::Fails("unknown repository".into()))] };
        let pull = q.pull.unwrap_or(true);
        let olds = self.revs(ri, &q.old, pull, t0, t1);
        let news = self.revs(ri, &q.new, pull, t0, t1);
        let p = params(q);
        let mut out = Vec::new();
        for o in &olds {
            for n in &news {
                match (o, n) {
                    (Some(o), Some(n)) => {
                        let (a, b) = (&self.w.repos[ri].commits[*o].tree, &self.w.repos[ri].commits[*n].tree);
                        if [a, b].iter().any(|t| t.len() > MAX_FILES && weights::select(t, p.pattern).len() > MAX_FILES) {
                            // Not necessarily, but if it is answered, then completely.
                            out.push(("too many files".into(), Expect::Fails("too many files".into())));
                        }
                        match lost {
                            None => out.push((format!("c{}..c{}", o, n), weights::compare(a, b, &p))),
                            Some(l) => {
                                for (lo, ln) in l.assignments(a, b) {
                                    out.push((format!("c{}..c{} without {:?}/{:?}", o, n, lo, ln), weights::compare_without(a, b, &p, &lo, &ln)));
                                }
                            }
                        }
                    }
                    _ => out.push(("missing revision".into(), Expect::Fails("missing revision".into()))),
                }
            }
        }
        out
    }

    fn conn_events(&self, r: &Req) -> Vec<&'a GitEv> {
        self.h.git.iter().filter(|g| g.inc == r.inc && g.conn == r.conn && r.conn > 0).collect()
    }
    fn fired(&self, r: &Req) -> Vec<&'a FaultFired> {
        self.h.fired.iter().filter(|f| f.inc == r.inc && f.conn == r.conn && r.conn > 0).collect()
    }
    /// Faults that may explain an error of this request.
    fn excused(&self, r: &Req, repo: &str) -> bool {
        let t1 = r.answer.unwrap_or(u64::MAX);
        if !self.fired(r).is_empty() {
            return true;
        }
        // A fault that could not be attributed to any request.
        let known = |f: &FaultFired| self.h.reqs.iter().any(|q| q.inc == f.inc && q.conn == f.conn);
        if self.h.fired.iter().any(|f| f.inc == r.inc && f.now >= r.send && f.now <= t1 && f.repo == repo && !known(f)) {
            return true;
        }
        let ri = self.repo(repo);
        self.h.locks.iter().any(|l| Some(l.2) == ri && l.0 <= t1 && l.1 >= r.send)
    }
}

/// Files that could not be read, by what the faults hit.
pub struct Lost {
    pub files: Vec<String>,
    /// What one look could not see; whatever is there may be missing.
    pub maybe: Vec<String>,
}
impl Lost {
    /// All ways to assign the lost files to the old and the new side.
    pub fn assignments(&self, old: &Tree, new: &Tree) -> Vec<(BTreeSet<String>, BTreeSet<String>)> {
        let mut out = vec![(BTreeSet::new(), BTreeSet::new())];
        for f in &self.files {
            let mut next = Vec::new();
            for (o, n) in out {
                if old.contains_key(f) {
                    let mut x: (BTreeSet<String>, BTreeSet<String>) = (o.clone(), n.clone());
                    x.0.insert(f.clone());
                    next.push(x);
                }
                if new.contains_key(f) {
                    let mut x: (BTreeSet<String>, BTreeSet<String>) = (o.clone(), n.clone());
                    x.1.insert(f.clone());
                    next.push(x);
                }
            }
            out = next;
        }
        for m in &self.maybe {
            let dir = format!("{}/", m);
            let below = |t: &Tree| -> Vec<String> { t.keys().filter(|k| *k == m || k.starts_with(&dir)).cloned().collect() };
            let mut next = out.clone();
            for (o, n) in &out {
                let mut x = (o.clone(), n.clone());
                x.0.extend(below(old));
                next.push(x);
                let mut x = (o.clone(), n.clone());
                x.1.extend(below(new));
                next.push(x);
            }
            out = next;
        }
        out
    }
}

pub fn check_web(c: &Ctx) -> Vec<Violation> {
    let mut v: Vec<Violation> = Vec::new();
    let h = c.h;
    let mut bad = |class: &'static str, op: u32, text: String| v.push(Violation { class, op, text: text.replace(&h.scratch, "$S") });

    if h.stuck {
        bad("stuck", 0, "the server did not reach a scheduling point for 60 s of real time".into());
    }
    if h.livelock {
        bad("livelock", 0, "the server keeps running without ever becoming idle".into());
    }
    for i in &h.incs {
        if let (Some(x), true) = (&i.exit, i.listened) {
            bad("server-died", 0, format!("the server ended with {:?}: {}", x, last_lines(&i.stderr)));
        }
    }
    // --- every request answered
    for r in &h.reqs {
        if r.aborted || r.crashed {
            continue;
        }
        let op = c.op(r.op);
        let what = describe(op);
        if let Some(d) = &r.dropped {
            if d.starts_with("server ended") {
                continue;
            }
            bad("dropped", r.op, format!("{} got no complete response: {} {}", what, d, last_lines(&h.incs[r.inc as usize].stderr)));
        } else if r.resp.is_none() {
            bad("unanswered", r.op, format!("{} was never answered: {}", what, h.hang.clone().unwrap_or_default()));
        } else if r.resp.as_ref().unwrap().status == 408 && !r.frag {
            bad("timeout", r.op, format!("{} was sent completely but answered with 408", what));
        }
    }
    // --- comparisons
    let mut fresh: Vec<(&Req, &Query, Page)> = Vec::new();
    let mut hits: Vec<(&Req, &Query, Page)> = Vec::new();
    for r in &h.reqs {
        let op = c.op(r.op);
        let Some(resp) = &r.resp else { continue };
        if resp.status == 408 {
            continue;
        }
        let t1 = r.answer.unwrap();
        match &op.kind {
            Kind::Compare(q) => {
                let body = String::from_utf8_lossy(&resp.body);
                if resp.status == 200 {
                    match parse_page(&body) {
                        Err(e) => bad("bad-page", r.op, format!("{}: {}", describe(op), e)),
                        Ok(p) if other_arguments(q, &p).is_some() => bad("other-arguments", r.op, format!("{} was answered with a page that {}", describe(op), other_arguments(q, &p).unwrap())),
                        Ok(p) => match p.cached {
                            None => bad("no-hit-row", r.op, format!("{} does not say whether it was a cache hit", describe(op))),
                            Some(true) => hits.push((r, q, p)),
                            Some(false) => fresh.push((r, q, p)),
                        },
                    }
                } else if resp.status == 500 {
                    let e = c.expectations(q, r.send, t1, None);
                    let may_fail = e.iter().any(|x| !matches!(x.1, Expect::Rows(_))) || weird(q);
                    if !may_fail && !c.excused(r, &q.repo) {
                        let class = if r.epilogue { "not-recovered" } else { "spurious-error" };
                        bad(class, r.op, format!("{} failed without a cause: {}", describe(op), error_message(&body)));
                    }
                } else {
                    bad("bad-status", r.op, format!("{} got status {}", describe(op), resp.status));
                }
            }
            Kind::Branches { repo, .. } => check_branches(c, r, op, repo, &mut bad),
            Kind::Get(p) => {
                if resp.status != 200 {
                    bad(if r.epilogue { "not-recovered" } else { "page-error" }, r.op, format!("{} got status {}", describe(op), resp.status));
                } else if p == "/" || p == "/compare-mr" || p == "/compare-commit" {
                    let body = String::from_utf8_lossy(&resp.body);
                    for x in c.w.repos.iter().filter(|x| c.plan.setup.repos.is_empty() || c.plan.setup.repos.contains(&x.name)) {
                        if !body.contains(&format!(">{}<", x.name)) && !body.contains(&x.name) {
                            bad("page-content", r.op, format!("{} does not show repository {}", describe(op), x.name));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for (r, q, p) in &fresh {
        let t1 = r.answer.unwrap();
        check_fresh(c, r, q, p, t1, &mut bad);
    }
    // --- cache
    for (r, q, p) in &hits {
        let t1 = r.answer.unwrap();
        let src: Vec<&(&Req, &Query, Page)> =
            fresh.iter().filter(|f| f.0.inc == r.inc && meaning(f.1) == meaning(q) && f.0.send <= t1 && r.send <= f.0.answer.unwrap() + HOUR10 && same_page(&f.2, p)).collect();
        if !src.is_empty() {
            continue;
        }
        // The request that computed it may have gone away without an answer.
        let gone: Vec<&Req> = h
            .reqs
            .iter()
            .filter(|x| x.inc == r.inc && (x.aborted || x.resp.as_ref().map_or(false, |y| y.status == 408)) && matches!(&c.op(x.op).kind, Kind::Compare(y) if meaning(y) == meaning(q)) && x.send <= t1)
            .collect();
        if gone.iter().any(|x| c.expectations(q, x.send, t1, None).iter().any(|e| matches!(&e.1, Expect::Unknown) || matches!(&e.1, Expect::Rows(rows) if rows_match(rows, p).is_ok()))) {
            continue;
        }
        let old = fresh.iter().filter(|f| f.0.inc == r.inc && meaning(f.1) == meaning(q) && same_page(&f.2, p)).map(|f| f.0.answer.unwrap()).max();
        match old {
            Some(t) => bad("stale-hit", r.op, format!("{} was served from the cache {} s after it was computed", describe(c.op(r.op)), r.send.saturating_sub(t) as f64 / 1e9)),
            None => bad("wrong-hit", r.op, format!("{} was served from the cache, but no request with these arguments computed that answer: {:?}", describe(c.op(r.op)), p.rows.iter().take(3).collect::<Vec<_>>())),
        }
    }
    for (i, a) in fresh.iter().enumerate() {
        for b in fresh.iter().skip(i + 1) {
            if a.0.inc == b.0.inc && a.1 == b.1 && a.0.op != b.0.op {
                let last = a.0.answer.unwrap().max(b.0.answer.unwrap());
                let first = a.0.send.min(b.0.send);
                // Whichever was computed first, the other one came less than ten minutes later.
                if last < first + HOUR10 {
                    bad("computed-twice", b.0.op, format!("{} and op{} were both computed within {} s", describe(c.op(b.0.op)), a.0.op, (last - first) as f64 / 1e9));
                }
            }
        }
    }
    // A hit starts no git step.
    for (r, _, _) in &hits {
        if let Some(g) = c.conn_events(r).first() {
            bad("hit-with-git", r.op, format!("{} was a cache hit but ran {:?}", describe(c.op(r.op)), g.argv));
        }
    }
    // --- exclusive use of the checkout
    overlap(c, &mut bad);
    confinement(c, &mut bad);
    secrets(c, &mut bad);
    v
}

/// Nothing of what lies outside of the checkouts is shown or changed, and no local branch is moved.
fn secrets(c: &Ctx, bad: &mut dyn FnMut(&'static str, u32, String)) {
    for r in &c.h.reqs {
        let Some(x) = &r.resp else { continue };
        for s in ["secret_call", "424242", "424.24ns", "root:x:0"] {
            if find(&x.body, s.as_bytes()).is_some() {
                bad("secret-shown", r.op, format!("the answer to {} contains {:?}, which is in no checkout", describe(c.op(r.op)), s));
            }
        }
    }
    for o in &c.h.outside {
        bad("outside-changed", 0, format!("changed by some request: {}", o));
    }
    for ri in 0..c.w.repos.len() {
        let l: Vec<&(u64, usize, LocalRefs)> = c.h.local.iter().filter(|x| x.1 == ri).collect();
        let known = |name: &str, hash: &String, t: u64| {
            c.h.remote.iter().filter(|x| x.1 == ri && x.0 <= t).any(|x| {
                let cs = &c.w.repos[ri].commits;
                x.2.heads.get(name).map_or(false, |k| cs[*k].hash == *hash) || x.2.tags.get(name).map_or(false, |(k, a)| *hash == if *a { &cs[*k].tag } else { &cs[*k].hash }[..])
            })
        };
        for x in l.iter().skip(1) {
            for (name, hash) in &x.2.refs {
                let first = l[0].2.refs.get(name);
                if first == Some(hash) {
                    continue;
                }
                let short = name.strip_prefix("refs/remotes/origin/").or_else(|| name.strip_prefix("refs/tags/"));
                if !short.map_or(false, |s| known(s, hash, x.0)) {
                    bad("local-refs-changed", 0, format!("{} of {} was set to {} by a request; it was {:?} and the remote never had that", name, c.w.repos[ri].name, hash, first));
                    return;
                }
            }
            if let Some((name, _)) = l[0].2.refs.iter().find(|(n, _)| n.starts_with("refs/heads/") && !x.2.refs.contains_key(*n)) {
                bad("local-refs-changed", 0, format!("{} of {} was removed by a request", name, c.w.repos[ri].name));
                return;
            }
        }
    }
}

/// The body without the row that says whether it came from the cache.
fn without_hit(b: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(b).into_owned();
    match s.find(" hit</td").or_else(|| s.find("Cache hit")).or_else(|| s.find(">Cache")) {
        Some(i) => {
            let (a, z) = s.split_at(i);
            let n = z.char_indices().nth(250).map_or(z.len(), |x| x.0);
            format!("{}{}{}", a, z[..n].replacen("Yes", "No", 1), &z[n..]).into_bytes()
        }
        None => s.into_bytes(),
    }
}

pub fn check_pair(plan: &Plan, a: &History, b: &History) -> Vec<Violation> {
    let mut v = Vec::new();
    let mut seen: BTreeMap<String, (String, u16, Vec<u8>)> = BTreeMap::new();
    for (which, h) in [("first", a), ("second", b)] {
        for r in &h.reqs {
            let (Some(x), Some(op)) = (&r.resp, plan.ops.iter().find(|o| o.id == r.op)) else { continue };
            let Some(t) = crate::run::target(op) else { continue };
            if x.status == 408 {
                continue;
            }
            let body = String::from_utf8_lossy(&without_hit(&x.body)).replace(&h.scratch, "$S").into_bytes();
            let me = format!("op{} of the {} run", r.op, which);
            match seen.get(&t) {
                None => {
                    seen.insert(t, (me, x.status, body));
                }
                Some((who, status, other)) => {
                    if *status != x.status || *other != body {
                        let i = other.iter().zip(&body).take_while(|(p, q)| p == q).count();
                        let cut = |b: &[u8]| String::from_utf8_lossy(&b[i.saturating_sub(60).min(b.len())..(i + 120).min(b.len())]).into_owned();
                        v.push(Violation {
                            class: "different-bytes",
                            op: r.op,
                            text: format!("GET {} was answered with {} {:?} in {} but with {} {:?} in {}, and nothing it depends on had changed", t, x.status, cut(&body), me, status, cut(other), who),
                        });
                    }
                }
            }
        }
    }
    for (k, (x, y)) in a.cli.iter().zip(&b.cli).enumerate() {
        let norm = |o: &CliOut, h: &History| String::from_utf8_lossy(&o.stdout).replace(&h.scratch, "$S");
        if norm(x, a) != norm(y, b) || x.exit != y.exit {
            v.push(Violation { class: "different-bytes", op: k as u32, text: format!("{} printed {:?} once and {:?} another time", crate::oracle_cli::describe(&plan.cli[k]), norm(x, a), norm(y, b)).replace(&a.scratch, "$S") });
        }
    }
    v
}

/// Whether the server may be served with this configuration.
fn startable(s: &Setup, w: &World) -> bool {
    let fine = |n: &String| {
        s.extra.iter().rev().find(|e| e.0 == *n).map_or(w.repos.iter().any(|r| r.name == *n), |e| e.1.starts_with("https://github.com/") || e.1.starts_with("copy:"))
    };
    s.listens_on().is_some() && s.root_kind != "noroot" && !s.no_repos && ["", "valid"].contains(&s.tls.as_str()) && ["", "local"].contains(&s.static_kind.as_str()) && (s.repos.is_empty() || s.repos.iter().all(fine))
}

pub fn check_start(c: &Ctx, statics: &std::path::Path) -> Vec<Violation> {
    let mut v: Vec<Violation> = Vec::new();
    let h = c.h;
    let s = &c.plan.setup;
    let ok = startable(s, c.w);
    let mut bad = |class: &'static str, text: String| v.push(Violation { class, op: 0, text: text.replace(&h.scratch, "$S") });
    let mut conf = format!("--repos {:?} ({:?}), static {:?}", s.repos, s.extra, s.static_kind);
    if !s.tls.is_empty() {
        conf.push_str(&format!(", certificate and key: {}", s.tls));
    }
    if !s.port.is_empty() || !s.endpoint.is_empty() {
        conf.push_str(&format!(", endpoint {:?}, port {:?}", s.endpoint, s.port));
    }
    if s.root_kind == "noroot" {
        conf.push_str(", the root directory is missing");
    }
    if s.no_repos {
        conf.push_str(", no repository is given");
    }
    let base = conf;
    for (k, i) in h.incs.iter().enumerate() {
        let mut conf = base.clone();
        let ok = ok && !s.taken(k);
        if s.taken(k) {
            conf.push_str(", somebody else has the port");
        }
        if !i.elsewhere.is_empty() {
            bad("start-elsewhere", format!("the server listens on {:?}: {}", i.elsewhere, conf));
        }
        let steps: Vec<&GitEv> = h.git.iter().filter(|g| g.inc == k as u32 && (!i.listened || g.begin_seq < i.listen_seq)).collect();
        let failed = steps.iter().find(|g| {
            g.fault.map_or(false, |f| match &c.plan.faults[f].kind {
                FaultKind::Exit { code, .. } => *code != 0,
                FaultKind::Garbage(_) => true,
                k => k.fails(false),
            })
        });
        if i.crashed {
            continue;
        }
        if i.listened {
            if !ok {
                bad("start-served", format!("the server accepts connections although its configuration is wrong: {}", conf));
            } else if let Some(g) = failed {
                bad("start-served", format!("the server accepts connections although {:?} failed ({:?})", g.argv, c.plan.faults[g.fault.unwrap()].kind));
            }
        } else {
            match &i.exit {
                None => bad("start-hang", format!("the server neither serves nor exits: {}", conf)),
                Some(x) => {
                    if ok && failed.is_none() {
                        bad("start-refused", format!("the server ended with {:?} although nothing is wrong: {}: {}", x, conf, last_lines(&i.stderr)));
                    }
                    if *x == crate::proc::Exit::Code(0) {
                        bad("start-exit-zero", format!("the server ended successfully without ever serving: {}", conf));
                    }
                    if matches!(x, crate::proc::Exit::Signal(_)) {
                        bad("start-died", format!("the server ended with {:?}: {}: {}", x, conf, last_lines(&i.stderr)));
                    }
                    if i.stderr.trim().is_empty() {
                        bad("start-silent", format!("the server ended with {:?} without a message: {}", x, conf));
                    }
                }
            }
        }
    }
    let conf = base;
    let names: Vec<String> = if s.repos.is_empty() { c.w.repos.iter().map(|r| r.name.clone()).collect() } else { s.repos.clone() };
    for r in &h.reqs {
        let (Some(x), Kind::Get(p)) = (&r.resp, &c.op(r.op).kind) else { continue };
        if !s.tls.is_empty() {
            if x.status != 200 {
                bad("start-unusable", format!("the server accepts connections but no TLS handshake: {}", conf));
            }
            continue;
        }
        if let Some(f) = p.strip_prefix("/static/") {
            // The files that are given are the ones that are in /repo.
            let want = std::fs::read(statics.join(f)).ok();
            if want.is_some() && (x.status != 200 || Some(&x.body) != want.as_ref()) {
                bad("start-page", format!("GET {} is answered with {} and not with the file", p, x.status));
            }
        }
        if x.status == 200 && (p == "/" || p == "/compare-mr" || p == "/compare-commit") {
            let body = String::from_utf8_lossy(&x.body);
            for n in &names {
                if !body.contains(n.as_str()) {
                    bad("start-page", format!("GET {} does not show the configured repository {}", p, n));
                }
            }
        }
    }
    v
}

/// The page says what it answers for.
fn other_arguments(q: &Query, p: &Page) -> Option<String> {
    let text = |x: &Option<String>| x.clone().unwrap_or_else(|| ".*".into());
    let want = [
        ("old", q.old.clone()),
        ("new", q.new.clone()),
        ("repo", q.repo.clone()),
        ("path_pattern", q.pattern.clone()),
        ("pallet", text(&q.pallet)),
        ("extrinsic", text(&q.extrinsic)),
        ("ignore_errors", q.lenient.to_string()),
        ("threshold", q.threshold.to_string()),
        ("unit", if q.unit == "weight" { "time".into() } else { q.unit.clone() }),
        ("git_pull", q.pull.unwrap_or(true).to_string()),
        ("method", q.method.clone()),
    ];
    for (k, w) in want {
        if let Some((_, shown)) = p.controls.iter().find(|c| c.0 == k) {
            if *shown != w && !w.contains('&') {
                return Some(format!("shows {:?} as {} instead of {:?}", shown, k, w));
            }
        }
    }
    None
}

pub fn weird(q: &Query) -> bool {
    let odd = |s: &str| s.is_empty() || s.starts_with('-') || s.bytes().any(|b| b" :^~*?[\\&;".contains(&b)) || s.contains("..") || s.contains("/.")
        // Names of what is checked out or was fetched, which depend on the comparisons before.
        || ["HEAD", "FETCH_HEAD", "@"].contains(&s) || s.starts_with("refs/") || s.starts_with("origin/") || s.contains("@{");
    q.pallet.as_deref() == Some(weights::RUNAWAY) || odd(q.old.trim()) || odd(q.new.trim()) || q.pattern.contains("..") || q.pattern.starts_with('/') || q.pattern.contains('&') || q.pattern.contains("***") || q.pattern.contains("[.]") || q.pattern.ends_with("**")
}

fn check_fresh(c: &Ctx, r: &Req, q: &Query, p: &Page, t1: u64, bad: &mut dyn FnMut(&'static str, u32, String)) {
    let op = c.op(r.op);
    // Did a step fail?
    for g in c.conn_events(r) {
        let Some(f) = g.fault else { continue };
        if c.plan.faults[f].kind.fails(READ_ONLY.contains(&g.sub())) {
            bad("success-despite-failure", r.op, format!("{} succeeded although {:?} failed ({:?})", describe(op), g.argv, c.plan.faults[f].kind));
            return;
        }
    }
    // Files that could not be read.
    let mut lost = Vec::new();
    let mut listing = false;
    for f in c.h.files.iter().filter(|f| f.inc == r.inc && f.conn == r.conn && f.hit) {
        if f.dir {
            listing = true;
        } else {
            let base = format!("{}/root/{}/", c.h.scratch, q.repo);
            lost.push(f.path.strip_prefix(&base).unwrap_or(&f.path).to_string());
        }
    }
    if listing {
        bad("listing-error-hidden", r.op, format!("{} succeeded although a directory could not be listed", describe(op)));
        return;
    }
    if !lost.is_empty() && !q.lenient {
        bad("read-error-hidden", r.op, format!("{} succeeded in strict mode although {:?} could not be read", describe(op), lost));
        return;
    }
    if weird(q) {
        return; // judged by what it touched
    }
    // What could not be looked at may be read all the same, or be skipped when that is asked for.
    let base = format!("{}/root/{}/", c.h.scratch, q.repo);
    let unseen = c.h.unseen.iter().filter(|u| q.lenient && u.0 == r.inc && u.1 == r.conn);
    let maybe: Vec<String> = unseen.filter_map(|u| u.2.strip_prefix(&base)).map(|s| s.to_string()).collect();
    let lost = if lost.is_empty() && maybe.is_empty() { None } else { Some(Lost { files: lost, maybe }) };
    let exp = c.expectations(q, r.send, t1, lost.as_ref());
    let mut why = String::new();
    for (name, e) in &exp {
        match e {
            Expect::Unknown => return,
            Expect::Fails(m) => why = format!("{}; {}: must fail ({})", why, name, m),
            Expect::Rows(rows) => match rows_match(rows, p) {
                Ok(()) => return,
                Err(m) => why = format!("{}; {}: {}", why, name, m),
            },
        }
    }
    // Is it right for revisions of some other moment, or for other revisions altogether?
    let mut class = "wrong-answer";
    if let Some(ri) = c.repo(&q.repo) {
        let n = c.w.repos[ri].commits.len();
        let pr = params(q);
        'o: for a in 0..n {
            for b in 0..n {
                let t = &c.w.repos[ri].commits;
                if let Expect::Rows(rows) = weights::compare(&t[a].tree, &t[b].tree, &pr) {
                    if !rows.is_empty() && rows_match(&rows, p).is_ok() {
                        class = "wrong-revision";
                        why = format!("it is the answer for c{}..c{}{}", a, b, why);
                        break 'o;
                    }
                }
            }
        }
    }
    bad(class, r.op, format!("{}: {}", describe(op), why.chars().take(1500).collect::<String>()));
}

fn check_branches(c: &Ctx, r: &Req, op: &Op, repo: &str, bad: &mut dyn FnMut(&'static str, u32, String)) {
    let resp = r.resp.as_ref().unwrap();
    let t1 = r.answer.unwrap();
    let Some(ri) = c.repo(repo) else {
        if resp.status == 200 {
            bad("unknown-repo-served", r.op, format!("{} was answered with 200", describe(op)));
        }
        return;
    };
    let body = String::from_utf8_lossy(&resp.body).into_owned();
    if resp.status != 200 {
        if !c.excused(r, repo) {
            bad(if r.epilogue { "not-recovered" } else { "branches-error" }, r.op, format!("{} failed without a cause: {} {}", describe(op), resp.status, body));
        }
        return;
    }
    // A failed or garbled listing must not look like a list.
    for g in c.conn_events(r) {
        if let Some(f) = g.fault {
            let k = &c.plan.faults[f].kind;
            let garbage = matches!(k, FaultKind::Garbage(_)) && g.sub() == "ls-remote";
            if garbage || k.fails(READ_ONLY.contains(&g.sub()) && g.sub() != "ls-remote") {
                bad("branches-despite-failure", r.op, format!("{} succeeded although {:?} failed ({:?}): {}", describe(op), g.argv, k, body.chars().take(300).collect::<String>()));
                return;
            }
        }
    }
    let parsed: Option<Vec<(String, String)>> = serde_json::from_str::<serde_json::Value>(&body).ok().and_then(|v| serde_json::from_value(v.get("branch")?.clone()).ok());
    let Some(mut have) = parsed else {
        bad("branches-malformed", r.op, format!("{}: {}", describe(op), body));
        return;
    };
    have.sort();
    let v: Vec<&(u64, usize, crate::world::Refs)> = c.h.remote.iter().filter(|x| x.1 == ri).collect();
    let mut last = Vec::new();
    for (i, x) in v.iter().enumerate() {
        let until = v.get(i + 1).map_or(u64::MAX, |n| n.0);
        if x.0 <= t1 && until >= r.send {
            let cs = &c.w.repos[ri].commits;
            let mut want: Vec<(String, String)> = x.2.heads.iter().map(|(n, k)| (n.clone(), cs[*k].hash[..12].to_string())).collect();
            want.extend(x.2.tags.iter().map(|(n, (k, ann))| (n.clone(), if *ann { cs[*k].tag[..12].to_string() } else { cs[*k].hash[..12].to_string() })));
            want.sort();
            if want == have {
                return;
            }
            last = want;
        }
    }
    bad("branches-wrong", r.op, format!("{} answered {:?} instead of {:?}", describe(op), have, last));
}

/// One span per request that uses a checkout for a comparison; single steps for everything else.
fn overlap(c: &Ctx, bad: &mut dyn FnMut(&'static str, u32, String)) {
    struct Use<'x> {
        inc: u32,
        repo: String,
        key: (u32, u32, u32),
        from: u64,
        to: u64,
        compare: bool,
        what: &'x str,
    }
    let h = c.h;
    let root = format!("{}/root/", h.scratch);
    let repo_of = |p: &str| -> Option<String> { p.strip_prefix(&root).and_then(|r| r.split('/').next()).map(|s| s.to_string()) };
    // Requests are told apart by their connection; without one by thread and wake-up.
    let key = |conn: u32, tid: u32, epoch: u32| if conn > 0 { (1, conn, 0) } else { (0, tid, epoch) };
    let mut spans: BTreeMap<(u32, String, (u32, u32, u32)), Use> = BTreeMap::new();
    let mut steps: Vec<Use> = Vec::new();
    for g in &h.git {
        let Some(repo) = repo_of(&g.cwd) else { continue };
        if h.incs[g.inc as usize].listen_seq > g.begin_seq || !h.incs[g.inc as usize].listened {
            continue;
        }
        let k = key(g.conn, g.tid, g.epoch);
        let to = if g.ret_seq > 0 { g.ret_seq } else { u64::MAX };
        if !READ_ONLY.contains(&g.sub()) {
            steps.push(Use { inc: g.inc, repo: repo.clone(), key: k, from: g.begin_seq, to, compare: false, what: g.sub() });
        }
        let e = spans.entry((g.inc, repo.clone(), k)).or_insert(Use { inc: g.inc, repo, key: k, from: g.begin_seq, to, compare: false, what: "comparison" });
        e.from = e.from.min(g.begin_seq);
        e.to = e.to.max(to);
    }
    for f in &h.files {
        let Some(repo) = repo_of(&f.path) else { continue };
        if !f.watched || f.path.contains("/.git/") || h.incs[f.inc as usize].listen_seq > f.seq || !h.incs[f.inc as usize].listened {
            continue;
        }
        let k = key(f.conn, f.tid, f.epoch);
        steps.push(Use { inc: f.inc, repo: repo.clone(), key: k, from: f.seq, to: f.seq, compare: false, what: "file access" });
        let e = spans.entry((f.inc, repo.clone(), k)).or_insert(Use { inc: f.inc, repo, key: k, from: f.seq, to: f.seq, compare: true, what: "comparison" });
        e.compare = true;
        e.to = if e.to == u64::MAX { e.to } else { e.to.max(f.seq) };
    }
    for s in spans.values().filter(|s| s.compare) {
        for x in &steps {
            if x.inc == s.inc && x.repo == s.repo && x.key != s.key && x.from <= s.to && s.from <= x.to {
                bad("shared-checkout", s.key.1, format!("{} of {:?} in {} during the comparison of {:?}", x.what, x.key, s.repo, s.key));
                return;
            }
        }
    }
    for (i, a) in steps.iter().enumerate() {
        if a.what == "file access" {
            continue;
        }
        for b in steps.iter().skip(i + 1) {
            if b.what != "file access" && a.inc == b.inc && a.repo == b.repo && a.key != b.key && a.from <= b.to && b.from <= a.to {
                bad("concurrent-git", a.key.1, format!("{} of {:?} and {} of {:?} run in {} at the same time", a.what, a.key, b.what, b.key, a.repo));
                return;
            }
        }
    }
}

fn confinement(c: &Ctx, bad: &mut dyn FnMut(&'static str, u32, String)) {
    let h = c.h;
    let root = format!("{}/root/", h.scratch);
    let allowed = ["/proc/", "/sys/", "/dev/", "/lib", "/usr/lib", "/etc/ld.so", "/etc/localtime", "/usr/share/zoneinfo", "/etc/nsswitch", "/etc/host", "/etc/resolv", "/etc/ssl", "/usr/share/ca", "/etc/mime"];
    let at = |inc: u32, conn: u32| h.reqs.iter().find(|r| r.inc == inc && r.conn == conn && conn > 0);
    for f in &h.files {
        let Some(r) = at(f.inc, f.conn) else { continue };
        let repo = match &c.op(r.op).kind {
            Kind::Compare(q) => q.repo.clone(),
            Kind::Branches { repo, .. } => repo.clone(),
            _ => continue,
        };
        if f.dir && f.path.starts_with(&root) {
            continue; // a listing reads no file
        }
        let inside = format!("{}{}/", root, repo);
        let own = f.real.starts_with(&inside) || format!("{}/", f.real) == inside;
        let via = f.path.starts_with(&h.scratch) || f.real.starts_with(&h.scratch);
        if !own && (via || !allowed.iter().any(|a| f.real.starts_with(a))) {
            bad("escape", r.op, format!("{} read {} (really {})", describe(c.op(r.op)), f.path, f.real));
        }
    }
    for g in &h.git {
        let Some(r) = at(g.inc, g.conn) else { continue };
        let base = g.argv.first().map_or("", |s| s.as_str()).rsplit('/').next().unwrap_or("").to_string();
        if base != "git" || !(READ_ONLY.contains(&g.sub()) || ["fetch", "reset", "checkout"].contains(&g.sub())) {
            bad("foreign-program", r.op, format!("{} ran {:?}", describe(c.op(r.op)), g.argv));
            continue;
        }
        match &c.op(r.op).kind {
            Kind::Compare(q) => {
                if c.repo(&q.repo).is_none() {
                    bad("unexposed-repo", r.op, format!("{} ran {:?} in {}", describe(c.op(r.op)), g.argv, g.cwd));
                }
                let want = format!("{}{}", root, q.repo);
                if g.cwd.trim_end_matches('/') != want {
                    bad("wrong-directory", r.op, format!("{} ran {:?} in {}", describe(c.op(r.op)), g.argv, g.cwd));
                }
                for rev in [q.old.trim(), q.new.trim()] {
                    let dd = g.argv.iter().position(|a| a == "--").unwrap_or(g.argv.len());
                    // `--detach` and `-f` are options that the tool has reasons to use itself.
                    if rev.starts_with('-') && !["--detach", "-f"].contains(&rev) && g.argv[..dd].iter().skip(2).any(|a| a == rev) {
                        bad("option-injection", r.op, format!("{} passed a revision where git takes an option: {:?}", describe(c.op(r.op)), g.argv));
                    }
                    if rev.contains(':') && g.sub() == "fetch" && g.argv.iter().any(|a| a.contains(rev)) {
                        bad("refspec-injection", r.op, format!("{} passed a refspec: {:?}", describe(c.op(r.op)), g.argv));
                    }
                }
            }
            Kind::Branches { repo, .. } if c.repo(repo).is_none() => {
                bad("unexposed-repo", r.op, format!("{} ran {:?} in {}", describe(c.op(r.op)), g.argv, g.cwd));
            }
            _ => {}
        }
    }
    for r in &h.reqs {
        let (Kind::Compare(Query { repo, .. }), Some(resp)) = (&c.op(r.op).kind, &r.resp) else { continue };
        if c.repo(repo).is_none() && resp.status == 200 {
            bad("unknown-repo-served", r.op, format!("{} was answered with 200", describe(c.op(r.op))));
        }
    }
    // Without pull no remote is contacted.
    for g in &h.git {
        let Some(r) = at(g.inc, g.conn) else { continue };
        if let Kind::Compare(q) = &c.op(r.op).kind {
            if q.pull == Some(false) && ["fetch", "ls-remote", "pull", "clone"].contains(&g.sub()) {
                bad("network-without-pull", r.op, format!("{} ran {:?}", describe(c.op(r.op)), g.argv));
            }
        }
    }
}

pub fn describe(op: &Op) -> String {
    match crate::run::target(op) {
        Some(t) => format!("op{} GET {}", op.id, t),
        None => format!("op{} {:?}", op.id, op.kind),
    }
}

fn last_lines(s: &str) -> String {
    let v: Vec<&str> = s.lines().filter(|l| !l.is_empty()).collect();
    v[v.len().saturating_sub(3)..].join(" | ").chars().take(600).collect()
}
