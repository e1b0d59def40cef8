//! Checks over the recorded command line runs.

use crate::hist::*;
use crate::oracle::{params, Ctx, Lost, Violation};
use crate::plan::*;
use crate::proc::Exit;
use crate::weights::{self, fmt_proof, fmt_time, percent, Expect, Ext, File, Kind as Change, Row, Syntax, Tree};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct OutRow {
    pub file: String,
    pub name: String,
    pub old: String,
    pub new: String,
    pub change: String,
}

fn no_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Reads the rows of a printed comparison.
pub fn parse_output(out: &str, format: &str) -> Result<Vec<OutRow>, String> {
    let out = no_ansi(out);
    let mut rows = Vec::new();
    let mut header = false;
    for l in out.lines() {
        let cells: Vec<String> = if format == "csv" {
            l.split(',').map(|c| c.to_string()).collect()
        } else if l.starts_with('|') {
            l.trim_matches('|').split('|').map(|c| c.trim().to_string()).collect()
        } else {
            continue;
        };
        if cells.len() < 5 || cells.iter().all(|c| c.chars().all(|x| "-=+:".contains(x)) && c.len() > 1) {
            continue;
        }
        if cells[0] == "File" && cells[1] == "Extrinsic" {
            if header {
                return Err("the header is printed twice".into());
            }
            header = true;
            continue;
        }
        rows.push(OutRow { file: cells[0].clone(), name: cells[1].clone(), old: cells[2].clone(), new: cells[3].clone(), change: cells[4].trim().to_string() });
    }
    if !rows.is_empty() && !header {
        return Err("rows without a header".into());
    }
    Ok(rows)
}

fn rows_match(exp: &[Row], have: &[OutRow], proof: bool, changes: &[String]) -> Result<(), String> {
    let mut left: BTreeMap<(String, String), &OutRow> = BTreeMap::new();
    for r in have {
        if left.insert((r.file.clone(), r.name.clone()), r).is_some() {
            return Err(format!("call {} {} is printed twice", r.file, r.name));
        }
    }
    let v = |x: Option<u128>| x.map(|x| if proof { fmt_proof(x) } else { fmt_time(x) }).unwrap_or_default();
    for e in exp {
        match e {
            Row::Change { file, name, kind, alts, .. } => {
                let word = format!("{:?}", kind);
                if !changes.is_empty() && !changes.contains(&word.to_lowercase()) {
                    continue;
                }
                let Some(r) = left.remove(&(file.clone(), name.clone())) else { return Err(format!("call {} {} is missing", file, name)) };
                let ok = alts.iter().any(|a| {
                    let c = match kind {
                        Change::Changed => format!("{:+5.2}", percent(a.0.unwrap_or(0), a.1.unwrap_or(0))),
                        _ => word.clone(),
                    };
                    r.old == v(a.0) && r.new == v(a.1) && r.change == c.trim()
                });
                if !ok {
                    return Err(format!("call {} {} is printed as {} -> {} ({}) instead of {:?} as one of {:?}", file, name, r.old, r.new, r.change, kind, alts));
                }
            }
            Row::Error { file, name, .. } => {
                let Some(r) = left.remove(&(file.clone(), name.clone())) else { return Err(format!("the error of call {} {} is missing", file, name)) };
                if !r.change.to_lowercase().contains("error") {
                    return Err(format!("the error of call {} {} is printed as {:?}", file, name, r));
                }
            }
        }
    }
    if let Some(r) = left.values().next() {
        return Err(format!("call {} {} must not be printed ({} -> {}, {})", r.file, r.name, r.old, r.new, r.change));
    }
    Ok(())
}

pub fn describe(c: &CliRun) -> String {
    format!("`subweight {}`", c.args.join(" "))
}

fn base(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or(p)
}

/// What parsing a list of explicit files gives; Err says which file must make it fail.
fn list<'a>(w: &'a crate::world::World, files: &'a [(usize, usize, String)], lost: &BTreeSet<String>, lenient: bool) -> Result<Vec<(&'a str, &'a Ext, Syntax)>, String> {
    let mut out = Vec::new();
    for (ri, ci, p) in files {
        let f = if lost.contains(p) { None } else { w.repos[*ri].commits[*ci].tree.get(p) };
        match f {
            Some(File::Weights(x)) => out.extend(x.exts.iter().map(|e| (base(p), e, x.syntax))),
            _ if lenient => {}
            _ => return Err(p.clone()),
        }
    }
    Ok(out)
}

/// Resolves a revision as `git checkout` does, with the refs the clone had at that time.
fn checkout_rev(c: &Ctx, ri: usize, rev: &str, t: u64) -> Option<usize> {
    let rev = rev.trim();
    let by = |h: &String| c.w.repos[ri].commits.iter().position(|x| x.hash == *h || x.tag == *h);
    if rev.len() == 40 && rev.bytes().all(|b| b.is_ascii_hexdigit()) {
        return by(&rev.to_string());
    }
    let r = &c.h.local.iter().filter(|x| x.1 == ri && x.0 <= t).last()?.2.refs;
    let h = r.get(&format!("refs/heads/{}", rev)).or_else(|| r.get(&format!("refs/tags/{}", rev))).or_else(|| r.get(&format!("refs/remotes/origin/{}", rev)))?;
    by(h)
}

pub fn check_cli(c: &Ctx, reference: Option<&History>) -> Vec<Violation> {
    let mut v: Vec<Violation> = Vec::new();
    let h = c.h;
    let mut bad = |class: &'static str, op: usize, text: String| v.push(Violation { class, op: op as u32, text: text.replace(&h.scratch, "$S") });
    if h.stuck || h.livelock || h.hang.is_some() {
        bad("cli-hang", 0, format!("a run did not end: {}", h.hang.clone().unwrap_or_default()));
    }
    // Repositories whose working tree differs from what git believes.
    let mut dirty: BTreeSet<usize> = BTreeSet::new();
    for (k, o) in h.cli.iter().enumerate() {
        let run = &c.plan.cli[k];
        let inc = k as u32;
        let verbose = run.args.iter().any(|a| a == "--verbose");
        let what = describe(run);
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let steps: Vec<&GitEv> = h.git.iter().filter(|g| g.inc == inc).collect();
        let was_dirty = dirty.clone();
        for g in &steps {
            let ri = g.cwd.strip_prefix(&format!("{}/root/", h.scratch)).and_then(|p| c.repo(p.trim_end_matches("/.").split('/').next().unwrap_or("")));
            let Some(ri) = ri else { continue };
            match g.fault.map(|f| &c.plan.faults[f].kind) {
                Some(FaultKind::Torn { .. } | FaultKind::CrashTorn { .. } | FaultKind::Partial { .. }) => {
                    dirty.insert(ri);
                }
                _ if g.ok && ["checkout", "reset"].contains(&g.sub()) && g.argv.iter().any(|a| a == "--force" || a == "-f" || a == "--hard") => {
                    dirty.remove(&ri);
                }
                _ => {}
            }
        }
        if o.crashed {
            continue;
        }
        let Some(exit) = &o.exit else { continue };
        let ok = *exit == Exit::Code(0);
        if let Exit::Signal(s) = exit {
            bad("cli-died", k, format!("{} was ended by signal {}: {}", what, s, o.stderr.chars().take(400).collect::<String>()));
            continue;
        }
        if ok && o.write_error {
            bad("cli-success-despite-write-error", k, format!("{} succeeded although its output could not be written", what));
            continue;
        }
        let failed_step = steps.iter().find(|g| g.fault.map_or(false, |f| c.plan.faults[f].kind.fails(READ_ONLY.contains(&g.sub()))));
        if let (true, Some(g)) = (ok, failed_step) {
            bad("cli-success-despite-failure", k, format!("{} succeeded although {:?} failed ({:?})", what, g.argv, c.plan.faults[g.fault.unwrap()].kind));
            continue;
        }
        if !ok && !o.write_error {
            let printed = match &run.what {
                CliWhat::Parse { .. } => text.contains("successfully"),
                CliWhat::Commits { format, .. } | CliWhat::Files { format, .. } => !matches!(parse_output(&text, format), Ok(r) if r.is_empty()) || text.contains("No changes"),
            };
            if printed {
                bad("cli-output-despite-failure", k, format!("{} failed with {:?} but printed a result: {}", what, exit, text.chars().take(300).collect::<String>()));
            }
            if o.stderr.trim().is_empty() {
                bad("cli-silent-failure", k, format!("{} failed with {:?} without a message", what, exit));
            }
        }
        // Files that could not be read.
        let mut lost: BTreeSet<String> = BTreeSet::new();
        let mut listing = false;
        for f in h.files.iter().filter(|f| f.inc == inc && f.hit) {
            if f.dir {
                listing = true;
            } else {
                lost.insert(f.path.clone());
            }
        }
        let under = |side: &str| -> BTreeSet<String> {
            let b = format!("{}/files/{}/", h.scratch, side);
            lost.iter().filter_map(|p| p.strip_prefix(&b)).map(|s| s.to_string()).collect()
        };
        let missing = |q: &Query| -> Lost {
            let base = format!("{}/root/{}/", h.scratch, q.repo);
            let of = |p: &String| p.replace("/./", "/").strip_prefix(&base).map(|s| s.to_string());
            // Skipping is only for those who ask for it.
            let maybe = h.unseen.iter().filter(|u| q.lenient && u.0 == inc).filter_map(|u| of(&u.2)).collect();
            Lost { files: lost.iter().filter_map(of).collect(), maybe }
        };
        let mut exp: Vec<(String, Expect)> = Vec::new();
        // Something else than the arguments may make it fail.
        let mut excused = !o.faults.is_empty() || o.write_error;
        let (mut format, mut proof, mut changes) = ("", false, &vec![]);
        match &run.what {
            CliWhat::Parse { files } => {
                let e = list(c.w, files, &under("p"), false);
                match (ok, e) {
                    (true, Err(f)) => bad("cli-parse-hides-error", k, format!("{} succeeded although {} could not be parsed", what, f)),
                    (false, Ok(_)) if !o.write_error => bad("cli-spurious-error", k, format!("{} failed without a cause: {}", what, o.stderr.trim())),
                    (true, Ok(_)) if !verbose && !text.contains("success") => bad("cli-wrong-output", k, format!("{} did not report success: {}", what, text)),
                    _ => {}
                }
            }
            CliWhat::Files { old, new, q, format: f, changes: ch } => {
                (format, proof, changes) = (f, q.unit == "proof", ch);
                let e = match (list(c.w, old, &under("old"), q.lenient), list(c.w, new, &under("new"), q.lenient)) {
                    (Ok(a), Ok(b)) => weights::compare_lists(&a, &b, &params(q)),
                    (Err(f), _) | (_, Err(f)) => Expect::Fails(format!("{} cannot be read or parsed", f)),
                };
                exp.push(("the listed files".into(), e));
                excused = o.write_error;
            }
            CliWhat::Commits { repo, q, force, format: f, changes: ch, .. } => {
                (format, proof, changes) = (f, q.unit == "proof", ch);
                let pull = q.pull == Some(true);
                if listing {
                    if ok {
                        bad("cli-listing-error-hidden", k, format!("{} succeeded although a directory could not be listed", what));
                    }
                    continue;
                }
                if ok && !lost.is_empty() && !q.lenient {
                    bad("cli-read-error-hidden", k, format!("{} succeeded although {:?} could not be read", what, lost));
                    continue;
                }
                if h.locks.iter().any(|l| l.2 == *repo && l.0 <= o.end && l.1 >= o.start) {
                    excused = true;
                }
                if !*force && (was_dirty.contains(repo) || dirty.contains(repo)) {
                    // `git checkout` keeps local modifications.
                    continue;
                }
                if pull || *force {
                    let ls = missing(q);
                    exp = c.expectations(q, o.start, o.end, if ls.files.is_empty() && ls.maybe.is_empty() { None } else { Some(&ls) });
                } else {
                    let (a, b) = (checkout_rev(c, *repo, &q.old, o.start), checkout_rev(c, *repo, &q.new, o.start));
                    match (a, b) {
                        (Some(a), Some(b)) => {
                            let t: (&Tree, &Tree) = (&c.w.repos[*repo].commits[a].tree, &c.w.repos[*repo].commits[b].tree);
                            let ls = missing(q);
                            for (lo, ln) in ls.assignments(t.0, t.1) {
                                exp.push((format!("c{}..c{}", a, b), weights::compare_without(t.0, t.1, &params(q), &lo, &ln)));
                            }
                            // A commit that was never fetched.
                            if [&q.old, &q.new].iter().any(|r| r.len() == 40) {
                                exp.push(("commit not available".into(), Expect::Fails("unknown commit".into())));
                            }
                        }
                        _ => exp.push(("missing revision".into(), Expect::Fails("unknown revision".into()))),
                    }
                }
            }
        }
        if exp.is_empty() {
            continue;
        }
        if ["json", "brief-human"].contains(&format) {
            if ok && text.trim().is_empty() {
                bad("cli-wrong-output", k, format!("{} succeeded without printing anything", what));
            }
            continue;
        }
        if !ok {
            let q = match &run.what {
                CliWhat::Files { q, .. } | CliWhat::Commits { q, .. } => Some(q),
                _ => None,
            };
            excused |= q.map_or(false, |q| q.pallet.as_deref() == Some(weights::RUNAWAY));
            if !excused && exp.iter().all(|e| matches!(e.1, Expect::Rows(_))) {
                bad("cli-spurious-error", k, format!("{} failed without a cause: {}", what, o.stderr.trim().chars().take(500).collect::<String>()));
            }
            continue;
        }
        let rows = match parse_output(&text, format) {
            Ok(r) => r,
            Err(e) => {
                bad("cli-wrong-output", k, format!("{}: {}", what, e));
                continue;
            }
        };
        let mut why = String::new();
        let mut fine = false;
        for (name, e) in &exp {
            match e {
                Expect::Unknown => fine = true,
                Expect::Fails(m) => why = format!("{}; {}: must fail ({})", why, name, m),
                Expect::Rows(x) => match rows_match(x, &rows, proof, changes) {
                    Ok(()) => fine = true,
                    Err(m) => why = format!("{}; {}: {}", why, name, m),
                },
            }
            if fine {
                break;
            }
        }
        if !fine {
            bad("cli-wrong-output", k, format!("{}{}", what, why.chars().take(1500).collect::<String>()));
        }
    }
    // The same command again, with everything visited in another order.
    for k in 1..h.cli.len() {
        let (a, b) = (&c.plan.cli[k - 1], &c.plan.cli[k]);
        if a.args == b.args && a.what == b.what && b.push.is_empty() && matches!(a.what, CliWhat::Files { .. }) && h.cli[k - 1].faults.is_empty() && h.cli[k].faults.is_empty() {
            let (x, y) = (&h.cli[k - 1], &h.cli[k]);
            if x.stdout != y.stdout || x.exit != y.exit {
                bad("cli-order-dependent", k, format!("{} printed something else when repeated: {:?} instead of {:?}", describe(b), diff(&y.stdout, &x.stdout), diff(&x.stdout, &y.stdout)));
            }
        }
    }
    // The same run without disturbed output.
    if let Some(r) = reference {
        for (k, o) in h.cli.iter().enumerate() {
            let Some(x) = r.cli.get(k) else { continue };
            if o.exit == Some(Exit::Code(0)) && o.stdout != x.stdout {
                bad("cli-output-incomplete", k, format!("{} succeeded but wrote {:?} instead of {:?}", describe(&c.plan.cli[k]), diff(&o.stdout, &x.stdout), diff(&x.stdout, &o.stdout)));
            }
            if !o.write_error && o.exit != x.exit {
                bad("cli-output-incomplete", k, format!("{} ended with {:?} instead of {:?} because its output was taken in pieces: {}", describe(&c.plan.cli[k]), o.exit, x.exit, o.stderr.trim()));
            }
        }
    }
    v
}

/// The part of `a` from the first difference to `b` on.
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let s = i.saturating_sub(20);
    format!("@{}: {}", i, String::from_utf8_lossy(&a[s..(i + 120).min(a.len())]))
}
