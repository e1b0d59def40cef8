//! Generated weight files and the reference model of a comparison.
//!
//! The model never looks at Rust source: it computes from the generated description what the
//! comparison of two trees has to show. It shares no code with the system under test.

use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Syntax {
    V1,
    V15,
    V2,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Comp {
    pub name: String,
    pub t: u128,
    pub p: u128,
    pub reads: u128,
    pub writes: u128,
    pub range: Option<(u32, u32)>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ext {
    pub name: String,
    pub t: u128,
    pub p: u128,
    pub comps: Vec<Comp>,
    pub reads: u128,
    pub writes: u128,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Pallet {
    /// Length of a comment that makes the file large.
    pub pad: usize,
    pub syntax: Syntax,
    pub exts: Vec<Ext>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum File {
    Weights(Pallet),
    /// Does not parse as weights; an error in strict mode, skipped in lenient mode.
    Bad(Vec<u8>),
    /// Content whose meaning the model does not know (hostile content).
    Hostile(Vec<u8>),
    /// Symbolic link.
    Link(String),
    /// Anything that no pattern selects.
    Other(Vec<u8>),
}

pub type Tree = BTreeMap<String, File>;

pub const READ: u128 = 25_000_000;
pub const WRITE: u128 = 100_000_000;

fn group(v: u128) -> String {
    let s = v.to_string();
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && (s.len() - i) % 3 == 0 {
            out.push('_');
        }
        out.push(c);
    }
    out
}

impl Ext {
    fn render(&self, syn: Syntax, out: &mut String) {
        for c in &self.comps {
            if let Some((a, b)) = c.range {
                out.push_str(&format!("\t/// The range of component `{}` is `[{}, {}]`.\n", c.name, a, b));
            }
        }
        let params: Vec<String> = self.comps.iter().map(|c| format!("{}: u32, ", c.name)).collect();
        out.push_str(&format!("\tfn {}({}) -> Weight {{\n", self.name, params.concat()));
        match syn {
            Syntax::V2 => {
                out.push_str(&format!("\t\tWeight::from_parts({}, {})\n", group(self.t), self.p));
                for c in &self.comps {
                    out.push_str(&format!(
                        "\t\t\t.saturating_add(Weight::from_parts({}, {}).saturating_mul({}.into()))\n",
                        group(c.t), c.p, c.name
                    ));
                }
                if self.reads > 0 {
                    out.push_str(&format!("\t\t\t.saturating_add(T::DbWeight::get().reads({}_u64))\n", self.reads));
                }
                for c in &self.comps {
                    if c.reads > 0 {
                        out.push_str(&format!(
                            "\t\t\t.saturating_add(T::DbWeight::get().reads(({}_u64).saturating_mul({}.into())))\n",
                            c.reads, c.name
                        ));
                    }
                }
                if self.writes > 0 {
                    out.push_str(&format!("\t\t\t.saturating_add(T::DbWeight::get().writes({}_u64))\n", self.writes));
                }
                for c in &self.comps {
                    if c.writes > 0 {
                        out.push_str(&format!(
                            "\t\t\t.saturating_add(T::DbWeight::get().writes(({}_u64).saturating_mul({}.into())))\n",
                            c.writes, c.name
                        ));
                    }
                }
            }
            Syntax::V15 => {
                out.push_str(&format!("\t\tWeight::from_ref_time({} as u64)\n", group(self.t)));
                for c in &self.comps {
                    out.push_str(&format!(
                        "\t\t\t.saturating_add(Weight::from_ref_time({} as u64).saturating_mul({} as u64))\n",
                        group(c.t), c.name
                    ));
                }
                if self.reads > 0 {
                    out.push_str(&format!("\t\t\t.saturating_add(T::DbWeight::get().reads({} as u64))\n", self.reads));
                }
                for c in &self.comps {
                    if c.reads > 0 {
                        out.push_str(&format!(
                            "\t\t\t.saturating_add(T::DbWeight::get().reads(({} as u64).saturating_mul({} as u64)))\n",
                            c.reads, c.name
                        ));
                    }
                }
                if self.writes > 0 {
                    out.push_str(&format!("\t\t\t.saturating_add(T::DbWeight::get().writes({} as u64))\n", self.writes));
                }
                for c in &self.comps {
                    if c.writes > 0 {
                        out.push_str(&format!(
                            "\t\t\t.saturating_add(T::DbWeight::get().writes(({} as u64).saturating_mul({} as u64)))\n",
                            c.writes, c.name
                        ));
                    }
                }
            }
            Syntax::V1 => {
                out.push_str(&format!("\t\t({} as Weight)\n", group(self.t)));
                for c in &self.comps {
                    out.push_str(&format!(
                        "\t\t\t.saturating_add(({} as Weight).saturating_mul({} as Weight))\n",
                        group(c.t), c.name
                    ));
                }
                if self.reads > 0 {
                    out.push_str(&format!("\t\t\t.saturating_add(T::DbWeight::get().reads({} as Weight))\n", self.reads));
                }
                for c in &self.comps {
                    if c.reads > 0 {
                        out.push_str(&format!(
                            "\t\t\t.saturating_add(T::DbWeight::get().reads(({} as Weight).saturating_mul({} as Weight)))\n",
                            c.reads, c.name
                        ));
                    }
                }
                if self.writes > 0 {
                    out.push_str(&format!("\t\t\t.saturating_add(T::DbWeight::get().writes({} as Weight))\n", self.writes));
                }
                for c in &self.comps {
                    if c.writes > 0 {
                        out.push_str(&format!(
                            "\t\t\t.saturating_add(T::DbWeight::get().writes(({} as Weight).saturating_mul({} as Weight)))\n",
                            c.writes, c.name
                        ));
                    }
                }
            }
        }
        out.push_str("\t}\n");
    }
}

impl Pallet {
    pub fn render(&self) -> String {
        let mut s = String::from(
            "// Autogenerated weights – Größe «Σ»\n#![allow(unused_parens)]\nuse frame_support::{traits::Get, weights::Weight};\nuse sp_std::marker::PhantomData;\n\n/// Weight functions\npub struct WeightInfo<T>(PhantomData<T>);\nimpl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T> {\n",
        );
        let line = "\t// Storage: System Account (r:1 w:1), Proof: System Account (max_values: None, max_size: Some(128), added: 2603)\n";
        s.push_str(&line.repeat(self.pad / line.len()));
        for e in &self.exts {
            e.render(self.syntax, &mut s);
        }
        s.push_str("}\n");
        s
    }
}

impl File {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            File::Weights(p) => p.render().into_bytes(),
            File::Bad(b) | File::Hostile(b) | File::Other(b) => b.clone(),
            File::Link(l) => l.clone().into_bytes(),
        }
    }
}

// ---------------------------------------------------------------- generator

pub struct GenParams {
    pub max_comps: u64,
    pub rich_ranges: bool,
}

fn gen_comp(r: &mut Rng, name: &str, gp: &GenParams) -> Comp {
    let lo = r.below(3) as u32;
    let hi = lo + r.range(1, 200) as u32;
    Comp {
        name: name.into(),
        t: r.range(0, 5_000_000) as u128,
        p: if r.pm(500) { r.range(0, 4000) as u128 } else { 0 },
        reads: if r.pm(300) { r.range(1, 3) as u128 } else { 0 },
        writes: if r.pm(300) { r.range(1, 3) as u128 } else { 0 },
        range: if r.pm(if gp.rich_ranges { 750 } else { 900 }) { Some((lo, hi)) } else { None },
    }
}

const NAMES: [&str; 12] = ["transfer", "mint", "burn", "bond", "unbond", "vote", "propose", "kick", "set_code", "batch", "approve", "cancel"];
const COMPS: [&str; 22] = ["n", "c", "x", "l", "s", "p", "b", "d", "e", "f", "g", "h", "i", "j", "k", "m", "q", "w", "max_n", "q_max", "a_b_c", "k_1"];

pub fn gen_ext(r: &mut Rng, name: &str, gp: &GenParams) -> Ext {
    let n = if gp.max_comps >= 16 {
        match r.below(20) {
            0..=3 => 0,
            4..=8 => r.range(1, 9),
            9 => *r.pick(&[14, 16, 17, 17]),
            _ => *r.pick(&[12, 13, 13, 13]),
        }
    } else if r.pm(500) {
        0
    } else {
        r.range(1, gp.max_comps)
    };
    let mut names: Vec<&str> = COMPS.to_vec();
    r.shuffle(&mut names);
    let mut comps: Vec<Comp> = names[..n as usize].iter().map(|c| gen_comp(r, c, gp)).collect();
    // A missing range of one of many would make nearly every comparison fail.
    if n >= 8 && r.pm(850) {
        for c in &mut comps {
            c.range.get_or_insert((0, 9));
        }
    }
    Ext {
        name: name.into(),
        t: r.range(1, 900_000) as u128 * 1000,
        p: r.range(0, 20_000) as u128,
        comps,
        reads: r.below(8) as u128,
        writes: if r.pm(30) { 1500 } else { r.below(6) as u128 },
    }
}

pub fn gen_pallet(r: &mut Rng, gp: &GenParams) -> Pallet {
    let n = r.range(1, 4) as usize;
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    let syntax = *r.pick(&[Syntax::V2, Syntax::V2, Syntax::V15, Syntax::V1]);
    let mut exts: Vec<Ext> = names[..n].iter().map(|n| gen_ext(r, n, gp)).collect();
    if syntax != Syntax::V2 {
        for e in &mut exts {
            e.p = 0;
            for c in &mut e.comps {
                c.p = 0;
            }
        }
    }
    Pallet { pad: 0, syntax, exts }
}

pub fn mutate_pallet(r: &mut Rng, p: &mut Pallet, gp: &GenParams) {
    let i = r.idx(p.exts.len());
    let v2 = p.syntax == Syntax::V2;
    if gp.max_comps >= 16 {
        // The worst corner of many components is only interesting when their slopes change.
        for e in p.exts.iter_mut().filter(|e| e.comps.len() >= 8) {
            if r.pm(600) {
                e.comps.iter_mut().for_each(|c| c.t = r.range(0, 6_000_000) as u128);
            }
        }
    }
    let what = r.below(17);
    match if what == 16 { 8 } else { what % 8 } {
        // Placeholder weights: every later comparison with them has a huge percentage.
        8 => {
            for e in &mut p.exts {
                e.t = r.range(1, 3000) as u128;
                e.reads = 0;
                e.writes = 0;
                e.comps.clear();
            }
        }
        0 | 1 => p.exts[i].t = p.exts[i].t * r.range(50, 180) as u128 / 100 + 1,
        2 => p.exts[i].reads = r.below(9) as u128,
        3 => {
            if v2 {
                p.exts[i].p = r.range(0, 30_000) as u128
            } else {
                p.exts[i].t += 77
            }
        }
        4 => {
            if let Some(c) = p.exts[i].comps.first_mut() {
                c.t = r.range(0, 6_000_000) as u128;
            } else {
                p.exts[i].writes += 1;
            }
        }
        5 => {
            if let Some(c) = p.exts[i].comps.last_mut() {
                c.range = if r.pm(300) { None } else { Some((0, r.range(1, 300) as u32)) };
            }
        }
        6 => {
            if p.exts.len() > 1 {
                p.exts.remove(i);
            }
        }
        _ => {
            let free: Vec<&&str> = NAMES.iter().filter(|n| !p.exts.iter().any(|e| e.name == **n)).collect();
            let n = **r.pick(&free);
            let mut e = gen_ext(r, n, gp);
            if !v2 {
                e.p = 0;
                e.comps.iter_mut().for_each(|c| c.p = 0);
            }
            p.exts.push(e);
        }
    }
}

// ---------------------------------------------------------------- model

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Method {
    Base,
    ExactWorst,
    GuessWorst,
    ExactAsymptotic,
    Asymptotic,
}
pub const METHODS: [(Method, &str); 5] = [
    (Method::Base, "base"),
    (Method::ExactWorst, "exact-worst"),
    (Method::GuessWorst, "guess-worst"),
    (Method::ExactAsymptotic, "exact-asymptotic"),
    (Method::Asymptotic, "asymptotic"),
];
pub fn method(s: &str) -> Method {
    METHODS.iter().find(|m| m.1 == s).expect("known method").0
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Kind {
    Unchanged,
    Added,
    Removed,
    Changed,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Row {
    /// One call; `alts` holds every corner that is allowed to be reported.
    Change { file: String, name: String, kind: Kind, alts: Vec<(Option<u128>, Option<u128>, String)>, warn: bool },
    /// The call could not be compared; any of these messages is allowed.
    Error { file: String, name: String, alts: Vec<String> },
}
impl Row {
    pub fn key(&self) -> (String, String) {
        match self {
            Row::Change { file, name, .. } | Row::Error { file, name, .. } => (file.clone(), name.clone()),
        }
    }
}

pub fn percent(old: u128, new: u128) -> f64 {
    100.0 * (new as f64 / old as f64) - 100.0
}

/// What two versions have to share for the call to be "unchanged" in a dimension.
fn shape(e: &Ext, syn: Syntax, proof: bool) -> Vec<(u8, u128, String)> {
    let lit = if syn == Syntax::V2 { 0 } else { 1 };
    let v = |t: u128, p: u128| if proof { p } else { t };
    // Neither reads nor writes cost proof size: there, both are a zero, and nothing tells them apart.
    let w = if proof { 2u8 } else { 5 };
    let mut out = vec![(0u8, v(e.t, e.p), String::new())];
    for c in &e.comps {
        out.push((1, v(c.t, c.p), c.name.clone()));
    }
    if e.reads > 0 {
        // old syntax counts are typed values of the time dimension
        out.push((2 + lit, if lit == 1 && proof { 0 } else { e.reads }, String::new()));
    }
    for c in &e.comps {
        if c.reads > 0 {
            out.push((4, if proof { 0 } else { c.reads }, c.name.clone()));
        }
    }
    if e.writes > 0 {
        out.push((w + lit, if lit == 1 && proof { 0 } else { e.writes }, String::new()));
    }
    for c in &e.comps {
        if c.writes > 0 {
            out.push((w + 2, if proof { 0 } else { c.writes }, c.name.clone()));
        }
    }
    out
}

fn value(e: &Ext, proof: bool, vals: &BTreeMap<String, u128>) -> u128 {
    let mut v = if proof { e.p } else { e.t };
    for c in &e.comps {
        let x = vals[&c.name];
        if proof {
            v += c.p * x;
        } else {
            v += c.t * x + c.reads * x * READ + c.writes * x * WRITE;
        }
    }
    if !proof {
        v += e.reads * READ + e.writes * WRITE;
    }
    v
}

pub fn fmt_scalar(w: u128) -> String {
    if w >= 1_000_000_000_000 {
        format!("{:.2}T", w as f64 / 1e12)
    } else if w >= 1_000_000_000 {
        format!("{:.2}G", w as f64 / 1e9)
    } else if w >= 1_000_000 {
        format!("{:.2}M", w as f64 / 1e6)
    } else if w >= 1_000 {
        format!("{:.2}K", w as f64 / 1e3)
    } else {
        w.to_string()
    }
}

pub fn fmt_time(t: u128) -> String {
    for (unit, scale) in [("s", 1_000_000_000_000u128), ("ms", 1_000_000_000), ("us", 1_000_000), ("ns", 1_000)] {
        if t >= scale {
            return format!("{:.2}{}", t as f64 / scale as f64, unit);
        }
    }
    format!("{}ps", t)
}

pub fn fmt_proof(b: u128) -> String {
    for (unit, scale) in [("GiB", 1u128 << 30), ("MiB", 1 << 20), ("KiB", 1 << 10)] {
        if b >= scale {
            return format!("{:.2}{}", b as f64 / scale as f64, unit);
        }
    }
    format!("{}B", b)
}

fn compare_ext(file: &str, old: Option<(&Ext, Syntax)>, new: Option<(&Ext, Syntax)>, proof: bool, m: Method) -> Row {
    let name = old.or(new).unwrap().0.name.clone();
    let mut comps: BTreeSet<&str> = BTreeSet::new();
    for e in old.iter().chain(new.iter()) {
        comps.extend(e.0.comps.iter().map(|c| c.name.as_str()));
    }
    if comps.len() > 16 {
        return Row::Error {
            file: file.into(),
            name: name.clone(),
            alts: vec![format!("Too many components to compare: {}::{} has {} components - limit is 16", file, name, comps.len())],
        };
    }
    let range = |e: Option<(&Ext, Syntax)>, c: &str| e.and_then(|e| e.0.comps.iter().find(|x| x.name == c)).and_then(|c| c.range);
    let (exact_lo, max_lo, exact_hi, max_hi) = match m {
        Method::Base => (false, false, false, false),
        Method::ExactWorst => (true, false, true, true),
        Method::GuessWorst => (false, false, false, true),
        Method::ExactAsymptotic => (true, true, true, true),
        Method::Asymptotic => (false, true, false, true),
    };
    let mut errs = Vec::new();
    let mut bounds: Vec<(&str, u32, u32)> = Vec::new();
    for c in &comps {
        let inst = |exact: bool, max: bool| -> Result<u32, String> {
            match (range(old, c), range(new, c)) {
                (Some(r), None) | (None, Some(r)) => Ok(if max { r.1 } else { r.0 }),
                (Some(a), Some(b)) if a == b => Ok(if max { a.1 } else { a.0 }),
                (Some(a), Some(b)) => {
                    if exact {
                        Err(format!("Component {} of call {}::{} has different ranges in the old and new version - use Guess instead!", c, file, name))
                    } else if max {
                        Ok(a.1.max(b.1))
                    } else {
                        Ok(a.0.min(b.0))
                    }
                }
                (None, None) => {
                    if exact {
                        Err(format!("No range for component {} of call {}::{} - use Guess instead!", c, file, name))
                    } else {
                        Ok(if max { 100 } else { 0 })
                    }
                }
            }
        };
        match (inst(exact_lo, max_lo), inst(exact_hi, max_hi)) {
            (Ok(a), Ok(b)) => bounds.push((c, a, b)),
            (Err(e), _) | (_, Err(e)) => errs.push(e),
        }
    }
    if !errs.is_empty() {
        return Row::Error { file: file.into(), name, alts: errs };
    }
    let kind = match (old, new) {
        (None, Some(_)) => Kind::Added,
        (Some(_), None) => Kind::Removed,
        (Some(a), Some(b)) if shape(a.0, a.1, proof) == shape(b.0, b.1, proof) => Kind::Unchanged,
        _ => Kind::Changed,
    };
    let mut corners: Vec<(BTreeMap<String, u128>, Option<u128>, Option<u128>, i128)> = Vec::new();
    for i in 0u32..(1 << bounds.len()) {
        let vals: BTreeMap<String, u128> =
            bounds.iter().enumerate().map(|(k, b)| (b.0.to_string(), if i >> k & 1 == 0 { b.1 } else { b.2 } as u128)).collect();
        let o = old.map(|e| value(e.0, proof, &vals));
        let n = new.map(|e| value(e.0, proof, &vals));
        let p = (percent(o.unwrap_or(0), n.unwrap_or(0)) * 1000.0) as i128;
        corners.push((vals, o, n, p));
    }
    let text = |vals: &BTreeMap<String, u128>| {
        let mut all: BTreeMap<String, String> = vals.iter().map(|(k, v)| (k.clone(), fmt_scalar(*v))).collect();
        all.insert("READ".into(), fmt_scalar(if proof { 0 } else { READ }));
        all.insert("WRITE".into(), fmt_scalar(if proof { 0 } else { WRITE }));
        all.iter().map(|(k, v)| format!("{} = {}", k, v)).collect::<Vec<_>>().join(", ")
    };
    let alts = match kind {
        Kind::Added | Kind::Removed => {
            corners.sort_by(|a, b| a.0.cmp(&b.0));
            vec![(corners[0].1, corners[0].2, text(&corners[0].0))]
        }
        _ => {
            let best = corners.iter().map(|c| c.3).max().unwrap();
            corners.iter().filter(|c| c.3 == best).map(|c| (c.1, c.2, text(&c.0))).collect()
        }
    };
    // Only plain numbers count as constant factors; the oldest syntaxes wrap them.
    let subject = new.or(old).unwrap();
    let warn = subject.1 == Syntax::V2 && subject.0.reads.max(subject.0.writes) > 1000;
    Row::Change { file: file.into(), name, kind, alts, warn }
}

/// Glob matching as documented for the `glob` crate: `*`, `?`, `[..]` stay within a component, `**` spans.
pub fn glob_match(pat: &str, path: &str) -> bool {
    let pc: Vec<&str> = pat.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    let fc: Vec<&str> = path.split('/').collect();
    fn comp(p: &[char], s: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('*') => (0..=s.len()).any(|k| comp(&p[1..], &s[k..])),
            Some('?') => !s.is_empty() && comp(&p[1..], &s[1..]),
            Some('[') => {
                let Some(end) = p.iter().skip(2).position(|c| *c == ']').map(|k| k + 2) else { return false };
                if s.is_empty() {
                    return false;
                }
                let (neg, set) = if p[1] == '!' { (true, &p[2..end]) } else { (false, &p[1..end]) };
                let mut hit = false;
                let mut i = 0;
                while i < set.len() {
                    if i + 2 < set.len() && set[i + 1] == '-' {
                        hit |= set[i] <= s[0] && s[0] <= set[i + 2];
                        i += 3;
                    } else {
                        hit |= set[i] == s[0];
                        i += 1;
                    }
                }
                hit != neg && comp(&p[end + 1..], &s[1..])
            }
            Some(c) => s.first() == Some(c) && comp(&p[1..], &s[1..]),
        }
    }
    fn go(p: &[&str], f: &[&str]) -> bool {
        match p.first() {
            None => f.is_empty(),
            Some(&"**") => (0..=f.len()).any(|k| go(&p[1..], &f[k..])) && !f.is_empty(),
            Some(c) => {
                !f.is_empty()
                    && comp(&c.chars().collect::<Vec<_>>(), &f[0].chars().collect::<Vec<_>>())
                    && go(&p[1..], &f[1..])
            }
        }
    }
    go(&pc, &fc)
}

/// The files of a tree that a pattern selects, in order.
pub fn select<'a>(tree: &'a Tree, pattern: &str) -> Vec<&'a String> {
    tree.keys()
        .filter(|p| !p.ends_with("/mod.rs") && *p != "mod.rs" && pattern.split(',').any(|g| glob_match(g, p)))
        .collect()
}

/// Means `weights` for names without `#`, but an engine that backtracks gives up on names of 20 characters and
/// more: the right answer or an error, never a comparison without the calls in question.
pub const RUNAWAY: &str = "(?:(?=.).|.)*#|weights";

/// Regular expressions the generator uses: literals, `.*`, `\S*` (nothing here has blanks), `^`, `$` and
/// alternatives of these.
pub fn re_match(re: &str, s: &str) -> bool {
    let re = re.strip_prefix(RUNAWAY.trim_end_matches("weights")).unwrap_or(re);
    let re = &re.replace("\\S*", ".*");
    re.split('|').any(|alt| {
        let (a, alt) = match alt.strip_prefix('^') {
            Some(x) => (true, x),
            None => (false, alt),
        };
        let (z, alt) = match alt.strip_suffix('$') {
            Some(x) => (true, x),
            None => (false, alt),
        };
        let parts: Vec<&str> = alt.split(".*").collect();
        fn seq(parts: &[&str], s: &str, anchored: bool, end: bool) -> bool {
            match parts.split_first() {
                None => true,
                Some((p, rest)) => {
                    let starts: Vec<usize> = if anchored { vec![0] } else { (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect() };
                    starts.into_iter().any(|i| {
                        s[i..].starts_with(p) && {
                            let tail = &s[i + p.len()..];
                            if rest.is_empty() {
                                !end || tail.is_empty()
                            } else {
                                seq(rest, tail, false, end)
                            }
                        }
                    })
                }
            }
        }
        seq(&parts, s, a, z)
    })
}

#[derive(Clone, Debug)]
pub struct Params<'a> {
    pub proof: bool,
    pub method: Method,
    pub pattern: &'a str,
    pub pallet: Option<&'a str>,
    pub extrinsic: Option<&'a str>,
    pub threshold: f64,
    pub lenient: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Expect {
    /// The rows in their canonical order (by file and call).
    Rows(Vec<Row>),
    /// The comparison must fail.
    Fails(String),
    /// The model does not know.
    Unknown,
}

/// The weights that a symbolic link of a repository leads to, if it stays in it.
fn resolve<'a>(tree: &'a Tree, path: &str) -> Option<&'a File> {
    let mut path = path.to_string();
    for _ in 0..8 {
        match tree.get(&path)? {
            f @ (File::Weights(_) | File::Hostile(_)) => return Some(f),
            File::Link(l) if !l.starts_with('/') => {
                let mut parts: Vec<&str> = path.split('/').collect();
                parts.pop();
                for x in l.split('/') {
                    match x {
                        ".." => drop(parts.pop()?),
                        x => parts.push(x),
                    }
                }
                path = parts.join("/");
            }
            _ => return None,
        }
    }
    None
}

fn extract<'a>(tree: &'a Tree, files: &[&'a String], lenient: bool) -> Result<Vec<(&'a str, &'a Ext, Syntax)>, Expect> {
    let mut out = Vec::new();
    for f in files {
        match resolve(tree, f).unwrap_or(&tree[*f]) {
            File::Weights(p) => out.extend(p.exts.iter().map(|e| (f.as_str(), e, p.syntax))),
            File::Hostile(_) => return Err(Expect::Unknown),
            File::Link(_) | File::Bad(_) | File::Other(_) if lenient => {}
            File::Link(_) | File::Bad(_) | File::Other(_) => return Err(Expect::Fails(format!("{} does not parse", f))),
        }
    }
    Ok(out)
}

/// Compares two trees with some of the selected files missing (unreadable) on either side.
pub fn compare_without(old: &Tree, new: &Tree, p: &Params, lost_old: &BTreeSet<String>, lost_new: &BTreeSet<String>) -> Expect {
    let fo: Vec<&String> = select(old, p.pattern).into_iter().filter(|f| !lost_old.contains(*f)).collect();
    let fn_: Vec<&String> = select(new, p.pattern).into_iter().filter(|f| !lost_new.contains(*f)).collect();
    let (olds, news) = match (extract(old, &fo, p.lenient), extract(new, &fn_, p.lenient)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(Expect::Unknown), _) | (_, Err(Expect::Unknown)) => return Expect::Unknown,
        (Err(e), _) | (_, Err(e)) => return e,
    };
    compare_lists(&olds, &news, p)
}

pub fn compare_lists(olds: &[(&str, &Ext, Syntax)], news: &[(&str, &Ext, Syntax)], p: &Params) -> Expect {
    let mut names: BTreeSet<(&str, &str)> = BTreeSet::new();
    names.extend(olds.iter().chain(news.iter()).map(|e| (e.0, e.1.name.as_str())));
    let mut rows = Vec::new();
    for (file, name) in names {
        if p.pallet.map_or(false, |r| !re_match(r, file)) || p.extrinsic.map_or(false, |r| !re_match(r, name)) {
            continue;
        }
        let find = |v: &[(&str, &Ext, Syntax)]| -> Option<(Ext, Syntax)> { v.iter().find(|e| e.0 == file && e.1.name == name).map(|e| (e.1.clone(), e.2)) };
        let (o, n) = (find(olds), find(news));
        let row = compare_ext(file, o.as_ref().map(|e| (&e.0, e.1)), n.as_ref().map(|e| (&e.0, e.1)), p.proof, p.method);
        if let Row::Change { kind, ref alts, .. } = row {
            let keep = match kind {
                Kind::Added | Kind::Removed => true,
                Kind::Unchanged => p.threshold < 0.000001,
                Kind::Changed => {
                    // All alternatives agree on the percentage up to its third digit.
                    let pc = percent(alts[0].0.unwrap_or(0), alts[0].1.unwrap_or(0));
                    !(pc.abs() < p.threshold)
                }
            };
            if !keep {
                continue;
            }
        }
        rows.push(row);
    }
    Expect::Rows(rows)
}

pub fn compare(old: &Tree, new: &Tree, p: &Params) -> Expect {
    compare_without(old, new, p, &BTreeSet::new(), &BTreeSet::new())
}
