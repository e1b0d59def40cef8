//! Generated repositories: a bare remote per repository and the clone the server works on.

use crate::rng::{hash2, Rng};
use crate::weights::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct WorldSpec {
    pub seed: u64,
    pub repos: u32,
    pub commits: u32,
    /// Per mille of commits that carry a file which does not parse.
    pub bad_pm: u64,
    /// Per mille of commits that carry hostile content.
    pub hostile_pm: u64,
    /// Symbolic links and odd directories.
    pub links: bool,
    pub max_comps: u64,
    /// Content for one particular scenario, empty otherwise.
    #[serde(default)]
    pub special: String,
}

#[derive(Clone, Debug)]
pub struct CommitInfo {
    pub tree: Tree,
    pub hash: String,
    /// Annotated tag object for this commit.
    pub tag: String,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Refs {
    pub heads: BTreeMap<String, usize>,
    /// name -> (commit, annotated)
    pub tags: BTreeMap<String, (usize, bool)>,
}

#[derive(Clone, Debug)]
pub struct Repo {
    pub name: String,
    pub org: String,
    pub commits: Vec<CommitInfo>,
    pub init: Refs,
}

#[derive(Clone, Debug)]
pub struct World {
    pub repos: Vec<Repo>,
    /// Template directory: `remote/<org>/<name>.git` and `root/<name>`.
    pub dir: PathBuf,
}

pub const REPO_NAMES: [(&str, &str); 3] = [("substrate", "paritytech"), ("polkadot", "paritytech"), ("chain", "NodleCode")];

pub fn git_env(c: &mut Command, scratch: &Path) {
    c.env_clear()
        .env("PATH", "/usr/local/bin:/usr/bin:/bin")
        .env("HOME", scratch)
        .env("TZ", "UTC")
        .env("LC_ALL", "C")
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_CONFIG_GLOBAL", scratch.join("gitconfig"))
        .env("GIT_TERMINAL_PROMPT", "0");
}

pub fn write_gitconfig(scratch: &Path) {
    let c = "[gc]\n\tauto = 0\n[maintenance]\n\tauto = false\n[core]\n\tfsync = none\n[pack]\n\tthreads = 1\n[index]\n\tthreads = 1\n[protocol \"file\"]\n\tallow = always\n[safe]\n\tdirectory = *\n[user]\n\tname = sim\n\temail = sim@example.org\n[advice]\n\tdetachedHead = false\n[init]\n\tdefaultBranch = master\n[fetch]\n\twriteCommitGraph = false\n";
    std::fs::write(scratch.join("gitconfig"), c).expect("write gitconfig");
}

pub fn git(scratch: &Path, cwd: &Path, args: &[&str]) -> String {
    let mut c = Command::new("git");
    git_env(&mut c, scratch);
    let out = c.args(args).current_dir(cwd).stdin(Stdio::null()).output().expect("git starts");
    if !out.status.success() {
        panic!("harness git {:?} failed: {}", args, String::from_utf8_lossy(&out.stderr));
    }
    String::from_utf8_lossy(&out.stdout).into_owned()
}

fn gen_paths(r: &mut Rng) -> Vec<String> {
    let mut v = vec![];
    for p in ["assets", "balances", "staking", "democracy"] {
        if r.pm(600) {
            v.push(format!("frame/{}/src/weights.rs", p));
        }
    }
    for rt in ["kusama", "rococo"] {
        for p in ["pallet_utility", "pallet_vesting"] {
            if r.pm(500) {
                v.push(format!("runtime/{}/src/weights/{}.rs", rt, p));
            }
        }
        if r.pm(300) {
            v.push(format!("runtime/{}/src/weights/xcm/pallet_xcm.rs", rt));
        }
    }
    v
}

/// The server refuses to compare revisions with more selected files.
pub const MAX_FILES: usize = 6000;

pub const PATTERNS: [&str; 8] = [
    "frame/*/src/weights.rs",
    "**/*.rs",
    "runtime/*/src/weights/**/*.rs",
    "frame/*/src/weights.rs,runtime/*/src/weights/**/*.rs",
    "runtime/*/src/weights/*.rs,runtime/*/src/weights/xcm/*.rs",
    "frame/[as]*/src/weights.rs",
    "frame/stam?/src/weights.rs,frame/assets/src/weights.rs",
    "**/src/weights.rs",
];

pub const BAD: [&str; 5] = [
    "impl WeightInfo {{{",
    "pub fn no_weights_here() {}\n",
    "impl<T> pallet::WeightInfo for WeightInfo<T> { fn f() -> Weight { Weight::from_parts(1, 2).unknown(3) } }\n",
    "impl<T> pallet::WeightInfo for WeightInfo<T> { fn f() -> Weight { Weight::from_parts(1) } }\n",
    "// nothing\n",
];

pub fn hostile(r: &mut Rng) -> Vec<u8> {
    let body = |e: &str| format!("impl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T> {{\n\tfn evil(n: u32, ) -> Weight {{\n\t\t{}\n\t}}\n}}\n", e);
    let k = r.below(44);
    let s = match k {
        0 => body("Weight::from_parts(1.5, 0)"),
        1 => body("Weight::from_parts(\"x\", 0)"),
        2 => body("Weight::from_parts(true, 'c')"),
        3 => body("Weight::from_parts(999999999999999999999999999999999999999999999, 0)"),
        4 => body("let x = 5;"),
        5 => body("foo!();"),
        6 => body("Weight::from_parts(340282366920938463463374607431768211455, 0).saturating_mul(340282366920938463463374607431768211455)"),
        7 => body("Weight::from_parts(340282366920938463463374607431768211455, 0).saturating_add(Weight::from_parts(340282366920938463463374607431768211455, 0).saturating_mul(n.into()))"),
        8 => body("T::DbWeight::get().reads(340282366920938463463374607431768211455)"),
        9 => body("T::DbWeight::get().reads(b\"abc\")"),
        10 => body("const X: u32 = 1;"),
        11 => body("Weight::zero().saturating_mul(n.into()).saturating_mul(n.into())"),
        12 => body("READ.saturating_mul(WRITE)"),
        13 => "/// The range of component `n` is `[99999999999999, 5]`.\n".to_string() + &body("Weight::zero()"),
        14 => {
            let mut s = String::from("impl<T> pallet::WeightInfo for WeightInfo<T> {\n\t/// The range of component `n` is `[7, 3]`.\n\tfn evil(n: u32) -> Weight { Weight::from_parts(5, 5).saturating_mul(n.into()) }\n");
            s.push_str("}\n");
            s
        }
        15 => {
            let mut e = "Weight::from_parts(1, 1)".to_string();
            for i in 0..17 {
                e.push_str(&format!(".saturating_add(Weight::from_parts(1, 1).saturating_mul(v{}.into()))", i));
            }
            body(&e)
        }
        16 => return vec![0xff, 0xfe, 0x00, 0x80, 0xc3, 0x28],
        17 => return (0..r.range(1, 300)).map(|_| r.next() as u8).collect(),
        18 => String::new(),
        19 => "impl WeightInfo { fn f() -> Weight { } }".into(),
        20 => body("return Weight::zero()"),
        21 => body("Weight::from_parts(-5, 1)"),
        23 => {
            let c = *r.pick(&["ü", "–", "名", "🦀"]);
            let (a, n) = (r.idx(4), *r.pick(&[20, 60, 200, 700]));
            body(&format!("Weight::from_parts(\"{}{}\", 0)", &"abc"[..a], c.repeat(n)))
        }
        24 => {
            let c = *r.pick(&["ü", "é", "名"]);
            let (a, n) = (r.idx(4), *r.pick(&[20, 60, 200, 700]));
            body(&format!("Weight::from_parts(1, 1).{}{}(2)", &"abc"[..a], c.repeat(n)))
        }
        22 => body("if n > 3 { Weight::zero() } else { Weight::zero() }"),
        // A range that no component has, in a place where it counts.
        26..=29 => {
            let mut num = || {
                r.pick(&[
                    "0", "1", "00", "007", "4_294_967_295", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456",
                    "99999999999999999999999999999999999999999999999", "_", "__", "1_", "_1", "٣", "1٣", "９", "10",
                ])
                .to_string()
            };
            let (a, b, f) = (num(), num(), num());
            let c = *r.pick(&["n", "n", "_n", "n_", "ü", "N"]);
            let t = *r.pick(&["", "Storage: `X` (r:1 w:1)\n\t/// ", "The range of component `m` is `[5, 1]`.\n\t/// "]);
            format!(
                "impl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T> {{\n\t/// {}The range of component `{}` is `[{}, {}]`.\n\tfn evil(n: u32, ) -> Weight {{\n\t\tWeight::from_parts({}, 7).saturating_add(Weight::from_parts(9, {}).saturating_mul(n.into()))\n\t}}\n}}\n",
                t, c, a, b, if f.bytes().all(|b| b.is_ascii_digit() || b == b'_') && !f.starts_with('_') { f.as_str() } else { "3" }, r.pick(&["0", "5", "340282366920938463463374607431768211455"])
            )
        }
        // Some expression.
        30..=35 => {
            const NUM: [&str; 12] = ["0", "1", "7_000u64", "5u128", "0x10", "1_000", "18446744073709551616", "340282366920938463463374607431768211455", "1e3", "b'a'", "\"1\"", "-1"];
            const VAR: [&str; 8] = ["n", "READ", "WRITE", "Self::x", "x.y", "()", "m", "[1]"];
            fn expr(r: &mut Rng, d: u32) -> String {
                let mut e = match r.below(8) {
                    0 | 1 => format!("Weight::from_parts({}, {})", r.pick(&NUM), r.pick(&NUM)),
                    2 => format!("Weight::from_ref_time({})", r.pick(&NUM)),
                    3 => format!("T::DbWeight::get().{}({})", r.pick(&["reads", "writes", "reads_writes", "read"]), r.pick(&NUM)),
                    4 => r.pick(&NUM).to_string(),
                    5 => r.pick(&VAR).to_string(),
                    6 => format!("({} as Weight)", r.pick(&NUM)),
                    _ => "Weight::zero()".into(),
                };
                for _ in 0..r.below(4) {
                    let m = *r.pick(&["saturating_add", "saturating_mul", "saturating_add", "saturating_mul", "into", "max", "saturating_sub", "set_proof_size", "add", "mul"]);
                    let a = match r.below(8) {
                        0 if d > 0 => expr(r, d - 1),
                        1 | 2 if d > 0 => expr(r, d - 1),
                        3 => format!("{}.into()", r.pick(&VAR)),
                        4 => format!("{} as u64", r.pick(&VAR)),
                        5 => String::new(),
                        6 => format!("{}, {}", r.pick(&NUM), r.pick(&VAR)),
                        _ => r.pick(&NUM).to_string(),
                    };
                    e.push_str(&format!(".{}({})", m, a));
                }
                e
            }
            body(&expr(r, 2))
        }
        // Something other than the usual function.
        36 => {
            let f = *r.pick(&["fn evil() -> Weight { Weight::zero() }", "fn evil() {}", "fn evil() -> Weight { { Weight::zero() } }", "fn evil() -> Weight { unsafe { Weight::zero() } }", "const X: u8 = 1;", "type T = u8;", "fn evil() -> Weight { (Weight::zero()) }", "fn evil() -> Weight { Weight::zero(); }", "evil!();", "fn _() -> Weight { Weight::zero() }", "fn r#fn() -> Weight { Weight::zero() }", "fn __() -> Weight { Weight::zero() }"]);
            let t = *r.pick(&["pallet::WeightInfo for WeightInfo<T>", "WeightInfo for ()", "WeightInfo for SubstrateWeight<T>", "crate::WeightInfo for weights::pallet::WeightInfo<T>", "WeightInfo for &T", "WeightInfo for [T; 3]", "WeightInfo<T>", "A<B> for WeightInfo", "WeightInfo for WeightInfo<{ 3 }>", "!Send for WeightInfo", "WeightInfo for dyn X", "WeightInfo for <A as B>::WeightInfo"]);
            format!("impl<T> {} {{\n\t{}\n\t{}\n}}\n", t, f, if r.pm(300) { f } else { "" })
        }
        37 => {
            let c = *r.pick(&["pub struct ConstantX;", "parameter_types! { pub const BlockExecutionWeight: Weight = Weight::from_parts(1, 2); }", "parameter_types! {", "parameter_types! { pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1, write: 2 }; }", "pub mod x { pub mod y { } }", "fn main() {}", "#![a]", "#!/bin/sh", "\u{feff}impl A {}", "use a::b;"]);
            c.to_string()
        }
        _ => {
            if r.pm(600) {
                // Put other words into a good file.
                let s = gen_pallet(r, &GenParams { max_comps: 3, rich_ranges: true }).render();
                let mut words: Vec<String> = vec![];
                for ch in s.chars() {
                    let w = ch.is_alphanumeric() || ch == '_';
                    match words.last_mut() {
                        Some(l) if w && l.chars().all(|c| c.is_alphanumeric() || c == '_') => l.push(ch),
                        _ => words.push(ch.to_string()),
                    }
                }
                for _ in 0..r.range(1, 3) {
                    let (i, j) = (r.idx(words.len()), r.idx(words.len()));
                    match r.below(6) {
                        0 => words.swap(i, j),
                        1 => {
                            words.remove(i);
                        }
                        2 => {
                            let w = words[j].clone();
                            words.insert(i, w);
                        }
                        _ => {
                            let nums: Vec<usize> = (0..words.len()).filter(|k| words[*k].starts_with(|c: char| c.is_ascii_digit())).collect();
                            if !nums.is_empty() {
                                let k = *r.pick(&nums);
                                words[k] = r.pick(&["0", "4294967295", "4294967296", "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "1_u8", "0b1", "n"]).to_string();
                            }
                        }
                    }
                }
                return words.concat().into_bytes();
            }
            // Damage a good file.
            let mut b = gen_pallet(r, &GenParams { max_comps: 2, rich_ranges: false }).render().into_bytes();
            for _ in 0..r.range(1, 4) {
                let i = r.idx(b.len());
                match r.below(3) {
                    0 => {
                        b.remove(i);
                    }
                    1 => b[i] = r.range(32, 126) as u8,
                    _ => b.insert(i, *r.pick(b"(){};`[]\"'9_.-")),
                }
            }
            return b;
        }
    };
    s.into_bytes()
}

pub fn gen_trees(spec: &WorldSpec, ri: u32) -> Vec<Tree> {
    let mut r = Rng::new(hash2(spec.seed, 100 + ri as u64));
    let gp = GenParams { max_comps: spec.max_comps, rich_ranges: true };
    let mut out: Vec<Tree> = Vec::new();
    let mut tree = Tree::new();
    tree.insert("README.md".into(), File::Other(b"readme\n".to_vec()));
    tree.insert("runtime/kusama/src/weights/mod.rs".into(), File::Other(b"pub mod pallet_utility;\n".to_vec()));
    for p in gen_paths(&mut r) {
        let f = gen_pallet(&mut r, &gp);
        tree.insert(p, File::Weights(f));
    }
    for i in 0..spec.commits {
        if i > 0 {
            let n = r.range(1, 3);
            for _ in 0..n {
                let files: Vec<String> = tree.iter().filter(|f| matches!(f.1, File::Weights(_))).map(|f| f.0.clone()).collect();
                match r.below(6) {
                    0 => {
                        for p in gen_paths(&mut r).into_iter().take(2) {
                            if !tree.contains_key(&p) {
                                tree.insert(p, File::Weights(gen_pallet(&mut r, &gp)));
                            }
                        }
                    }
                    1 if files.len() > 2 => {
                        tree.remove(r.pick(&files));
                    }
                    _ if !files.is_empty() => {
                        let f = r.pick(&files).clone();
                        if f != "frame/stamp/src/weights.rs" {
                            if let Some(File::Weights(p)) = tree.get_mut(&f) {
                                mutate_pallet(&mut r, p, &gp);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        // Makes every commit of every repository tell-tale: its value identifies repository and commit.
        let stamp = Ext {
            name: "stamp".into(),
            t: 1_000_000 * (1 << (i % 12)) as u128 + 1000 * i as u128 + ri as u128,
            p: 7 * (1 << (i % 12)) as u128 + i as u128,
            comps: vec![],
            reads: 0,
            writes: 0,
        };
        tree.insert("frame/stamp/src/weights.rs".into(), File::Weights(Pallet { pad: 0, syntax: Syntax::V2, exts: vec![stamp] }));
        let mut t = tree.clone();
        if r.pm(spec.bad_pm) {
            let p = *r.pick(&["frame/broken/src/weights.rs", "runtime/kusama/src/weights/broken.rs", "frame/aaa/src/weights.rs"]);
            let mut b = r.pick(&BAD).as_bytes().to_vec();
            if r.pm(400) {
                // Characters of several bytes, at any offset.
                let c = *r.pick(&["ü", "–", "名", "🦀"]);
                let (a, n) = (r.idx(4), *r.pick(&[20, 60, 200, 700]));
                let s = format!("{}{}", &"abc"[..a], c.repeat(n));
                match r.below(3) {
                    0 => b = format!("impl WeightInfo {} {{", s).into_bytes(),
                    1 => b = format!("impl<T> pallet::WeightInfo for WeightInfo<T> {{ fn f() -> Weight {{ Weight::from_parts(\"{}\", 0) }} }}\n", s).into_bytes(),
                    _ => b = format!("// {}\n{}", s, String::from_utf8_lossy(&b)).into_bytes(),
                }
            }
            t.insert(p.into(), if r.pm(200) { File::Link(r.pick(&["nothere.rs", "../../nothere/src/weights.rs", "weights.rs", "broken.rs"]).to_string()) } else { File::Bad(b) });
        }
        if r.pm(spec.hostile_pm) {
            let p = *r.pick(&["frame/evil/src/weights.rs", "runtime/kusama/src/weights/evil.rs"]);
            t.insert(p.into(), File::Hostile(hostile(&mut r)));
        }
        if spec.links && r.pm(500) {
            let (p, target) = *r.pick(&[
                ("frame/link/src/weights.rs", "../../../../../secret/secret.rs"),
                ("frame/link2/src", "../../../../secret"),
                ("runtime/link/src/weights/x.rs", "/etc/passwd"),
                ("frame/zlink", "../../../secret"),
            ]);
            t.insert(p.into(), File::Link(target.into()));
            match r.below(6) {
                // Over a second link.
                0 | 1 => {
                    t.insert("frame/link/src/weights.rs".into(), File::Link("other.rs".into()));
                    t.insert("frame/link/src/other.rs".into(), File::Link("../../../../../secret/secret.rs".into()));
                }
                2 => {
                    t.insert("frame/link/src/weights.rs".into(), File::Link("../../stamp/src/../../link3/weights.rs".into()));
                    t.insert("frame/link3".into(), File::Link("../../../secret".into()));
                }
                _ => {}
            }
        }
        if r.pm(spec.bad_pm / 2) {
            // Another name for a file of the repository.
            let to = t.keys().filter(|k| k.starts_with("frame/") && k.ends_with("/src/weights.rs")).cloned().collect::<Vec<_>>();
            if !to.is_empty() {
                t.insert("frame/alias/src/weights.rs".into(), File::Link(format!("../../{}", r.pick(&to).strip_prefix("frame/").unwrap())));
            }
        }
        if spec.special == "large" {
            let files: Vec<String> = t.iter().filter(|f| matches!(f.1, File::Weights(_))).map(|f| f.0.clone()).collect();
            if let Some(File::Weights(p)) = t.get_mut(r.pick(&files)) {
                p.pad = *r.pick(&[70_000, 140_000, 300_000, 600_000, 1_200_000]);
            }
        }
        if spec.special == "many" && i >= spec.commits / 2 {
            // More files than the server is willing to compare.
            for n in 0..MAX_FILES + 50 {
                let ext = Ext { name: "call".into(), t: 1000 * (n + 1) as u128 + i as u128, p: 0, comps: vec![], reads: 0, writes: 0 };
                t.insert(format!("runtime/many/src/weights/p{:05}.rs", n), File::Weights(Pallet { pad: 0, syntax: Syntax::V2, exts: vec![ext] }));
            }
        }
        if spec.special == "rows" {
            // Many calls, some of which change, appear and disappear.
            let n = [150, 320, 700][(spec.seed % 3) as usize];
            let exts = (0..n)
                .filter(|k| (k + i as u64) % 11 != 0)
                .map(|k| Ext { name: format!("row_{:04}", k), t: 1_000_000 * (k + 1) as u128 + if (k + i as u64) % 3 == 0 { 70_000 * (i as u128 + 1) * (k + 1) as u128 } else { 0 }, p: k as u128 * 10, comps: vec![], reads: 0, writes: 0 })
                .collect();
            t.insert("frame/rows/src/weights.rs".into(), File::Weights(Pallet { pad: 0, syntax: Syntax::V2, exts }));
        }
        if spec.special == "nesting" && i == 0 {
            let body = format!("impl<T> pallet::WeightInfo for WeightInfo<T> {{ fn f() -> Weight {{ {}Weight::zero(){} }} }}\n", "(".repeat(3000), ")".repeat(3000));
            t.insert("frame/deep/src/weights.rs".into(), File::Hostile(body.into_bytes()));
        }
        out.push(t);
    }
    out
}

pub fn gen_refs(spec: &WorldSpec, ri: u32) -> Refs {
    let mut r = Rng::new(hash2(spec.seed, 200 + ri as u64));
    let n = spec.commits as usize;
    let early = |r: &mut Rng| r.idx((n * 2 / 3).max(1));
    let mut refs = Refs::default();
    refs.heads.insert("master".into(), early(&mut r));
    refs.heads.insert("dev".into(), early(&mut r));
    if r.pm(600) {
        refs.heads.insert("feature/weights-v2".into(), early(&mut r));
    }
    if let Some(sep) = spec.special.strip_prefix("joined") {
        for n in 1..=3 {
            refs.heads.insert(vec!["x"; n].join(sep), early(&mut r));
        }
    }
    if spec.special == "refs" {
        for k in 0..*r.pick(&[1010, 2100, 5200]) {
            refs.heads.insert(format!("user{}/{:04}", k % 7, k), early(&mut r));
        }
    }
    if r.pm(300) {
        refs.heads.insert("release-1.0".into(), early(&mut r));
    }
    refs.tags.insert("v1.0".into(), (early(&mut r), false));
    if r.pm(700) {
        refs.tags.insert("v2.0-rc1".into(), (early(&mut r), true));
    }
    refs
}

pub fn write_refs(bare: &Path, repo: &Repo, refs: &Refs) {
    let set = |p: PathBuf, v: &str| {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, format!("{}\n", v)).unwrap();
    };
    let _ = std::fs::remove_file(bare.join("packed-refs"));
    std::fs::remove_dir_all(bare.join("refs")).ok();
    std::fs::create_dir_all(bare.join("refs/heads")).unwrap();
    std::fs::create_dir_all(bare.join("refs/tags")).unwrap();
    if refs.heads.len() > 100 {
        let mut s = String::new();
        for (n, c) in &refs.heads {
            s.push_str(&format!("{} refs/heads/{}\n", repo.commits[*c].hash, n));
        }
        for (n, (c, ann)) in &refs.tags {
            let c = &repo.commits[*c];
            s.push_str(&format!("{} refs/tags/{}\n", if *ann { &c.tag } else { &c.hash }, n));
        }
        std::fs::write(bare.join("packed-refs"), s).unwrap();
        return;
    }
    for (n, c) in &refs.heads {
        set(bare.join("refs/heads").join(n), &repo.commits[*c].hash);
    }
    for (n, (c, ann)) in &refs.tags {
        let c = &repo.commits[*c];
        set(bare.join("refs/tags").join(n), if *ann { &c.tag } else { &c.hash });
    }
}

/// Builds the template of a world below `dir` (which must not exist).
pub fn build(spec: &WorldSpec, dir: &Path) -> World {
    std::fs::create_dir_all(dir.join("root")).unwrap();
    write_gitconfig(dir);
    let mut repos = Vec::new();
    for ri in 0..spec.repos {
        let (name, org) = REPO_NAMES[ri as usize];
        let trees = gen_trees(spec, ri);
        let bare = dir.join("remote").join(org).join(format!("{}.git", name));
        std::fs::create_dir_all(&bare).unwrap();
        git(dir, &bare, &["init", "-q", "--bare", "--template=", "."]);
        let mut s: Vec<u8> = Vec::new();
        for (i, t) in trees.iter().enumerate() {
            let date = 1_600_000_000 + 1000 * i;
            write!(s, "commit refs/heads/c{}\nmark :{}\nauthor A <a@b> {} +0000\ncommitter A <a@b> {} +0000\ndata 2\nc\n\n", i, i + 1, date, date).unwrap();
            if i > 0 {
                write!(s, "from :{}\n", i).unwrap();
            }
            s.extend_from_slice(b"deleteall\n");
            for (p, f) in t {
                let b = f.bytes();
                let mode = if matches!(f, File::Link(_)) { "120000" } else { "100644" };
                write!(s, "M {} inline {}\ndata {}\n", mode, p, b.len()).unwrap();
                s.extend_from_slice(&b);
                s.push(b'\n');
            }
            s.push(b'\n');
        }
        for i in 0..trees.len() {
            write!(s, "tag t{}\nfrom :{}\ntagger A <a@b> 1600000000 +0000\ndata 2\nt\n\n", i, i + 1).unwrap();
        }
        let mut c = Command::new("git");
        git_env(&mut c, dir);
        let mut ch = c
            .args(["fast-import", "--quiet", "--export-marks=marks"])
            .current_dir(&bare)
            .stdin(Stdio::piped())
            .stdout(Stdio::null())
            .spawn()
            .expect("git fast-import");
        ch.stdin.take().unwrap().write_all(&s).unwrap();
        assert!(ch.wait().unwrap().success(), "fast-import failed");
        let marks = std::fs::read_to_string(bare.join("marks")).unwrap();
        std::fs::remove_file(bare.join("marks")).unwrap();
        let mut hashes = vec![String::new(); trees.len()];
        for l in marks.lines() {
            let (m, h) = l.split_once(' ').unwrap();
            let k: usize = m[1..].parse().unwrap();
            hashes[k - 1] = h.into();
        }
        let mut tags = vec![String::new(); trees.len()];
        for l in git(dir, &bare, &["for-each-ref", "--format=%(refname) %(objectname)", "refs/tags"]).lines() {
            let (n, h) = l.split_once(' ').unwrap();
            let k: usize = n.strip_prefix("refs/tags/t").unwrap().parse().unwrap();
            tags[k] = h.into();
        }
        let commits: Vec<CommitInfo> =
            trees.into_iter().zip(hashes).zip(tags).map(|((tree, hash), tag)| CommitInfo { tree, hash, tag }).collect();
        let repo = Repo { name: name.into(), org: org.into(), commits, init: gen_refs(spec, ri) };
        write_refs(&bare, &repo, &repo.init);
        let cfg = std::fs::read_to_string(bare.join("config")).unwrap();
        std::fs::write(bare.join("config"), cfg + "[uploadpack]\n\tallowAnySHA1InWant = true\n").unwrap();
        std::fs::write(bare.join("HEAD"), "ref: refs/heads/master\n").unwrap();
        let root = dir.join("root");
        git(dir, &root, &["clone", "-q", "--template=", &format!("file://{}", bare.display()), name]);
        let cfgp = root.join(name).join(".git/config");
        let cfg = std::fs::read_to_string(&cfgp).unwrap();
        let url = format!("https://github.com/{}/{}{}", org, name, if ri % 2 == 0 { ".git" } else { "" });
        std::fs::write(&cfgp, cfg.replace(&format!("file://{}", bare.display()), &url)).unwrap();
        repos.push(repo);
    }
    World { repos, dir: dir.to_path_buf() }
}

/// Copies a directory tree (files, directories, links).
pub fn copy_tree(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = e.file_type()?;
        let dst = to.join(e.file_name());
        if t.is_dir() {
            copy_tree(&e.path(), &dst)?;
        } else if t.is_symlink() {
            std::os::unix::fs::symlink(std::fs::read_link(e.path())?, dst)?;
        } else {
            let n = e.file_name();
            if n.to_string_lossy().ends_with(".pack") || n.to_string_lossy().ends_with(".idx") {
                if std::fs::hard_link(e.path(), &dst).is_ok() {
                    continue;
                }
            }
            std::fs::copy(e.path(), dst)?;
        }
    }
    Ok(())
}
