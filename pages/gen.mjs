// Makes the plan of a run from its seed. A plan is plain data and decides everything that happens in a run.
import { Rng, mix } from "./rng.mjs";

const NAMES = ["master", "main", "dev", "release/1.0", "release-v0.9.40", "feature/ü-weights", "fix#12", "a&b=c", "50%", "x+y", "weights", "user/bench;1", "v1.0.0", "v1.0.1", "?q", "%41", "oty-weights", "gh-readonly-queue/master/pr-1", "a=b", "ver\"1", "it's", "less<b>more", "&amp;x"];
const DELAYS = [0, 1, 5, 20, 20, 100, 300, 700, 2000, 9000, 70000];
const GAPS = [0, 0, 1, 10, 80, 400, 700, 1500, 5000, 30000];

function hash(r) { return (r.next().toString(16) + "0000000").slice(0, 7); }

function branches(r) {
	const n = r.pick([0, 1, 2, 4, 8, 14]);
	const v = r.shuffle(NAMES.slice()).slice(0, n).map((x) => [x, hash(r)]);
	if (r.pm(700) && !v.some((x) => x[0] === "master")) v.push(["master", hash(r)]);
	if (v.length && r.pm(100)) v.push([r.pick(v)[0], hash(r)]); // a branch and a tag of the same name
	return v;
}
function outcome(r, bad) {
	if (!r.pm(bad)) return "ok";
	return r.pick(["network", "network", "500", "500", "502", "404", "truncated", "html", "empty", "late", "abort"]);
}
function net(r, n, bad) {
	return Array.from({ length: n }, () => ({ up: r.pick(DELAYS), down: r.pick(DELAYS), outcome: outcome(r, bad) }));
}
function nav(r) {
	return Array.from({ length: 8 }, () => ({ delay: r.pick([1, 50, 400, 3000]), result: r.pick(["commit", "commit", "commit", "stay"]), back: r.pick([500, 5000, 40000]), cached: r.pm(600), goBack: r.pm(700) }));
}

const CONTROLS = ["unit", "method", "repo", "threshold", "path_pattern", "old", "new", "pallet", "extrinsic", "ignore_errors", "git_pull"];
const FILTERS = [".*", "frame", "^a&b=c$", "x+y|#1", "100%", "ü", "\\s \\S", "%41", "a;b", "\"q\"", "?x=1", "frame", ".*", ""];
function compare(p, r, pages) {
	p.set = r.below(pages.compares.length);
	const c = pages.compares[p.set];
	const x = r.pick(r.pm(600) ? c.pages.slice(0, 32) : c.pages);
	const ids = [...x.body.matchAll(/<tr id="([^"]*)"/g)].map((m) => m[1]);
	p.query = x.target + (r.pm(600) ? "" : "#" + r.pick([ids.length ? r.pick(ids) : "x", "weights.rs.gone", "", "a b", "%zz", "a/b(c", "sort_me"]));
	// Addresses come from links and from users, who write them in several ways.
	if (r.pm(200)) p.query = p.query.replace(/%2[AF]/g, (m) => decodeURIComponent(m));
	if (r.pm(150)) p.query = p.query.replace("?", "?utm=x%20y&");
	p.nav = Array.from({ length: 16 }, () => ({ delay: r.pick([1, 50, 400, 3000, 90000]), result: r.pm(200) ? "stay" : "commit", back: r.pick([500, 5000, 40000]), cached: r.pm(600), goBack: r.pm(400) }));
	let t = r.pick([50, 50, 900]);
	const n = r.range(1, 12);
	for (let i = 0; i < n; i++) {
		if (r.pm(60)) p.actions.push({ t, kind: "reload" });
		else {
			const arg = r.pm(500) ? r.pick(["unit", "method", "threshold", "git_pull", "pallet"]) : r.pick(CONTROLS);
			const value = arg === "threshold" ? r.pick(["0", "10", "10", "0", "5", "100", "-1", "2.5", ""]) : arg === "path_pattern" ? r.pick(["**/*.rs", "frame/*/src/weights.rs", "a&b/#1/**/x+y.rs,**/weights.rs", "frame/[ab]?.rs", ""]) : arg === "old" || arg === "new" ? r.pick([...c.names, r.pick(NAMES), " spaced ", ""]) : r.pick(FILTERS);
			p.actions.push({ t, kind: "set", arg, n: r.below(97), value });
		}
		t += r.pick(GAPS);
	}
	return p;
}

export function plan(property, seed, pages) {
	const r = new Rng(seed);
	const sets = pages.sets;
	const page = property === "C19" ? "root" : property === "C21" ? "mr" : r.pm(500) ? "root" : "mr";
	const set = r.below(sets.length);
	const repos = sets[set].repos;
	const p = { property, seed, page, set, storage: {}, actions: [], remote: {}, pushes: [], net: [], gh: [], nav: nav(r), mrs: [], query: "", random: mix(seed, 77), wall: 1700000000000 + r.below(1e9) };
	if (property === "C22") return compare({ ...p, page: "compare" }, r, pages);
	const bad = r.pick([0, 80, 250, 600]);
	p.net = net(r, 24, bad);
	for (const x of repos) p.remote[x.name] = branches(r);
	if (r.pm(300)) p.storage["selected-repo"] = r.pick(repos).name;
	if (r.pm(300)) { p.storage["selected-first"] = r.pick(NAMES); p.storage["selected-second"] = r.pick(NAMES); }
	let t = r.pick([50, 50, 900]);
	if (page === "root") {
		const n = r.range(2, 14);
		for (let i = 0; i < n; i++) {
			const k = r.below(100);
			if (k < 38 || i === 0) p.actions.push({ t, kind: "repo", n: r.below(repos.length) });
			else if (k < 58) p.actions.push({ t, kind: "fetch", n: r.below(2) });
			else if (k < 70) p.actions.push({ t, kind: "choose", side: r.pick(["first", "second"]), n: r.below(97) });
			else if (k < 82) p.actions.push({ t, kind: "compare" });
			else if (k < 88) p.actions.push({ t, kind: "next", n: r.below(7) });
			else if (k < 91) p.actions.push({ t, kind: "reload" });
			else if (k < 94) p.actions.push({ t, kind: "tab", set: { "selected-first": r.pick(NAMES), "selected-second": r.pick(NAMES), ...(r.pm(500) ? { "selected-repo": r.pick(repos).name } : {}) } });
			else if (k < 97) { p.actions.push({ t, kind: "choose", side: "first", n: r.below(97) }, { t: t + 1, kind: "choose", side: "second", n: r.below(97) }, { t: t + 2, kind: "compare" }); }
			else p.actions.push({ t, kind: "wait" });
			t += r.pick(GAPS);
		}
	} else {
		const bad2 = r.pick([0, 0, 200, 500]);
		p.gh = net(r, 8, bad2);
		const own = repos.find((x) => x.name === "polkadot-sdk") || repos[0];
		if (r.pm(500)) { const x = r.pm(600) ? own : r.pick(repos); p.query = r.pick([`?owner=${x.org}&repo=${x.name}`, `?repo=${x.name}&owner=${x.org}`, `?repo=${x.name}`, "?owner=&repo=", `?owner=${x.org}&repo=${encodeURIComponent(x.name)}&x=%E0%A4%A`, `?owner=%E0%A4%A&repo=${x.name}`, `?repo=${x.name.replace("-", "%2D")}`]); }
		for (const x of repos) {
			const n = r.pm(60) ? r.pick([31, 60, 100]) : r.pick([0, 1, 3, 6, 10]);
			const names = r.shuffle(NAMES.filter((y) => y !== "master"));
			for (let i = names.length; i < n; i++) names.push(`topic/${i}`);
			const list = [];
			const pair = r.pm(300) ? r.range(1, 9) : 0;
			for (let i = 0; i < n; i++) {
				// Two merge requests of the same branch, into different ones.
				const twin = i > 0 && i === pair;
				const kind = r.below(10);
				const title = r.pick(["Update weights", "Fix bug", "Fix <b>bug</b> & more", "Same title", "Bench: XCM", "Ünïcode", "w".repeat(120)]);
				list.push({
					title, user: kind === 9 ? null : { login: r.pick(["alice", "bob", "ghost"]) }, updated_at: new Date(1699000000000 + r.below(9e8)).toISOString(), html_url: "https://github.com/x/y/pull/" + i,
					head: { ref: twin ? list[i - 1].head.ref : names[i], repo: kind === 8 ? null : { owner: { login: kind >= 6 && kind < 8 ? "forker" : x.org } } }, base: { ref: r.pick(["master", "master", "dev", "release/1.0", "fix#12", "a&b=c"].filter((y) => !twin || y !== list[i - 1].base.ref)) },
				});
			}
			p.mrs.push({ owner: x.org, repo: x.name, list });
		}
		const n = r.range(1, 8);
		for (let i = 0; i < n; i++) {
			t += r.pick(GAPS);
			const k = r.below(100);
			if (k < 78) p.actions.push({ t, kind: "open", n: r.below(97), cell: r.pm(500) });
			else if (k < 88) p.actions.push({ t, kind: "mrrepo", n: r.below(repos.length) });
			else if (k < 93) p.actions.push({ t, kind: "reload" });
			else p.actions.push({ t, kind: "wait" });
		}
	}
	const pushes = r.below(5);
	for (let i = 0; i < pushes; i++) {
		const x = r.pick(repos).name;
		p.pushes.push({ t: r.below(t + 500), repo: x, op: r.pick(["add", "move", "delete"]), name: r.pick(NAMES), hash: hash(r) });
	}
	p.pushes.sort((a, b) => a.t - b.t);
	return p;
}
