// check <property> <tier> | one <property> <run> | replay <file>
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { spawn, execFileSync } from "node:child_process";
import { fileURLToPath } from "node:url";
import { Sim } from "./sim.mjs";
import { plan as makePlan } from "./gen.mjs";
import { mix } from "./rng.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const root = process.env.SWCSIM_ROOT || path.dirname(here);
const statics = process.env.SWCSIM_STATIC || "/repo/web/static";
const FLAGS = ["--experimental-vm-modules", "--no-warnings"];
const CLASSES = {
	C19: ["not-requested", "other-branches", "other-display", "bad-comparison", "unasked-comparison", "other-comparison", "not-compared", "livelock"],
	C20: ["stuck-overlay"],
	C22: ["other-display", "bad-comparison", "unasked-comparison", "other-comparison", "not-compared", "compared-twice", "stuck-overlay", "livelock"],
	C21: ["bad-comparison", "other-comparison", "fork-compared", "compared-twice", "not-fetched", "not-compared", "not-requested", "other-rows", "not-redirected", "livelock"],
};

function pages() {
	const f = path.join(fs.mkdtempSync(path.join(os.tmpdir(), "swcpages-")), "pages.json");
	execFileSync(path.join(root, "sim/target/release/swcsim"), ["pages", f], { stdio: ["ignore", "ignore", "inherit"] });
	const s = JSON.parse(fs.readFileSync(f));
	fs.rmSync(path.dirname(f), { recursive: true });
	return s;
}
const planOf = (property, seed, run, sets) => makePlan(property, mix(mix(seed, 0x5157), run), sets);
async function execute(plan, sets) {
	const r = await new Sim(plan, sets, statics).run();
	r.mine = r.found.filter((v) => CLASSES[plan.property].includes(v.class));
	r.other = r.found.filter((v) => !CLASSES[plan.property].includes(v.class));
	return r;
}
const add = (to, from) => { for (const k in from) if (typeof from[k] === "object") add((to[k] ||= {}), from[k]); else to[k] = (to[k] || 0) + from[k]; };

// Workers talk to the check through files in its scratch directory.
async function worker(dir, k) {
	const { property, seed, n, runs, until, sets, tier } = JSON.parse(fs.readFileSync(path.join(dir, "job.json")));
	const t = { runs: 0, sim_ms: 0, stats: {}, logs: {}, shapes: {}, other: {}, reruns: 0, mismatches: 0, samples: [], nontrivial: 0, errors: [] };
	let found = 0;
	for (let run = k; run < runs && Date.now() < until; run += n) {
		if (fs.existsSync(path.join(dir, "stop"))) break;
		const plan = planOf(property, seed, run, sets);
		let r;
		try { r = await execute(plan, sets); } catch (e) { t.errors.push(String(e && e.stack)); continue; }
		t.runs++;
		t.sim_ms += r.sim_ms;
		add(t.stats, r.stats);
		for (const v of r.other) t.other[v.class] = (t.other[v.class] || 0) + 1;
		if (r.stats.actions >= 2 && (r.stats.requests >= 1 || (plan.page === "compare" && r.stats.navigations >= 1)) && !t.logs[r.digest]) t.nontrivial++;
		t.logs[r.digest] = 1;
		t.shapes[r.shape] = 1;
		if (run % 40 === 0) { t.reruns++; if ((await execute(plan, sets)).digest !== r.digest) t.mismatches++; }
		if (run < 3) t.samples.push({ run, page: plan.page, start: plan.query, repositories: (plan.page === "compare" ? sets.compares : sets.sets)[plan.set].repos.map((x) => x.name || x), actions: plan.actions.map((a) => `${a.t} ms: ${a.kind}${a.arg ? " " + a.arg : ""}${a.n === undefined ? "" : " " + a.n}`), faults: r.stats.faults, simulated_ms: r.sim_ms, events: r.trace.slice(0, 12) });
		if (r.mine.length) {
			fs.writeFileSync(path.join(dir, `found-${run}.json`), JSON.stringify({ run, plan, v: r.mine[0] }));
			if (tier !== "thorough" || ++found >= 2) fs.writeFileSync(path.join(dir, "stop"), "");
		}
	}
	fs.writeFileSync(path.join(dir, `done-${k}.json`), JSON.stringify(t));
}

async function minimise(plan, cls, sets) {
	const start = Date.now();
	let tries = 0;
	const fails = async (p) => {
		if (Date.now() - start > 60000 || ++tries > 1500) return null;
		const r = await execute(p, sets);
		const v = r.mine.find((x) => x.class === cls);
		return v ? { r, v } : null;
	};
	let best = await fails(plan);
	if (!best) return null;
	let cur = plan;
	const attempt = async (p) => { const b = await fails(p); if (b) { cur = p; best = b; } return !!b; };
	const ddmin = async (list, put) => {
		let v = list, n = 2;
		if (!v.length || (await attempt(put([])))) return;
		while (v.length > 1) {
			const size = Math.ceil(v.length / n);
			let reduced = false;
			for (let i = 0; i < v.length; i += size) {
				const c = v.slice(0, i).concat(v.slice(i + size));
				if (await attempt(put(c))) { v = c; n = Math.max(n - 1, 2); reduced = true; break; }
			}
			if (!reduced) { if (size === 1) break; n = Math.min(n * 2, v.length); }
		}
	};
	for (let round = 0; round < 2; round++) {
		await ddmin(cur.actions, (x) => ({ ...cur, actions: x }));
		await ddmin(cur.pushes, (x) => ({ ...cur, pushes: x }));
		if (Object.keys(cur.storage).length) await attempt({ ...cur, storage: {} });
		for (const key of ["net", "gh"]) {
			await attempt({ ...cur, [key]: [] });
			for (let i = cur[key].length - 1; i >= 0; i--) {
				if (i === cur[key].length - 1 && (await attempt({ ...cur, [key]: cur[key].slice(0, i) }))) continue;
				for (const s of [{ up: 20, down: 20, outcome: "ok" }, { outcome: "ok" }, { up: 20 }, { down: 20 }]) {
					const x = cur[key].slice();
					if (JSON.stringify({ ...x[i], ...s }) === JSON.stringify(x[i])) continue;
					x[i] = { ...x[i], ...s };
					if (await attempt({ ...cur, [key]: x })) break;
				}
			}
		}
		await attempt({ ...cur, nav: [] });
		for (let i = 0; i < cur.mrs.length; i++) await ddmin(cur.mrs[i].list, (x) => ({ ...cur, mrs: cur.mrs.map((m, k) => (k === i ? { ...m, list: x } : m)) }));
		for (const repo of Object.keys(cur.remote)) await ddmin(cur.remote[repo], (x) => ({ ...cur, remote: { ...cur.remote, [repo]: x } }));
	}
	return { plan: cur, ...best };
}

async function check(property, tier) {
	const seed = Number.parseInt(process.env.VERIF_SEED || "1", 10) || 0;
	const runs = Number(process.env.SWCSIM_RUNS || (tier === "thorough" ? 400000 : 3500));
	const start = Date.now();
	const until = start + (tier === "thorough" ? 780 : 150) * 1000;
	const sets = pages();
	console.log(`property ${property} tier ${tier} VERIF_SEED ${seed}`);
	const n = Math.max(1, Math.min(os.cpus().length, 8));
	const t = { runs: 0, sim_ms: 0, stats: {}, logs: {}, shapes: {}, other: {}, reruns: 0, mismatches: 0, samples: [], nontrivial: 0, errors: [] };
	const found = [];
	let lost = 0;
	const dir = fs.mkdtempSync(path.join(os.tmpdir(), "swcpages-"));
	process.on("exit", () => fs.rmSync(dir, { recursive: true, force: true }));
	fs.writeFileSync(path.join(dir, "job.json"), JSON.stringify({ property, seed, n, runs, until, sets, tier }));
	await Promise.all(Array.from({ length: n }, (_, k) => new Promise((done) => {
		const c = spawn(process.execPath, [...FLAGS, path.join(here, "check.mjs"), "worker", dir, String(k)], { stdio: ["ignore", "ignore", "inherit"] });
		c.on("error", () => done());
		c.on("exit", () => done());
	})));
	for (let k = 0; k < n; k++) {
		const f = path.join(dir, `done-${k}.json`);
		if (!fs.existsSync(f)) { lost++; continue; }
		const d = JSON.parse(fs.readFileSync(f));
		for (const k of ["runs", "sim_ms", "reruns", "mismatches"]) t[k] += d[k];
		add(t.stats, d.stats);
		add(t.other, d.other);
		Object.assign(t.shapes, d.shapes);
		t.nontrivial += d.nontrivial;
		for (const l in d.logs) if (t.logs[l]) t.nontrivial--; else t.logs[l] = 1;
		t.samples.push(...d.samples);
		t.errors.push(...d.errors);
	}
	for (const f of fs.readdirSync(dir)) if (f.startsWith("found-")) found.push(JSON.parse(fs.readFileSync(path.join(dir, f))));
	t.nontrivial = Math.max(0, t.nontrivial);
	found.sort((a, b) => a.run - b.run);
	const search = (Date.now() - start) / 1000;
	let violations = 0, unreproducible = 0;
	for (const f of found.slice(0, 3)) {
		const m = await minimise(f.plan, f.v.class, sets);
		if (!m) { unreproducible++; console.log(`not reproducible, ignored: run ${f.run} ${f.v.class} ${f.v.text}`); continue; }
		violations++;
		const dir = path.join(root, "out", property);
		fs.mkdirSync(dir, { recursive: true });
		const file = path.join(dir, `replay-${seed}-${f.run}.json`);
		fs.writeFileSync(file, JSON.stringify({ property, class: m.v.class, what: m.v.text, verif_seed: seed, run: f.run, digest: m.r.digest, plan: m.plan, trace: m.r.trace }, null, 1));
		console.log(`${m.v.class}: ${m.v.text}`.slice(0, 1500));
		console.log(`VIOLATION property=${property} replay=${file}`);
		if (violations && tier !== "thorough") break;
	}
	const wall = (Date.now() - start) / 1000;
	const s = t.stats;
	fs.mkdirSync(path.join(root, "evidence"), { recursive: true });
	fs.writeFileSync(path.join(root, "evidence", property + ".json"), JSON.stringify({
		property, tier, seed, level: "exploration",
		coverage: {
			evaluations: t.runs, distinct_nontrivial: t.nontrivial,
			rule: "one evaluation = one simulated browser session, made from a seed that decides the exposed repositories, user actions and their times, the history of the remotes, and for every request when the server looks at it, when its answer arrives and how it fails; non-trivial = at least two user actions and one request (on the comparison page: one navigation) took place; distinct = the complete event log differs from every other run",
			samples: t.samples,
			runs_per_hour: Math.round((t.runs / search) * 3600), seeds_per_hour: Math.round((t.runs / search) * 3600), runs_planned: runs,
			simulated_s: t.sim_ms / 1000, simulated_s_per_wall_s: t.sim_ms / 1000 / search,
			events: s.events, user_actions: s.actions, requests: s.requests, requests_sent_while_another_was_outstanding: s.overlapping, navigations: s.navigations, page_loads: s.visits, restored_pages: s.restored, judged_moments_of_rest: s.quiet_checks, exceptions_in_page_scripts: s.exceptions,
			faults_fired: s.faults || {}, distinct_interleavings: Object.keys(t.shapes).length, interleaving_measure: "order of user actions, requests, answers with their outcome, and navigations, without times",
			determinism_reruns: t.reruns, determinism_mismatches: t.mismatches, observations_belonging_to_other_properties: t.other, harness_errors: t.errors.length + lost, not_reproducible: unreproducible, known_findings: [],
			real_components: "the pages as the unmodified server renders them, the unmodified scripts in web/static with their imports, jQuery 3.6.1",
			stubbed_components: "the browser (document model, events, storage, navigation, timers and clock), select2, DataTables and bootstrap, the network, the server's branch route and GitHub's API, the user",
		},
		assumptions: ["the branch route behaves as properties C09 and C05 say: a list or an error, or no answer for ten minutes", "the user can act while the overlay is shown (keyboard)", "a page is only restored from the browser's cache when it had no outstanding request"],
		wall_s: wall, violations,
	}, null, 1) + "\n");
	console.log(`${t.runs} runs in ${wall.toFixed(1)} s, ${Math.round(t.sim_ms / 1000)} simulated s, ${Object.keys(t.shapes).length} interleavings, faults ${JSON.stringify(s.faults)}, other ${JSON.stringify(t.other)}, ${t.mismatches} mismatches of ${t.reruns} reruns`);
	for (const e of t.errors.slice(0, 5)) console.log("harness error: " + e);
	if (violations) return 1;
	if (t.runs === 0 || lost || t.errors.length * 20 > t.runs) { console.log("too many harness errors"); return 2; }
	return 0;
}

const [, , cmd, a, b] = process.argv;
if (cmd === "worker") await worker(a, Number(b));
else if (cmd === "check") process.exitCode = await check(a, b || process.env.VERIF_TIER || "quick");
else if (cmd === "one") {
	const sets = pages();
	const p = planOf(a, Number(process.env.VERIF_SEED || 1), Number(b), sets);
	const r = await execute(p, sets);
	if (process.env.PLAN) console.log(JSON.stringify(p, null, 1));
	console.log(r.trace.join("\n"), r.stats, r.found);
} else if (cmd === "replay") {
	const f = JSON.parse(fs.readFileSync(a));
	const r = await execute(f.plan, pages());
	console.log(`recorded run reproduced exactly: ${r.digest === f.digest}`);
	const v = r.mine.find((x) => x.class === f.class);
	if (v) { console.log(`${v.class}: ${v.text}`); console.log(`VIOLATION property=${f.property} replay=${a}`); process.exitCode = 1; } else console.log(`no violation of ${f.property} (${f.class})`);
}
