// Executes a plan: the real page and its real scripts under a simulated browser, user, clock and network.
import vm from "node:vm";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { digest } from "./rng.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const read = (f) => fs.readFileSync(path.join(here, f), "utf8");
const SCRIPTS = { dom: new vm.Script(read("dom.js"), { filename: "dom.js" }), jquery: new vm.Script(read("jquery.js"), { filename: "jquery.js" }), plugins: new vm.Script(read("plugins.js"), { filename: "plugins.js" }) };
const ORIGIN = "http://swc.local";
const drain = () => new Promise((r) => setImmediate(r));
const CDN = /^https?:\/\/(?!swc\.local)/;
// What the set-up page compares by default, should the scripts not export it any more.
const PRESET = "substrate/frame/**/src/weights.rs,polkadot/runtime/*/src/weights/**/*.rs,polkadot/bridges/modules/*/src/weights.rs,cumulus/**/weights/*.rs,cumulus/**/weights/xcm/*.rs,cumulus/**/src/weights.rs";

export class Sim {
	constructor(plan, pages, statics) {
		this.p = plan;
		this.set = (plan.page === "compare" ? pages.compares : pages.sets)[plan.set];
		this.statics = statics;
		this.now = 0;
		this.seq = 0;
		this.queue = [];
		this.trace = [];
		this.found = [];
		this.reqs = [];
		this.navs = 0;
		this.nnet = 0;
		this.ngh = 0;
		this.local = { ...plan.storage };
		this.session = {};
		this.stats = { events: 0, requests: 0, faults: {}, navigations: 0, visits: 0, actions: 0, overlapping: 0, quiet_checks: 0, exceptions: 0, restored: 0 };
		this.remote = structuredClone(plan.remote);
		this.visit = null;
		this.pending = null;
		this.shape = [];
	}
	log(...a) { const s = `${this.now} ${a.join(" ")}`; this.trace.push(s.length > 400 ? s.slice(0, 400) : s); }
	bad(cls, text) { if (!this.found.some((v) => v.class === cls)) this.found.push({ class: cls, text: `at ${this.now} ms: ${text}` }); this.log("VIOLATION", cls, text); }
	at(t, kind, data) { const e = { t: Math.max(t, this.now), seq: this.seq++, kind, ...data }; this.queue.push(e); return e; }
	pop() {
		let b = 0;
		for (let i = 1; i < this.queue.length; i++) { const x = this.queue[i], y = this.queue[b]; if (x.t < y.t || (x.t === y.t && x.seq < y.seq)) b = i; }
		return this.queue.splice(b, 1)[0];
	}
	// -------------------------------------------------------- browser
	host(v) {
		const sim = this;
		return {
			now: () => sim.now, wall: () => sim.p.wall + sim.now, seed: sim.p.random, local: sim.local, session: sim.session,
			url: () => v.url, setUrl: (u) => { v.url = u; }, resolve: (u) => { try { return new URL(u, v.url).href; } catch (_) { return String(u); } },
			guard: (f) => { try { return f(); } catch (e) { sim.exception(v, e); } },
			console: (k, a) => { if (k === "error") sim.log("console.error", a.map(String).join(" ")); },
			log: (k, m) => sim.log(k, m),
			setTimer: (f, ms, repeat) => { const d = Math.min(Math.max(Number(ms) || 0, 0), 1e8); const id = ++v.timerId; v.timers.set(id, sim.at(sim.now + d, "timer", { v, f, id, repeat: repeat ? Math.max(d, 1) : 0 })); return id; },
			clearTimer: (id) => { const e = v.timers.get(id); if (e) { e.dead = true; v.timers.delete(id); } },
			request: (m, u, cb) => sim.request(v, m, u, cb),
			cancel: (id) => { const q = v.out.get(id); if (!q) return false; v.out.delete(id); q.ended = "aborted"; sim.log("request", id, "aborted by the page"); return true; },
			navigate: (u) => sim.navigate(v, u),
		};
	}
	exception(v, e) { this.stats.exceptions++; v.exceptions.push(String(e && e.message)); this.log("exception", String((e && e.stack) || e).split("\n").slice(0, 2).join(" ").replace(/file:\/\/\S*\//g, "")); }
	async open(url) {
		this.stats.visits++;
		const v = { url, out: new Map(), timers: new Map(), timerId: 0, exceptions: [], success: {}, due: [], clicks: [], opens: [], alive: true, gh: [], page: { "/": "root", "/compare": "compare" }[new URL(url).pathname] || "mr", sets: [], n: this.stats.visits };
		this.visit = v;
		this.log("open", url);
		const ctx = vm.createContext({}, { codeGeneration: { strings: true, wasm: false } });
		v.ctx = ctx;
		ctx.__host = this.host(v);
		for (const k of ["URL", "URLSearchParams", "TextEncoder", "TextDecoder", "structuredClone", "queueMicrotask", "atob", "btoa"]) ctx[k] = globalThis[k];
		SCRIPTS.dom.runInContext(ctx);
		v.page_ = ctx.__page;
		ctx.__page.build(v.page === "compare" ? this.rendered(new URL(url)).body : v.page === "root" ? this.set.root : this.set.mr);
		v.doc = ctx.document;
		const list = v.doc.getElementsByTagName("script");
		const modules = [];
		const safe = (f) => { try { f(); } catch (e) { this.exception(v, e); } };
		let plugins = false;
		for (const s of list) {
			const src = s.getAttribute("src");
			if ((s.getAttribute("type") || "").toLowerCase() === "module") { modules.push(s); continue; }
			if (src && CDN.test(src)) {
				if (/\/jquery(\.min)?\.js|jq-3/.test(src) && !ctx.jQuery) safe(() => SCRIPTS.jquery.runInContext(ctx));
				continue;
			}
			if (!plugins && ctx.jQuery) { safe(() => SCRIPTS.plugins.runInContext(ctx)); plugins = true; }
			safe(() => vm.runInContext(src ? this.file(new URL(src, url).href) : s.textContent, ctx, { filename: src || "inline" }));
		}
		if (!plugins && ctx.jQuery) safe(() => SCRIPTS.plugins.runInContext(ctx));
		await drain();
		const cache = new Map();
		const get = (u) => {
			if (!cache.has(u)) cache.set(u, new vm.SourceTextModule(this.file(u), { context: ctx, identifier: u, initializeImportMeta: (m) => { m.url = u; }, importModuleDynamically: async (s) => { const m = get(new URL(s, u).href); await m.link(link); await m.evaluate(); return m; } }));
			return cache.get(u);
		};
		const link = (spec, ref) => get(new URL(spec, ref.identifier).href);
		for (const s of modules) {
			const src = s.getAttribute("src");
			if (src && CDN.test(src)) continue;
			try {
				let m;
				if (src) m = get(new URL(src, url).href);
				else m = new vm.SourceTextModule(s.textContent, { context: ctx, identifier: url });
				if (m.status === "unlinked") await m.link(link);
				if (m.status !== "evaluated") await m.evaluate();
			} catch (e) { this.exception(v, e); }
			await drain();
		}
		const common = cache.get(new URL("/static/common.js", url).href);
		try { v.presets = common && common.status === "evaluated" ? common.namespace.path_pattern_presets : null; } catch (_) { v.presets = null; }
		v.page_.ready("interactive");
		safe(() => v.page_.event(v.doc, "DOMContentLoaded", {}));
		await drain();
		v.page_.ready("complete");
		safe(() => v.page_.windowEvent("load", {}));
		safe(() => v.page_.windowEvent("pageshow", { persisted: false }));
		await drain();
	}
	file(u) {
		const p = new URL(u).pathname;
		if (!p.startsWith("/static/") || p.includes("..")) throw new Error("404 " + p);
		return fs.readFileSync(path.join(this.statics, p.slice("/static/".length)), "utf8");
	}
	// The arguments of a comparison as the server takes them.
	args(u) {
		const g = (k, d) => (u.searchParams.has(k) ? u.searchParams.get(k) : d);
		const unit = g("unit", null);
		return { old: g("old", null), new: g("new", null), repo: g("repo", null), path_pattern: g("path_pattern", null), pallet: g("pallet", ".*"), extrinsic: g("extrinsic", ".*"), ignore_errors: g("ignore_errors", null), threshold: g("threshold", null), unit: unit === "weight" ? "time" : unit, git_pull: g("git_pull", "true"), method: g("method", null) };
	}
	// What the real server answered to this comparison.
	rendered(u) {
		const key = (x) => JSON.stringify(this.args(x));
		this.set.index ||= new Map(this.set.pages.map((x) => [key(new URL(x.target, ORIGIN)), x]));
		return this.set.index.get(key(u)) || null;
	}
	preset(v, repo) {
		if (v.presets && typeof v.presets === "object") return Object.hasOwn(v.presets, repo) ? v.presets[repo] : null;
		return repo === "polkadot-sdk" ? PRESET : null;
	}
	// -------------------------------------------------------- network
	request(v, method, url, cb) {
		const u = new URL(url);
		const id = this.reqs.length;
		const gh = u.origin !== ORIGIN;
		const rule = gh ? this.p.gh[this.ngh++] : this.p.net[this.nnet++];
		const { up, down, outcome } = rule || { up: 20, down: 20, outcome: "ok" };
		const q = { id, v, url, path: u.pathname, repo: u.searchParams.get("repo"), fetch: u.searchParams.get("fetch") === "true", cb, up, down, outcome, sent: this.seq++, sentAt: this.now, gh };
		this.reqs.push(q);
		this.stats.requests++;
		if (v.out.size) this.stats.overlapping++;
		v.out.set(id, q);
		this.shape.push("s" + q.path + q.repo);
		this.log("request", id, method, url);
		if (outcome !== "ok") this.stats.faults["answer/" + outcome] = (this.stats.faults["answer/" + outcome] || 0) + 1;
		if (up + down > 1500) this.stats.faults["answer/slow"] = (this.stats.faults["answer/slow"] || 0) + 1;
		this.at(this.now + up, "serve", { q });
		return id;
	}
	serve(q) {
		const ok = (body) => ({ kind: "http", status: 200, statusText: "OK", headers: "content-type: application/json\r\n", body });
		const err = (status, body, type = "text/html; charset=utf-8") => ({ kind: "http", status, statusText: "Error", headers: `content-type: ${type}\r\n`, body });
		let r;
		if (q.gh) {
			const m = /^https:\/\/api\.github\.com\/repos\/([^/]+)\/([^/]+)\/pulls$/.exec(q.url.split("?")[0]);
			const x = m && this.p.mrs.find((y) => y.owner === decodeURIComponent(m[1]) && y.repo === decodeURIComponent(m[2]));
			r = x ? ok(JSON.stringify(x.list)) : err(404, '{"message":"Not Found"}', "application/json");
			q.list = x ? x.list : null;
		} else if (q.path === "/branches") {
			const l = this.remote[q.repo];
			r = l ? ok(JSON.stringify({ branch: l })) : err(500, "Unknown repository");
			q.branches = l ? structuredClone(l) : null;
		} else r = err(404, "Not found");
		switch (q.outcome) {
			case "network": case "abort": r = { kind: "network" }; break;
			case "500": r = err(500, "<html><h1>Error</h1></html>"); break;
			case "502": r = err(502, "<html>Bad Gateway</html>"); break;
			case "404": r = err(404, "Not found", "text/plain"); break;
			case "truncated": if (r.status === 200) r = { ...r, body: r.body.slice(0, Math.max(1, r.body.length >> 1)) }; break;
			case "html": r = { ...err(200, "<!doctype html><html>Please log in</html>"), statusText: "OK" }; break;
			case "empty": r = { ...ok(""), headers: "content-type: application/json\r\n" }; break;
		}
		q.good = q.outcome === "ok" && r.status === 200;
		q.answer = r;
		if (q.outcome === "late") { q.good = false; q.answer = { kind: "network" }; this.at(this.now + 600000, "answer", { q }); } else this.at(this.now + q.down, "answer", { q });
	}
	answer(q) {
		const v = q.v;
		if (!v.out.has(q.id)) return;
		v.out.delete(q.id);
		if (v !== this.visit || !v.alive) return;
		q.answered = this.seq++;
		q.ended = q.good ? "ok" : "failed";
		this.shape.push("a" + q.id + q.ended);
		this.log("answer", q.id, q.answer.kind === "http" ? q.answer.status : q.answer.kind, q.ended);
		if (q.good && q.branches) (v.success[q.repo] ||= []).push(q);
		if (q.gh && q.good) v.gh.push(q);
		q.cb(q.answer);
	}
	// -------------------------------------------------------- navigation
	navigate(v, target, reload = false) {
		if (v !== this.visit || !v.alive) return;
		let u;
		try { u = new URL(target, v.url); } catch (_) { this.log("bad navigation", target); return; }
		const here = new URL(v.url);
		if (v.page === "compare" && !reload) this.judgeChange(v, u);
		if (!reload && u.hash && u.href.split("#")[0] === here.href.split("#")[0]) { v.url = u.href; return; }
		const rule = this.p.nav[this.navs++] || { delay: 50, result: "commit", back: 1000, cached: false, goBack: false };
		this.stats.navigations++;
		this.log("navigate", u.href);
		this.shape.push("n" + u.pathname);
		if (this.pending) this.pending.dead = true;
		this.pending = this.at(this.now + rule.delay, "commit", { v, url: u.href, rule });
		if (v.page !== "compare") this.judgeNavigation(v, u);
	}
	async commit(e) {
		const v = e.v;
		this.pending = null;
		if (v !== this.visit || !v.alive) return;
		if (e.rule.result === "stay") {
			// The user stopped loading, or the server answered without content: the old page stays.
			this.stats.faults["navigation/stopped"] = (this.stats.faults["navigation/stopped"] || 0) + 1;
			this.log("navigation stopped by the user");
			v.stopped = true;
			return;
		}
		const u = new URL(e.url);
		v.alive = false;
		this.log("commit", e.url);
		if (u.origin === ORIGIN && (u.pathname === "/" || u.pathname === "/compare-mr")) { this.drop(v); await this.open(e.url); return; }
		if (u.origin === ORIGIN && u.pathname === "/compare" && v.page === "compare" && (!e.rule.goBack || u.href === v.url) && this.rendered(u)) { this.drop(v); await this.open(e.url); return; }
		const cached = e.rule.cached && v.out.size === 0;
		if (!cached) this.drop(v);
		else { v.frozen = this.now; this.visit = v; }
		if (!cached) this.visit = null;
		if (e.rule.goBack) this.at(this.now + e.rule.back, "back", { v, cached });
		else if (cached) this.visit = null;
	}
	drop(v) { for (const t of v.timers.values()) t.dead = true; v.timers.clear(); }
	async back(e) {
		const v = e.v;
		if (e.cached) {
			this.stats.restored++;
			this.stats.faults["navigation/restored from cache"] = (this.stats.faults["navigation/restored from cache"] || 0) + 1;
			this.log("back, page restored as it was left");
			v.alive = true;
			this.visit = v;
			for (const t of v.timers.values()) t.t = Math.max(t.t, this.now + Math.max(0, t.t - v.frozen));
			v.page_.windowEvent("pageshow", { persisted: true });
			await drain();
		} else {
			this.log("back, page loaded again");
			await this.open(v.url);
		}
	}
	// -------------------------------------------------------- user
	el(id) { return this.visit.doc.getElementById(id); }
	val(id) { const e = this.el(id); if (!e) return null; if (e.localName === "select") return e.selectedIndex < 0 ? null : e.value; return e.value; }
	act(a) {
		const v = this.visit;
		if (!v || !v.alive) return;
		const P = v.page_;
		this.stats.actions++;
		const fireChange = (e) => { P.event(e, "input", { cancelable: false }); P.event(e, "change", { cancelable: false }); };
		if (a.kind === "wait") return;
		if (a.kind === "tab") {
			// Another tab of the same site remembers what was selected there.
			this.log("another tab stores", JSON.stringify(a.set));
			this.stats.faults["storage/other tab"] = (this.stats.faults["storage/other tab"] || 0) + 1;
			Object.assign(this.local, a.set);
			return;
		}
		if (a.kind === "reload") { this.log("user reloads"); v.wantRepo = null; this.navigate(v, v.url, true); return; }
		if (v.page === "compare") {
			if (a.kind === "set") this.change(v, a, fireChange);
		} else if (v.page === "root") {
			if (a.kind === "repo") {
				const s = this.el("repoSelect");
				if (!s || !s.options.length) return;
				const k = a.n % s.options.length;
				if (s.selectedIndex === k) return;
				const name = s.options[k].text;
				s.selectedIndex = k;
				this.log("user selects", name);
				this.shape.push("repo" + k);
				const real = this.realName(s.value, name);
				if (!this.accepted(v, real).length && ![...v.out.values()].some((q) => q.repo === real)) v.due.push({ what: `no branches were requested after ${name} was selected`, repo: real, seq: this.seq });
				fireChange(s);
			} else if (a.kind === "fetch") {
				const b = v.doc.getElementsByTagName("button").filter((e) => e.id === "fetch");
				if (!b.length) return;
				const e = b[a.n % b.length];
				this.log("user clicks fetch", a.n % b.length);
				this.shape.push("fetch");
				const name = this.selected();
				if (name !== null && e === b[0] && ![...v.out.values()].some((q) => q.repo === name)) v.due.push({ what: `no branches were requested after fetch was clicked for ${name}`, repo: name, seq: this.seq, fetch: true });
				e.click();
			} else if (a.kind === "choose") {
				const s = this.el(a.side + "Select");
				if (!s || !s.options.length) return;
				const k = a.n % s.options.length;
				if (s.selectedIndex === k) return;
				s.selectedIndex = k;
				this.log("user chooses", a.side, s.value);
				fireChange(s);
			} else if (a.kind === "compare") {
				const b = this.el("bthPost");
				if (!b) return;
				const shown = this.shown();
				const c = { shown, seq: this.seq, done: false };
				v.clicks.push(c);
				this.log("user clicks compare", JSON.stringify(shown));
				this.shape.push("compare");
				b.click();
			} else if (a.kind === "next") {
				const b = v.doc.getElementsByTagName("input").filter((e) => /action-button/.test(e.className) && e.id !== "bthPost");
				if (b.length) b[a.n % b.length].click();
			}
		} else {
			if (a.kind === "open") {
				const t = this.el("mrTable");
				const rows = t ? t.getElementsByTagName("tr").filter((r) => r.getElementsByTagName("td").length) : [];
				if (!rows.length) return;
				const row = rows[a.n % rows.length];
				const cells = row.getElementsByTagName("td").map((c) => c.textContent);
				const mr = this.mergeRequest(v, cells);
				this.log("user double-clicks", JSON.stringify(cells.slice(0, 4)), mr ? (mr.own ? "own" : "fork") : "unknown row");
				this.shape.push("open" + cells[2]);
				v.opens.push({ mr, seq: this.seq++, navs: 0, from: this.reqs.length });
				const target = a.cell ? row.getElementsByTagName("td")[0] : row;
				for (const k of ["mousedown", "mouseup", "click", "mousedown", "mouseup", "click", "dblclick"]) P.event(target, k, {});
			} else if (a.kind === "mrrepo") {
				const s = this.el("select_repo");
				if (!s || !s.options.length) return;
				const k = a.n % s.options.length;
				if (s.selectedIndex === k) return;
				s.selectedIndex = k;
				this.log("user selects", s.value);
				v.wantRepo = s.value;
				fireChange(s);
			}
		}
	}
	control(arg) { return this.el("select_" + arg) || this.el("input_" + arg) || this.el("checkbox_" + arg); }
	change(v, a, fireChange) {
		const e = this.control(a.arg);
		if (!e) return this.bad("other-display", `the page has no control for ${a.arg}`);
		if (e.type === "checkbox") {
			e.checked = !e.checked;
		} else if (e.localName === "select") {
			const k = a.n % e.options.length;
			if (e.selectedIndex === k) return;
			e.selectedIndex = k;
		} else {
			if (e.value === a.value) return;
			e.value = a.value;
		}
		const value = this.shows(e);
		this.log("user sets", a.arg, JSON.stringify(value));
		this.shape.push("set" + a.arg);
		// An argument that is left out stands for its default, or is none at all.
		if (value !== "") v.sets.push({ arg: a.arg, value, navs: 0 });
		else v.emptied = true;
		if (e.type === "checkbox") v.page_.event(e, "click", {});
		fireChange(e);
	}
	shows(e) { return e.type === "checkbox" ? String(e.checked) : e.localName === "select" && e.selectedIndex < 0 ? "" : e.value; }
	judgeCompare(v) {
		if (!v.judgedDisplay && !v.sets.length && !v.emptied) {
			v.judgedDisplay = true;
			const want = this.args(new URL(v.url));
			for (const k in want) {
				const e = this.control(k);
				if (!e || this.shows(e) !== want[k]) this.bad("other-display", `the page for ${v.url} shows ${e ? JSON.stringify(this.shows(e)) : "nothing"} as ${k}`);
			}
		}
		for (const s of v.sets) {
			if (s.navs || s.judged) continue;
			s.judged = true;
			this.bad("not-compared", `setting ${s.arg} to ${JSON.stringify(s.value)} started no comparison on ${v.url}`);
		}
	}
	judgeChange(v, u) {
		if (u.pathname !== "/compare" || u.origin !== ORIGIN) return this.bad("other-comparison", `a control opened ${u.href}`);
		const all = (x) => { const m = {}; for (const [k, y] of x.searchParams) (m[k] ||= []).push(y); return m; };
		const was = all(new URL(v.url)), is = all(u);
		const differs = (k, x, y) => JSON.stringify(x[k]) !== JSON.stringify(y[k]);
		const fits = v.sets.filter((s) => { const want = { ...was, [s.arg]: [s.value] }; return ![...new Set([...Object.keys(want), ...Object.keys(is)])].some((k) => differs(k, want, is)); });
		if (!fits.length) {
			if (v.emptied) { const k = Object.keys({ ...was, ...is }).filter((x) => differs(x, was, is)); if (k.length <= 1) return; }
			return this.bad(v.sets.length ? "other-comparison" : "unasked-comparison", `${v.url} was changed by ${JSON.stringify(v.sets.map((s) => [s.arg, s.value]))} but opened ${u.href}`);
		}
		const s = fits.find((x) => !x.navs);
		if (!s) return this.bad("compared-twice", `a change of ${fits[0].arg} started more than one comparison: ${u.href}`);
		s.navs++;
	}
	// -------------------------------------------------------- judging
	realName(value, text) { const r = this.set.repos.map((x) => x.name); return r.includes(value) ? value : r.find((x) => x === text.trim()) ?? value; }
	selected() { const s = this.el("repoSelect"); if (!s || s.selectedIndex < 0) return null; return this.realName(s.value, s.options[s.selectedIndex].text); }
	shown() { return { repo: this.selected(), first: this.val("firstSelect"), second: this.val("secondSelect"), shownRepo: this.val("selectedRepo"), shownFirst: this.val("selectedFirst"), shownSecond: this.val("selectedSecond") }; }
	// Answers for a repository that no later-sent and successfully answered request has superseded.
	accepted(v, repo) { const l = v.success[repo] || []; return l.filter((r) => !l.some((x) => x.sent > r.answered)); }
	mergeRequest(v, cells) {
		for (const q of v.gh) for (const m of q.list) if (this.same(cells[2], m.head.ref) && this.same(cells[3], m.base.ref)) {
			const [owner, repo] = new URL(q.url).pathname.split("/").slice(2, 4).map(decodeURIComponent);
			return { head: m.head.ref, base: m.base.ref, own: !!(m.head.repo && m.head.repo.owner.login === owner), owner, repo };
		}
		return null;
	}
	// Whether a table cell shows this text, be it escaped or taken as markup.
	same(cell, s) { if (cell === s) return true; const d = this.visit.doc.createElement("td"); d.innerHTML = s; return cell === d.textContent; }
	judgeNavigation(v, u) {
		if (v.wantRepo && u.pathname === "/compare-mr") {
			const [owner, repo] = v.wantRepo.split(":");
			if (u.searchParams.get("owner") !== owner || u.searchParams.get("repo") !== repo) this.bad("not-redirected", `selecting ${v.wantRepo} opened ${u.href}`);
		}
		v.wantRepo = null;
		if (u.pathname !== "/compare") return;
		const g = (k) => u.searchParams.get(k);
		const all = (k) => u.searchParams.getAll(k);
		for (const k of ["repo", "old", "new", "path_pattern"]) if (all(k).length !== 1) this.bad("bad-comparison", `the comparison has ${all(k).length} values for ${k}: ${u.href}`);
		if (u.hash) this.bad("bad-comparison", `part of the comparison is not sent to the server: ${u.href}`);
		if (v.page === "root") {
			const c = v.clicks[v.clicks.length - 1];
			if (!c) return this.bad("unasked-comparison", `a comparison was started without a click: ${u.href}`);
			c.done = true;
			const s = c.shown;
			const cmp = (what, got, ...shown) => { for (const x of shown) if (got !== x) this.bad("other-comparison", `${what} of the started comparison is ${JSON.stringify(got)}, the page showed ${JSON.stringify(x)}: ${u.href}`); };
			cmp("the repository", g("repo"), s.repo);
			cmp("the repository", String(g("repo")).toLowerCase(), String(s.shownRepo).toLowerCase());
			cmp("the first revision", g("old"), s.first, s.shownFirst);
			cmp("the second revision", g("new"), s.second, s.shownSecond);
			cmp("the path pattern", g("path_pattern"), this.preset(v, s.repo));
		} else {
			const fits = v.opens.filter((o) => o.mr && o.mr.repo === g("repo") && o.mr.base === g("old") && o.mr.head === g("new"));
			if (!fits.length) return this.bad("other-comparison", `no merge request that was double-clicked has this base and head: ${u.href} instead of ${JSON.stringify(v.opens.map((o) => o.mr))}`);
			if (!fits.some((o) => o.mr.own)) return this.bad("fork-compared", `a merge request of a fork was compared: ${u.href}`);
			const o = fits.find((x) => x.navs === 0);
			if (!o) return this.bad("compared-twice", `a double-click started more than one comparison: ${u.href}`);
			o.navs++;
			if (g("path_pattern") !== this.preset(v, o.mr.repo)) this.bad("other-comparison", `the path pattern is ${JSON.stringify(g("path_pattern"))}`);
			if (!this.reqs.some((q) => q.v === v && q.path === "/branches" && q.repo === o.mr.repo && q.fetch && q.ended === "ok" && q.answered > o.seq)) this.bad("not-fetched", `a comparison was started although its branches were not fetched: ${u.href}`);
		}
	}
	overlay() {
		const on = (e) => e.classList.contains("show") || /visible/.test(e.style.visibility) || (e.style.display && e.style.display !== "none");
		return this.visit.doc.getElementsByTagName("div").some((e) => (e.classList.contains("overlay") || e.classList.contains("spanner")) && on(e));
	}
	quiet() {
		const v = this.visit;
		if (!v || !v.alive || this.pending) return false;
		return v.out.size === 0 && ![...v.timers.values()].some((t) => !t.repeat);
	}
	judge() {
		const v = this.visit;
		if (!this.quiet()) return;
		this.stats.quiet_checks++;
		if (this.overlay() && !v.stopped) this.bad("stuck-overlay", `the ${{ root: "set-up", mr: "merge-request", compare: "comparison" }[v.page]} page is behind its loading overlay although none of its requests is outstanding`);
		if (v.page === "compare") this.judgeCompare(v);
		else if (v.page === "root") {
			for (const d of v.due.splice(0)) if (!this.reqs.some((q) => q.v === v && q.path === "/branches" && q.repo === d.repo && q.sent >= d.seq && (!d.fetch || q.fetch))) this.bad("not-requested", d.what);
			for (const c of v.clicks) {
				if (c.done || c.judged) continue;
				c.judged = true;
				const s = c.shown;
				if (s.repo !== null && s.first && s.second && this.preset(v, s.repo)) this.bad("not-compared", `a click on compare started nothing: ${JSON.stringify(s)}`);
			}
			const repo = this.selected();
			const opts = (id) => { const e = this.el(id); return e ? e.options.map((o) => [o.value, o.text]) : null; };
			const a = opts("firstSelect"), b = opts("secondSelect");
			if (!a || !b) return;
			const counts = v.doc.getElementsByClassName("branchCount").map((e) => e.textContent.trim());
			const acc = repo === null ? [] : this.accepted(v, repo);
			const fits = (list, l) => l.length === list.length && (() => {
				const rest = l.slice();
				return list.every(([n, h]) => { const i = rest.findIndex((o) => o[0] === n && o[1].includes(h.trim()) && o[1].includes(n)); if (i < 0) return false; rest.splice(i, 1); return true; });
			})();
			const show = (l) => JSON.stringify(l.map((x) => x[0]));
			const want = acc.length ? acc.map((q) => q.branches) : [[]];
			const ok = want.some((l) => fits(l, a) && fits(l, b) && counts.every((c) => c === String(l.length) || (l.length === 0 && !acc.length && !/^[1-9]/.test(c))));
			if (!ok) this.bad("other-branches", `${repo} is selected and its branches are ${want.map(show).join(" or ")}, but ${show(a)} and ${show(b)} are offered as ${counts.join(" and ")}`);
			const sh = this.shown();
			if (repo !== null && String(sh.shownRepo).toLowerCase() !== repo.toLowerCase()) this.bad("other-display", `${repo} is selected but the page shows ${JSON.stringify(sh.shownRepo)}`);
			for (const [x, y] of [[sh.first, sh.shownFirst], [sh.second, sh.shownSecond]]) if ((x || "") !== (y || "")) this.bad("other-display", `${JSON.stringify(x)} is selected but the page shows ${JSON.stringify(y)}`);
		} else {
			for (const o of v.opens) {
				if (o.judged) continue;
				o.judged = true;
				if (!o.mr || !o.mr.own || !this.preset(v, o.mr.repo) || o.navs) continue;
				// Which of several double-clicks on the same merge request an answer belongs to cannot be told.
				const first = v.opens.find((x) => x.mr && x.mr.own && ["repo", "base", "head"].every((k) => x.mr[k] === o.mr[k]));
				const tried = this.reqs.filter((q) => q.v === v && q.path === "/branches" && q.repo === o.mr.repo && q.id >= first.from);
				if (!tried.length) this.bad("not-requested", `nothing was fetched after a double-click on ${JSON.stringify(o.mr)}`);
				else if (tried.every((q) => q.ended === "ok")) this.bad("not-compared", `a double-click started no comparison: ${JSON.stringify(o.mr)}`);
			}
			// All merge requests that GitHub listed can be chosen.
			const q = v.gh[v.gh.length - 1];
			if (q) {
				const t = this.el("mrTable");
				const rows = t ? t.getElementsByTagName("tr").filter((r) => r.getElementsByTagName("td").length).map((r) => r.getElementsByTagName("td").map((c) => c.textContent)) : [];
				const rest = q.list.slice();
				for (const c of rows) { const i = rest.findIndex((m) => this.same(c[2], m.head.ref) && this.same(c[3], m.base.ref)); if (i >= 0) rest.splice(i, 1); else rest.push(null); }
				if (rest.length) this.bad("other-rows", `${rows.length} of ${q.list.length} merge requests are listed: ${JSON.stringify(rows.map((r) => r[2]))} instead of ${JSON.stringify(q.list.map((m) => m.head.ref))}`);
			}
			if (v.wantRepo) { this.bad("not-redirected", `selecting ${v.wantRepo} did not open its merge requests`); }
		}
	}
	async run() {
		const start = ORIGIN + (this.p.page === "root" ? "/" : this.p.page === "compare" ? this.p.query : "/compare-mr" + this.p.query);
		for (const a of this.p.actions) this.at(a.t, "action", { a });
		for (const x of this.p.pushes) this.at(x.t, "push", { x });
		await this.open(start);
		let n = 0;
		while (this.queue.length) {
			if (++n > 20000) { this.bad("livelock", "the page never comes to rest"); break; }
			const e = this.pop();
			if (e.dead) continue;
			// Polling timers go on for ever.
			if (e.kind === "timer" && e.repeat && !this.queue.some((x) => !x.dead && !(x.kind === "timer" && x.repeat))) break;
			if (e.kind === "action" && this.quiet()) this.judge();
			this.now = e.t;
			this.stats.events++;
			try {
				switch (e.kind) {
					case "action": this.act(e.a); break;
					case "push": this.push(e.x); break;
					case "serve": this.serve(e.q); break;
					case "answer": this.answer(e.q); break;
					case "timer": {
						if (e.v !== this.visit || !e.v.alive) { if (e.v.alive === false && e.v.frozen !== undefined && e.v === this.visit) this.queue.push({ ...e, t: e.t + 1000 }); break; }
						e.v.timers.delete(e.id);
						if (e.repeat) e.v.timers.set(e.id, this.at(this.now + e.repeat, "timer", { v: e.v, f: e.f, id: e.id, repeat: e.repeat }));
						try { e.f(); } catch (x) { this.exception(e.v, x); }
						break;
					}
					case "commit": await this.commit(e); break;
					case "back": await this.back(e); break;
				}
			} catch (x) { this.exception(this.visit || { exceptions: [] }, x); }
			await drain();
		}
		await drain();
		if (this.visit && this.visit.alive) this.judge();
		this.log("end", JSON.stringify(this.stats.faults));
		return { found: this.found, trace: this.trace, digest: digest(this.trace.join("\n")), shape: digest(this.shape.join("|")), stats: this.stats, sim_ms: this.now };
	}
	push(x) {
		const l = (this.remote[x.repo] ||= []);
		const i = l.findIndex((b) => b[0] === x.name);
		if (x.op === "delete") { if (i >= 0) l.splice(i, 1); } else if (i >= 0) l[i] = [x.name, x.hash]; else if (x.op === "add") l.push([x.name, x.hash]);
		this.log("push", x.op, x.repo, x.name);
	}
}
process.on("unhandledRejection", (e) => { if (process.env.SWCSIM_TRACE) console.error("unhandled rejection", e); });
