// A small document model, evaluated inside the context of a simulated page. Stub: it stands for the browser's DOM.
// What is deliberately faithful: event dispatch, select and option state, attributes, tree order, HTML parsing of ordinary markup.
"use strict";
(function (global, host) {
	const VOID = new Set("area base br col embed hr img input link meta param source track wbr".split(" "));
	const RAW = new Set("script style textarea title".split(" "));
	const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
	const decode = (s) =>
		s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);/gi, (m, e) => {
			if (e[0] === "#") return String.fromCodePoint(/^#x/i.test(e) ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
			return ENT[e] === undefined ? m : ENT[e];
		});
	const esc = (s) => String(s).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");

	class Event {
		constructor(type, o = {}) {
			this.type = type;
			this.bubbles = !!o.bubbles;
			this.cancelable = !!o.cancelable;
			this.target = this.currentTarget = null;
			this.defaultPrevented = false;
			this.timeStamp = host.now();
			this.eventPhase = 0;
			for (const k in o) if (!(k in this)) this[k] = o[k];
		}
		preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
		stopPropagation() { this._stop = true; }
		stopImmediatePropagation() { this._stop = this._now = true; }
		composedPath() { return this._path || []; }
		initEvent(t, b, c) { this.type = t; this.bubbles = b; this.cancelable = c; }
	}
	class CustomEvent extends Event { constructor(t, o = {}) { super(t, o); this.detail = o.detail; } }

	class EventTarget {
		addEventListener(type, fn, opt) {
			if (!fn) return;
			const l = (this._l ||= Object.create(null));
			const capture = opt === true || !!(opt && opt.capture);
			const list = (l[type] ||= []);
			if (list.some((x) => x.fn === fn && x.capture === capture)) return;
			list.push({ fn, capture, once: !!(opt && opt.once) });
		}
		removeEventListener(type, fn, opt) {
			const l = this._l && this._l[type];
			if (!l) return;
			const capture = opt === true || !!(opt && opt.capture);
			this._l[type] = l.filter((x) => x.fn !== fn || x.capture !== capture);
		}
		_fire(ev, phase) {
			ev.currentTarget = this;
			for (const x of ((this._l && this._l[ev.type]) || []).slice()) {
				if (phase === 1 ? !x.capture : phase === 3 && x.capture) continue;
				if (x.once) this.removeEventListener(ev.type, x.fn, x.capture);
				host.guard(() => {
					const r = typeof x.fn === "function" ? x.fn.call(this, ev) : x.fn.handleEvent(ev);
					return r;
				});
				if (ev._now) return;
			}
			const h = this["on" + ev.type];
			if (phase !== 1 && typeof h === "function" && !(this instanceof XMLHttpRequest)) host.guard(() => { if (h.call(this, ev) === false) ev.preventDefault(); });
		}
		dispatchEvent(ev) {
			ev.target = this;
			const path = [];
			for (let n = this.parentNode; n; n = n.parentNode) path.push(n);
			if (this !== global && (this === document || path[path.length - 1] === document)) path.push(global);
			ev._path = [this, ...path];
			for (const n of path.slice().reverse()) { ev.eventPhase = 1; if (ev._stop) break; fire(n, ev, 1); }
			if (!ev._stop) { ev.eventPhase = 2; fire(this, ev, 2); }
			if (ev.bubbles) for (const n of path) { if (ev._stop) break; ev.eventPhase = 3; fire(n, ev, 3); }
			ev.currentTarget = null;
			return !ev.defaultPrevented;
		}
	}
	const fire = (n, ev, p) => EventTarget.prototype._fire.call(n, ev, p);

	class Node extends EventTarget {
		constructor(type, name) { super(); this.nodeType = type; this.nodeName = name; this.parentNode = null; this.childNodes = []; }
		get ownerDocument() { return this.nodeType === 9 ? null : this._doc || document; }
		get parentElement() { const p = this.parentNode; return p && p.nodeType === 1 ? p : null; }
		get firstChild() { return this.childNodes[0] || null; }
		get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
		get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] || null : null; }
		get previousSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) - 1] || null : null; }
		get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === document; }
		getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
		hasChildNodes() { return this.childNodes.length > 0; }
		contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
		insertBefore(n, ref) {
			if (n.nodeType === 11) { for (const c of n.childNodes.slice()) this.insertBefore(c, ref); return n; }
			if (n.contains(this)) throw new Error("HierarchyRequestError");
			if (n.parentNode) n.parentNode.removeChild(n);
			const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
			if (i < 0) throw new Error("NotFoundError");
			this.childNodes.splice(i, 0, n);
			n.parentNode = this;
			changed(this, n);
			return n;
		}
		appendChild(n) { return this.insertBefore(n, null); }
		removeChild(n) {
			const i = this.childNodes.indexOf(n);
			if (i < 0) throw new Error("NotFoundError");
			this.childNodes.splice(i, 1);
			n.parentNode = null;
			changed(this, null);
			return n;
		}
		replaceChild(n, old) { this.insertBefore(n, old); this.removeChild(old); return old; }
		remove() { if (this.parentNode) this.parentNode.removeChild(this); }
		_nodes(a) { return a.map((x) => (typeof x === "object" ? x : document.createTextNode(x))); }
		append(...a) { for (const n of this._nodes(a)) this.appendChild(n); }
		prepend(...a) { const f = this.firstChild; for (const n of this._nodes(a)) this.insertBefore(n, f); }
		before(...a) { for (const n of this._nodes(a)) this.parentNode.insertBefore(n, this); }
		after(...a) { const s = this.nextSibling; for (const n of this._nodes(a)) this.parentNode.insertBefore(n, s); }
		replaceWith(...a) { const p = this.parentNode, s = this.nextSibling; this.remove(); for (const n of this._nodes(a)) p.insertBefore(n, s); }
		replaceChildren(...a) { for (const c of this.childNodes.slice()) this.removeChild(c); this.append(...a); }
		get textContent() { return this.nodeType === 3 || this.nodeType === 8 ? this.data : this.childNodes.filter((c) => c.nodeType !== 8).map((c) => c.textContent).join(""); }
		set textContent(v) {
			if (this.nodeType === 3 || this.nodeType === 8) { this.data = String(v); return; }
			for (const c of this.childNodes.slice()) this.removeChild(c);
			if (v !== "" && v !== null) this.appendChild(document.createTextNode(v));
		}
		get nodeValue() { return this.nodeType === 3 || this.nodeType === 8 ? this.data : null; }
		set nodeValue(v) { if (this.nodeType === 3 || this.nodeType === 8) this.data = String(v); }
		cloneNode(deep) {
			let n;
			if (this.nodeType === 3) n = document.createTextNode(this.data);
			else if (this.nodeType === 8) n = document.createComment(this.data);
			else if (this.nodeType === 11) n = document.createDocumentFragment();
			else {
				n = create(this.localName);
				for (const [k, v] of this._a) n.setAttribute(k, v);
				if ("_checked" in this) n._checked = this._checked;
				if ("_value" in this) n._value = this._value;
			}
			if (deep) for (const c of this.childNodes) n.appendChild(c.cloneNode(true));
			return n;
		}
		get children() { return this.childNodes.filter((c) => c.nodeType === 1); }
		get childElementCount() { return this.children.length; }
		get firstElementChild() { return this.children[0] || null; }
		get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
		get nextElementSibling() { let n = this.nextSibling; while (n && n.nodeType !== 1) n = n.nextSibling; return n; }
		get previousElementSibling() { let n = this.previousSibling; while (n && n.nodeType !== 1) n = n.previousSibling; return n; }
		*_all() { for (const c of this.childNodes) if (c.nodeType === 1) { yield c; yield* c._all(); } }
		getElementsByTagName(t) { t = t.toLowerCase(); return [...this._all()].filter((e) => t === "*" || e.localName === t); }
		getElementsByClassName(c) { const w = c.split(/\s+/).filter(Boolean); return [...this._all()].filter((e) => w.every((x) => e.classList.contains(x))); }
		querySelectorAll(sel) { return global.jQuery.find(sel, this).slice(); }
		querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
	}
	// Keeps the selection of a select element valid, as the HTML standard says for insertions and removals.
	function changed(parent, inserted) {
		for (let p = parent; p; p = p.parentNode)
			if (p.localName === "select") {
				if (inserted && inserted.localName === "option" && inserted._sel) for (const o of p.options) if (o !== inserted) o._sel = false;
				p._reset();
				return;
			}
	}
	class Text extends Node { constructor(d) { super(3, "#text"); this.data = String(d); } }
	class Comment extends Node { constructor(d) { super(8, "#comment"); this.data = String(d); } }
	class DocumentFragment extends Node { constructor() { super(11, "#document-fragment"); } getElementById(id) { return [...this._all()].find((e) => e.id === id) || null; } }

	class ClassList {
		constructor(e) { this._e = e; }
		_get() { return (this._e.getAttribute("class") || "").split(/\s+/).filter(Boolean); }
		_set(v) { this._e.setAttribute("class", v.join(" ")); }
		contains(c) { return this._get().includes(c); }
		add(...c) { const v = this._get(); for (const x of c) if (!v.includes(x)) v.push(x); this._set(v); }
		remove(...c) { this._set(this._get().filter((x) => !c.includes(x))); }
		toggle(c, on) { const has = this.contains(c); const want = on === undefined ? !has : !!on; if (want) this.add(c); else this.remove(c); return want; }
		replace(a, b) { if (!this.contains(a)) return false; this.remove(a); this.add(b); return true; }
		get length() { return this._get().length; }
		item(i) { return this._get()[i] || null; }
		forEach(f) { this._get().forEach(f); }
		toString() { return this._get().join(" "); }
		[Symbol.iterator]() { return this._get()[Symbol.iterator](); }
	}
	const camel = (s) => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
	const kebab = (s) => s.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
	const STYLES = "display visibility opacity position color backgroundColor backgroundClip width height left top right bottom overflow overflowX overflowY zIndex transform transition cursor pointerEvents margin marginLeft marginTop padding paddingLeft float cssFloat fontWeight fontSize textAlign border borderLeftWidth boxSizing".split(" ");
	class Style {
		constructor() { for (const k of STYLES) this[k] = ""; }
		setProperty(k, v) { this[camel(k)] = String(v); }
		getPropertyValue(k) { return this[camel(k)] || ""; }
		removeProperty(k) { const v = this[camel(k)]; this[camel(k)] = ""; return v || ""; }
		get cssText() { return Object.keys(this).filter((k) => this[k]).map((k) => kebab(k) + ": " + this[k] + ";").join(" "); }
		set cssText(t) { for (const k of Object.keys(this)) this[k] = ""; for (const d of String(t).split(";")) { const i = d.indexOf(":"); if (i > 0) this[camel(d.slice(0, i).trim())] = d.slice(i + 1).trim(); } }
	}

	class Element extends Node {
		constructor(name) { super(1, name.toUpperCase()); this.localName = name; this._a = new Map(); this._style = null; }
		get tagName() { return this.nodeName; }
		get namespaceURI() { return "http://www.w3.org/1999/xhtml"; }
		getAttribute(k) { k = k.toLowerCase(); if (k === "style" && this._style) return this._style.cssText; return this._a.has(k) ? this._a.get(k) : null; }
		setAttribute(k, v) { k = k.toLowerCase(); this._a.set(k, String(v)); if (k === "style") this.style.cssText = v; this._attr(k); }
		removeAttribute(k) { k = k.toLowerCase(); this._a.delete(k); if (k === "style") this._style = null; this._attr(k); }
		hasAttribute(k) { return this._a.has(k.toLowerCase()); }
		toggleAttribute(k, f) { const w = f === undefined ? !this.hasAttribute(k) : f; if (w) this.setAttribute(k, ""); else this.removeAttribute(k); return w; }
		getAttributeNode(k) { return this.hasAttribute(k) ? { name: k, value: this.getAttribute(k), specified: true } : null; }
		getAttributeNames() { return [...this._a.keys()]; }
		hasAttributes() { return this._a.size > 0; }
		get attributes() { return [...this._a].map(([name, value]) => ({ name, value, specified: true })); }
		_attr() {}
		get id() { return this.getAttribute("id") || ""; }
		set id(v) { this.setAttribute("id", v); }
		get className() { return this.getAttribute("class") || ""; }
		set className(v) { this.setAttribute("class", v); }
		get classList() { return (this._cl ||= new ClassList(this)); }
		get style() { if (!this._style) { this._style = new Style(); } return this._style; }
		set style(v) { this.style.cssText = v; }
		get dataset() {
			const e = this;
			return new Proxy({}, {
				get: (_, k) => (typeof k === "string" && e.hasAttribute("data-" + kebab(k)) ? e.getAttribute("data-" + kebab(k)) : undefined),
				set: (_, k, v) => { e.setAttribute("data-" + kebab(k), v); return true; },
				has: (_, k) => e.hasAttribute("data-" + kebab(k)),
				deleteProperty: (_, k) => { e.removeAttribute("data-" + kebab(k)); return true; },
			});
		}
		get innerHTML() { return this.childNodes.map(html).join(""); }
		set innerHTML(v) { for (const c of this.childNodes.slice()) this.removeChild(c); parse(String(v), this); }
		get outerHTML() { return html(this); }
		get innerText() { return this.textContent; }
		set innerText(v) { this.textContent = v; }
		insertAdjacentHTML(where, h) { const f = document.createDocumentFragment(); parse(h, f); this._adj(where, f); }
		insertAdjacentElement(where, e) { this._adj(where, e); return e; }
		_adj(w, n) { w = w.toLowerCase(); if (w === "beforeend") this.appendChild(n); else if (w === "afterbegin") this.insertBefore(n, this.firstChild); else if (w === "beforebegin") this.parentNode.insertBefore(n, this); else this.parentNode.insertBefore(n, this.nextSibling); }
		matches(sel) { return global.jQuery.find.matchesSelector(this, sel); }
		closest(sel) { for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (n.matches(sel)) return n; return null; }
		focus() {} blur() {} scrollIntoView() {} scroll() {} scrollTo() {}
		click() { this.dispatchEvent(new Event("click", { bubbles: true, cancelable: true })); }
		getBoundingClientRect() { return { left: 0, top: 0, right: 10, bottom: 10, width: 10, height: 10, x: 0, y: 0 }; }
		getClientRects() { return this.isConnected ? [this.getBoundingClientRect()] : []; }
		get offsetWidth() { return 10; } get offsetHeight() { return 10; } get clientWidth() { return 10; } get clientHeight() { return 10; }
		get offsetParent() { return this.parentElement; }
		get scrollTop() { return 0; } set scrollTop(_) {} get scrollLeft() { return 0; } set scrollLeft(_) {}
		get hidden() { return this.hasAttribute("hidden"); } set hidden(v) { this.toggleAttribute("hidden", !!v); }
		get title() { return this.getAttribute("title") || ""; } set title(v) { this.setAttribute("title", v); }
		get name() { return this.getAttribute("name") || ""; } set name(v) { this.setAttribute("name", v); }
		get disabled() { return this.hasAttribute("disabled"); } set disabled(v) { this.toggleAttribute("disabled", !!v); }
		get tabIndex() { return -1; } set tabIndex(_) {}
		get lang() { return ""; } get dir() { return ""; }
		get href() { return this.hasAttribute("href") ? host.resolve(this.getAttribute("href")) : ""; } set href(v) { this.setAttribute("href", v); }
		get src() { return this.hasAttribute("src") ? host.resolve(this.getAttribute("src")) : ""; } set src(v) { this.setAttribute("src", v); }
	}
	class HTMLElement extends Element {}
	class HTMLAnchorElement extends HTMLElement {
		_u() { return new URL(this.href || location.href); }
		click() { if (this.dispatchEvent(new Event("click", { bubbles: true, cancelable: true })) && this.hasAttribute("href")) host.navigate(this.href); }
	}
	for (const k of "protocol host hostname port pathname search hash origin".split(" ")) Object.defineProperty(HTMLAnchorElement.prototype, k, { get() { return this._u()[k]; } });
	class HTMLInputElement extends HTMLElement {
		get type() { return (this.getAttribute("type") || (this.localName === "button" ? "submit" : this.localName === "textarea" ? "textarea" : "text")).toLowerCase(); }
		set type(v) { this.setAttribute("type", v); }
		get value() { if ("_value" in this) return this._value; if (this.localName === "textarea") return this.textContent; const v = this.getAttribute("value"); return v === null ? (this.type === "checkbox" || this.type === "radio" ? "on" : "") : v; }
		set value(v) { this._value = v === null ? "" : String(v); }
		get defaultValue() { return this.localName === "textarea" ? this.textContent : this.getAttribute("value") || ""; }
		set defaultValue(v) { if (this.localName === "textarea") this.textContent = v; else this.setAttribute("value", v); }
		get checked() { return "_checked" in this ? this._checked : this.hasAttribute("checked"); }
		set checked(v) { this._checked = !!v; }
		get defaultChecked() { return this.hasAttribute("checked"); }
		set defaultChecked(v) { this.toggleAttribute("checked", !!v); }
		get readOnly() { return this.hasAttribute("readonly"); } set readOnly(v) { this.toggleAttribute("readonly", !!v); }
		get form() { return this.closest("form"); }
		select() {}
	}
	class HTMLOptionElement extends HTMLElement {
		get value() { const v = this.getAttribute("value"); return v === null ? this.text : v; }
		set value(v) { this.setAttribute("value", v); }
		get text() { return this.textContent.replace(/[\t\n\f\r ]+/g, " ").trim(); }
		set text(v) { this.textContent = v; }
		get label() { return this.getAttribute("label") || this.text; }
		_select() { let p = this.parentNode; while (p && p.localName !== "select") p = p.parentNode; return p; }
		_attr(k) { if (k === "selected" && this.hasAttribute("selected")) { this._sel = true; const s = this._select(); if (s) changed(s, this); } }
		get selected() { return !!this._sel; }
		set selected(v) {
			this._sel = !!v;
			const s = this._select();
			if (!s || s.multiple) return;
			if (v) { for (const o of s.options) if (o !== this) o._sel = false; } else s._reset();
		}
		get defaultSelected() { return this.hasAttribute("selected"); }
		get index() { const s = this._select(); return s ? s.options.indexOf(this) : 0; }
	}
	class HTMLSelectElement extends HTMLElement {
		get options() { const v = this.getElementsByTagName("option"); v.add = (o) => this.appendChild(o); return v; }
		get length() { return this.options.length; }
		set length(n) { const o = this.options; for (let i = o.length - 1; i >= n; i--) o[i].remove(); }
		get multiple() { return this.hasAttribute("multiple"); }
		get type() { return this.multiple ? "select-multiple" : "select-one"; }
		_reset() {
			if (this.multiple) return;
			const o = this.options, s = o.filter((x) => x._sel);
			if (!s.length) { const f = o.find((x) => !x.disabled); if (f) f._sel = true; } else for (const x of s.slice(0, -1)) x._sel = false;
		}
		get selectedIndex() { return this.options.findIndex((o) => o._sel); }
		set selectedIndex(i) { this.options.forEach((o, k) => (o._sel = k === Number(i))); }
		get selectedOptions() { return this.options.filter((o) => o._sel); }
		get value() { const o = this.options.find((x) => x._sel); return o ? o.value : ""; }
		set value(v) { let done = false; for (const o of this.options) { o._sel = !done && o.value === String(v); done ||= o._sel; } }
		add(o, before) { this.insertBefore(o, typeof before === "object" ? before || null : this.options[before] || null); }
		remove(i) { if (i === undefined) Node.prototype.remove.call(this); else if (this.options[i]) Node.prototype.remove.call(this.options[i]); }
		item(i) { return this.options[i] || null; }
		get form() { return this.closest("form"); }
	}
	class HTMLFormElement extends HTMLElement { submit() { host.navigate(this.getAttribute("action") || location.href); } reset() {} get elements() { return [...this._all()].filter((e) => /^(input|select|textarea|button)$/.test(e.localName)); } }
	class HTMLTableElement extends HTMLElement {
		get tBodies() { return this.children.filter((c) => c.localName === "tbody"); }
		get tHead() { return this.children.find((c) => c.localName === "thead") || null; }
		get rows() { return this.getElementsByTagName("tr"); }
	}
	const KINDS = { a: HTMLAnchorElement, input: HTMLInputElement, button: HTMLInputElement, textarea: HTMLInputElement, option: HTMLOptionElement, select: HTMLSelectElement, form: HTMLFormElement, table: HTMLTableElement };
	const create = (name) => new (KINDS[name] || HTMLElement)(name);
	function Option(text, value, def, sel) {
		const o = create("option");
		if (text !== undefined && text !== "") o.textContent = text;
		if (value !== undefined) o.setAttribute("value", value);
		if (def) o._a.set("selected", "");
		o._sel = !!sel;
		return o;
	}
	function html(n) {
		if (n.nodeType === 3) return n.parentNode && RAW.has(n.parentNode.localName) ? n.data : esc(n.data);
		if (n.nodeType === 8) return "<!--" + n.data + "-->";
		const a = n.attributes.map((x) => " " + x.name + '="' + esc(x.value).replace(/"/g, "&quot;") + '"').join("");
		return "<" + n.localName + a + ">" + (VOID.has(n.localName) ? "" : n.childNodes.map(html).join("") + "</" + n.localName + ">");
	}
	const CLOSES = { li: ["li"], option: ["option"], tr: ["tr", "td", "th"], td: ["td", "th"], th: ["td", "th"], p: ["p"], div: ["p"], tbody: ["thead", "tbody", "tr", "td", "th"] };
	function parse(src, root) {
		const stack = [root];
		const top = () => stack[stack.length - 1];
		let i = 0;
		const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<\/\s*([a-zA-Z][^\s>\/]*)[^>]*>|<([a-zA-Z][^\s>\/]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]*))?|\s+|\/)*)>/gi;
		let m;
		const text = (s) => { if (s) top().appendChild(new Text(decode(s))); };
		while ((m = re.exec(src))) {
			text(src.slice(i, m.index));
			i = re.lastIndex;
			if (m[1]) {
				const n = m[1].toLowerCase();
				if (n === "br") { top().appendChild(create("br")); continue; }
				const k = stack.findLastIndex((e, x) => x > 0 && e.localName === n);
				if (k > 0) stack.length = k;
			} else if (m[2]) {
				const n = m[2].toLowerCase();
				const e = create(n);
				const are = /([^\s=\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?/g;
				let a;
				while ((a = are.exec(m[3]))) if (!e._a.has(a[1].toLowerCase())) e.setAttribute(a[1], decode(a[2] ?? a[3] ?? a[4] ?? ""));
				while (CLOSES[n] && CLOSES[n].includes(top().localName)) stack.pop();
				top().appendChild(e);
				if (RAW.has(n)) {
					const end = src.slice(i).search(new RegExp("</" + n, "i"));
					const t = end < 0 ? src.slice(i) : src.slice(i, i + end);
					if (t) e.appendChild(new Text(n === "textarea" || n === "title" ? decode(t) : t));
					i += t.length;
					const close = src.indexOf(">", i);
					re.lastIndex = i = end < 0 ? src.length : close + 1;
				} else if (!VOID.has(n)) stack.push(e);
			} else if (m[0].startsWith("<!--")) top().appendChild(new Comment(m[0].slice(4, -3)));
		}
		text(src.slice(i));
	}

	class Document extends Node {
		constructor() { super(9, "#document"); this.readyState = "loading"; this.cookie = ""; this.title = ""; this.hidden = false; this.visibilityState = "visible"; this.compatMode = "CSS1Compat"; }
		get documentElement() { return this.children[0] || null; }
		get head() { return this.getElementsByTagName("head")[0] || null; }
		get body() { return this.getElementsByTagName("body")[0] || null; }
		get defaultView() { return this === document ? global : null; }
		get activeElement() { return this.body; }
		get location() { return this === document ? location : null; }
		set location(v) { host.navigate(String(v)); }
		get URL() { return location.href; }
		get referrer() { return ""; }
		get scripts() { return this.getElementsByTagName("script"); }
		get forms() { return this.getElementsByTagName("form"); }
		createElement(n) { return create(String(n).toLowerCase()); }
		createElementNS(_, n) { return create(String(n).toLowerCase()); }
		createTextNode(t) { return new Text(t); }
		createComment(t) { return new Comment(t); }
		createDocumentFragment() { return new DocumentFragment(); }
		createEvent() { return new Event(""); }
		getElementById(id) { for (const e of this._all()) if (e.id === String(id)) return e; return null; }
		getElementsByName(n) { return [...this._all()].filter((e) => e.getAttribute("name") === n); }
		hasFocus() { return true; }
		execCommand() { return false; }
		importNode(n, deep) { return n.cloneNode(deep); }
		adoptNode(n) { n.remove(); return n; }
	}
	Document.prototype.implementation = {
		createHTMLDocument() { const d = new Document(); const h = create("html"); d.appendChild(h); h.appendChild(create("head")); h.appendChild(create("body")); return d; },
		hasFeature: () => true,
	};
	const document = new Document();

	// ------------------------------------------------------------ window
	const location = {
		get href() { return host.url(); }, set href(v) { host.navigate(String(v)); },
		assign(v) { host.navigate(String(v)); }, replace(v) { host.navigate(String(v)); }, reload() { host.navigate(host.url()); },
		toString() { return host.url(); },
	};
	for (const k of "protocol host hostname port pathname origin".split(" ")) Object.defineProperty(location, k, { get: () => new URL(host.url())[k] });
	for (const k of ["search", "hash"])
		Object.defineProperty(location, k, { get: () => new URL(host.url())[k], set: (v) => { const u = new URL(host.url()); u[k] = v; host.navigate(u.href); } });

	class XMLHttpRequest extends EventTarget {
		constructor() {
			super();
			this.readyState = 0; this.status = 0; this.statusText = ""; this.responseText = ""; this.responseType = ""; this.response = ""; this.responseURL = "";
			this.withCredentials = false; this.timeout = 0;
			this.onload = this.onerror = this.onabort = this.ontimeout = this.onreadystatechange = this.onloadend = this.onloadstart = this.onprogress = null;
			this.upload = new EventTarget();
			this._h = {};
		}
		open(method, url) { this._m = method; this._u = host.resolve(String(url)); this.readyState = 1; this._ev("readystatechange"); }
		setRequestHeader(k, v) { this._h[k] = v; }
		overrideMimeType() {}
		getAllResponseHeaders() { return this._rh || ""; }
		getResponseHeader(k) { const m = new RegExp("^" + k + ": (.*)$", "im").exec(this._rh || ""); return m ? m[1].trim() : null; }
		send(body) {
			this._id = host.request(this._m, this._u, (r) => this._end(r), body);
			if (this.timeout > 0) this._t = host.setTimer(() => { if (host.cancel(this._id)) this._end({ kind: "timeout" }); }, this.timeout);
		}
		abort() { if (this._id !== undefined && this.readyState !== 4 && host.cancel(this._id)) this._end({ kind: "abort" }); }
		_ev(t) { const ev = new Event(t); ev.target = ev.currentTarget = this; const h = this["on" + t]; if (typeof h === "function") host.guard(() => h.call(this, ev)); fire(this, ev, 2); }
		_end(r) {
			if (this._t) host.clearTimer(this._t);
			this.readyState = 4;
			if (r.kind === "http") {
				this.status = r.status; this.statusText = r.statusText || ""; this._rh = r.headers; this.responseURL = this._u;
				this.responseText = r.body;
				this.response = r.body;
				if (this.responseType === "json") { try { this.response = JSON.parse(r.body); } catch (_) { this.response = null; } }
			}
			this._ev("readystatechange");
			this._ev(r.kind === "http" ? "load" : r.kind === "network" ? "error" : r.kind);
			this._ev("loadend");
		}
	}
	class Headers { constructor(t) { this._t = t || ""; } get(k) { const m = new RegExp("^" + k + ": (.*)$", "im").exec(this._t); return m ? m[1].trim() : null; } has(k) { return this.get(k) !== null; } }
	class Response {
		constructor(r, url) { this.status = r.status; this.statusText = r.statusText || ""; this.ok = r.status >= 200 && r.status < 300; this.headers = new Headers(r.headers); this.url = url; this.redirected = false; this.type = "basic"; this._b = r.body; this.bodyUsed = false; }
		async text() { this.bodyUsed = true; return this._b; }
		async json() { this.bodyUsed = true; return JSON.parse(this._b); }
		clone() { return this; }
	}
	const fetch = (input, init = {}) => new Promise((ok, no) => {
		const url = host.resolve(String(input && input.url ? input.url : input));
		const sig = init.signal;
		const aborted = () => { const e = new Error("The operation was aborted."); e.name = "AbortError"; return e; };
		if (sig && sig.aborted) return no(aborted());
		const id = host.request(init.method || "GET", url, (r) => (r.kind === "http" ? ok(new Response(r, url)) : no(new TypeError("Failed to fetch"))), init.body);
		if (sig) sig.addEventListener("abort", () => { if (host.cancel(id)) no(aborted()); });
	});
	class AbortSignal extends EventTarget { constructor() { super(); this.aborted = false; } throwIfAborted() { if (this.aborted) throw new Error("AbortError"); } static timeout(ms) { const c = new AbortController(); host.setTimer(() => c.abort(), ms); return c.signal; } }
	class AbortController { constructor() { this.signal = new AbortSignal(); } abort(r) { if (this.signal.aborted) return; this.signal.aborted = true; this.signal.reason = r; this.signal.dispatchEvent(new Event("abort")); } }

	const storage = (s) => {
		const api = {
			getItem: (k) => (Object.hasOwn(s, k) ? s[k] : null), setItem: (k, v) => { s[k] = String(v); }, removeItem: (k) => { delete s[k]; },
			clear: () => { for (const k of Object.keys(s)) delete s[k]; }, key: (i) => Object.keys(s)[i] ?? null,
		};
		return new Proxy(api, {
			get: (t, k) => (k === "length" ? Object.keys(s).length : k in t ? t[k] : typeof k === "string" && Object.hasOwn(s, k) ? s[k] : undefined),
			set: (t, k, v) => { s[k] = String(v); return true; },
			deleteProperty: (t, k) => { delete s[k]; return true; },
			has: (t, k) => k in t || Object.hasOwn(s, k),
		});
	};
	const RealDate = global.Date;
	class SimDate extends RealDate { constructor(...a) { if (a.length) super(...a); else super(host.wall()); } static now() { return host.wall(); } }
	// A small generator for Math.random, seeded per page.
	let rs = host.seed >>> 0 || 1;
	global.Math.random = () => { rs ^= rs << 13; rs >>>= 0; rs ^= rs >>> 17; rs ^= rs << 5; rs >>>= 0; return rs / 4294967296; };

	Object.assign(global, {
		window: global, self: global, top: global, parent: global, frames: global, document, navigator: { userAgent: "Mozilla/5.0 (simulated)", language: "en-US", languages: ["en-US"], onLine: true, platform: "Linux" },
		history: { length: 1, state: null, pushState(s, t, u) { if (u !== undefined) host.setUrl(host.resolve(String(u))); }, replaceState(s, t, u) { if (u !== undefined) host.setUrl(host.resolve(String(u))); }, back() {}, forward() {}, go() {} },
		localStorage: storage(host.local), sessionStorage: storage(host.session),
		alert: (m) => host.log("alert", String(m)), confirm: () => true, prompt: () => null,
		console: Object.fromEntries("log debug info warn error trace dir table group groupEnd groupCollapsed time timeEnd assert count".split(" ").map((k) => [k, (...a) => host.console(k, a)])),
		setTimeout: (f, ms, ...a) => host.setTimer(typeof f === "function" ? () => f(...a) : () => {}, ms), clearTimeout: (i) => host.clearTimer(i),
		setInterval: (f, ms, ...a) => host.setTimer(() => f(...a), ms, true), clearInterval: (i) => host.clearTimer(i),
		requestAnimationFrame: (f) => host.setTimer(() => f(host.now()), 16), cancelAnimationFrame: (i) => host.clearTimer(i),
		requestIdleCallback: (f) => host.setTimer(() => f({ didTimeout: false, timeRemaining: () => 10 }), 1), cancelIdleCallback: (i) => host.clearTimer(i),
		performance: { now: () => host.now(), mark() {}, measure() {}, timing: {}, timeOrigin: 0 },
		getComputedStyle: (e) => new Proxy(e.style || {}, { get: (t, k) => (k === "getPropertyValue" ? (n) => t[camel(n)] || (n === "display" ? "block" : "") : t[k] || (k === "display" ? "block" : "")) }),
		matchMedia: () => ({ matches: false, media: "", addEventListener() {}, removeEventListener() {}, addListener() {}, removeListener() {} }),
		open: (u) => { host.navigate(String(u)); return null; }, scrollTo() {}, scroll() {}, scrollBy() {}, focus() {}, blur() {}, stop() {}, print() {}, close() {},
		innerWidth: 1280, innerHeight: 800, outerWidth: 1280, outerHeight: 800, devicePixelRatio: 1, pageXOffset: 0, pageYOffset: 0, scrollX: 0, scrollY: 0, screen: { width: 1280, height: 800 },
		Event, CustomEvent, UIEvent: Event, MouseEvent: Event, KeyboardEvent: Event, InputEvent: Event, PageTransitionEvent: Event, EventTarget, Node, Element, HTMLElement, HTMLSelectElement, HTMLOptionElement, HTMLInputElement, HTMLAnchorElement, HTMLFormElement, HTMLTableElement,
		Text, Comment, DocumentFragment, Document, HTMLDocument: Document, Option, XMLHttpRequest, fetch, Response, Headers, AbortController, AbortSignal, Date: SimDate,
		Image: function () { return create("img"); },
		DOMParser: class { parseFromString(s) { const d = new Document(); build(d, s); return d; } },
		MutationObserver: class { observe() {} disconnect() {} takeRecords() { return []; } }, IntersectionObserver: class { observe() {} disconnect() {} unobserve() {} }, ResizeObserver: class { observe() {} disconnect() {} unobserve() {} },
		CSS: { escape: (s) => String(s).replace(/[^a-zA-Z0-9_\u0080-\uffff-]/g, "\\$&") },
		CSSStyleDeclaration: Style,
	});
	for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) global[k] = function (...a) { return EventTarget.prototype[k].apply(global, a); };
	Object.defineProperty(global, "location", { get: () => location, set: (v) => host.navigate(String(v)), configurable: false, enumerable: true });

	function build(d, src) {
		const f = new DocumentFragment();
		parse(src, f);
		const h = f.children.find((c) => c.localName === "html") || create("html");
		for (const c of f.childNodes.slice()) if (c !== h && c.nodeType === 1) h.appendChild(c);
		d.appendChild(h);
		if (!d.head) h.insertBefore(create("head"), h.firstChild);
		if (!d.body) { const b = create("body"); for (const c of h.childNodes.slice()) if (c.localName !== "head") b.appendChild(c); h.appendChild(b); }
	}
	global.__page = {
		build: (src) => build(document, src),
		event: (target, type, o) => target.dispatchEvent(new Event(type, { bubbles: true, cancelable: true, ...o })),
		windowEvent: (type, o) => EventTarget.prototype.dispatchEvent.call(global, new Event(type, o)),
		ready: (s) => { document.readyState = s; document.dispatchEvent(new Event("readystatechange")); },
	};
})(globalThis, __host);
