// Stubs of the third-party plugins that the pages load from CDNs. They keep to the documented interface that matters here.
"use strict";
(function ($) {
	if (!$) return;
	$.fn.select2 = function () { return this; };
	function api(table, rows) {
		const list = [];
		const all = () => list;
		const body = () => {
			let b = table.find("tbody");
			if (!b.length) { table.append("<tbody></tbody>"); b = table.find("tbody"); }
			return b[0];
		};
		const make = (data) => {
			const tr = document.createElement("tr");
			for (const v of Array.isArray(data) ? data : Object.values(data)) {
				const td = document.createElement("td");
				td.innerHTML = String(v);
				tr.appendChild(td);
			}
			return { tr, data, drawn: false };
		};
		const draw = () => { for (const r of list) if (!r.drawn) { r.drawn = true; body().appendChild(r.tr); } };
		const one = (r) => ({
			node: () => (r ? r.tr : null), data: () => (r ? r.data : undefined), draw() { draw(); return this; }, select() { return this; }, deselect() { return this; },
			remove() { const i = list.indexOf(r); if (i >= 0) { list.splice(i, 1); r.tr.remove(); } return this; }, index: () => list.indexOf(r), any: () => !!r, length: r ? 1 : 0,
		});
		const many = (rs) => ({
			nodes: () => { const v = rs.map((r) => r.tr); v.to$ = () => $(v); v.toArray = () => v.slice(); return v; }, data: () => ({ toArray: () => rs.map((r) => r.data), each(f) { rs.forEach((r, i) => f(r.data, i)); } }),
			draw() { draw(); return this; }, every(f) { rs.forEach((r) => f.call(one(r))); return this; }, count: () => rs.length, remove() { for (const r of rs) one(r).remove(); return this; }, select() { return this; }, deselect() { return this; },
		});
		const find = (s) => (typeof s === "number" ? list[s] : s && s.nodeType ? list.find((r) => r.tr === s) : s === undefined ? list[0] : list.find((r) => $(r.tr).is(s)));
		const t = {
			row: Object.assign((s) => one(find(s)), { add(d) { const r = make(d); list.push(r); return one(r); } }),
			rows: Object.assign((s) => many(s === undefined ? all().slice() : list.filter((r) => $(r.tr).is(s))), { add(ds) { const rs = ds.map(make); list.push(...rs); return many(rs); } }),
			draw() { draw(); return t; }, clear() { for (const r of list) r.tr.remove(); list.length = 0; return t; }, order() { return t; }, search() { return t; }, on(...a) { table.on(...a); return t; }, off(...a) { table.off(...a); return t; },
			column: () => ({ visible() { return t; }, search() { return t; }, data: () => [] }), columns: () => ({ adjust() { return t; } }), page: Object.assign(() => t, { len: () => t }), destroy() {}, table: () => ({ node: () => table[0] }), data: () => list.map((r) => r.data), settings: () => [], buttons: () => ({ container: () => $() }), responsive: { recalc() {} },
		};
		for (const tr of table.find("tbody tr").toArray()) list.push({ tr, data: $(tr).children().toArray().map((c) => c.innerHTML), drawn: true });
		return t;
	}
	$.fn.DataTable = function () { if (!this[0]) return api($(document.createElement("table"))); return (this[0]._dt ||= api(this)); };
	$.fn.dataTable = function () { this.DataTable(); return this; };
	$.fn.dataTable.ext = { errMode: "alert" };
	$.fn.modal = $.fn.tooltip = $.fn.collapse = function () { return this; };
	globalThis.moment = (d) => ({ fromNow: () => "some time ago", format: () => String(d), toDate: () => new Date(d), unix: () => 0, isValid: () => true });
	globalThis.bootstrap = {};
})(globalThis.jQuery);
