// Seeded numbers: one seed, one stream.
export function mix(a, b) {
	let h = (Math.imul(a ^ 0x9e3779b9, 0x85ebca6b) ^ Math.imul((b + 0x7f4a7c15) | 0, 0xc2b2ae35)) >>> 0;
	h ^= h >>> 16; h = Math.imul(h, 0x7feb352d); h ^= h >>> 15; h = Math.imul(h, 0x846ca68b); h ^= h >>> 16;
	return h >>> 0;
}
export class Rng {
	constructor(seed) { this.s = seed >>> 0; }
	next() {
		this.s = (this.s + 0x6d2b79f5) >>> 0;
		let t = this.s;
		t = Math.imul(t ^ (t >>> 15), t | 1);
		t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
		return (t ^ (t >>> 14)) >>> 0;
	}
	below(n) { return n > 0 ? this.next() % n : 0; }
	range(a, b) { return a + this.below(b - a + 1); }
	pm(p) { return this.below(1000) < p; }
	pick(v) { return v[this.below(v.length)]; }
	shuffle(v) { for (let i = v.length - 1; i > 0; i--) { const j = this.below(i + 1); [v[i], v[j]] = [v[j], v[i]]; } return v; }
}
export function digest(s) {
	let a = 0x811c9dc5, b = 0x1234567;
	for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193) >>> 0; b = (Math.imul(b ^ c, 0x5bd1e995) + (b >>> 13)) >>> 0; }
	return a.toString(16).padStart(8, "0") + b.toString(16).padStart(8, "0");
}
