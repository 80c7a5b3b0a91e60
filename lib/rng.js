'use strict';
// deterministic PRNG (mulberry32 over a hashed seed)
function hash(s) { s = String(s); let h = 2166136261 >>> 0; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } h ^= h >>> 15; h = Math.imul(h, 2246822507); h ^= h >>> 13; return h >>> 0; }
class Rng {
  constructor(seed) { this.s = hash(seed) || 1; }
  next() { let t = this.s = (this.s + 0x6D2B79F5) | 0; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }
  int(n) { return Math.floor(this.next() * n); }
  range(a, b) { return a + this.int(b - a + 1); }
  bool(p = 0.5) { return this.next() < p; }
  pick(a) { return a[this.int(a.length)]; }
  // w: [[weight, value], ...]
  weighted(w) { let t = 0; for (const x of w) t += x[0]; let r = this.next() * t; for (const x of w) { r -= x[0]; if (r < 0) return x[1]; } return w[w.length - 1][1]; }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
}
module.exports = { Rng, hash };
