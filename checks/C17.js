'use strict';
const U = require('../lib/util'), { Rng } = require('../lib/rng');
// the model: keys from the least to the most recently used
function effClear(cap, clear) { if (clear === 0 || clear > cap) clear = Math.trunc(cap / 3); return clear <= 0 ? 1 : clear; }
function step(st, cap, clear, o) { // st: [[k,v]...] -> [st', result]
  const [kind, k, v] = o; const i = st.findIndex(e => e[0] === k);
  if (kind === 2) return [st, i >= 0 ? 1 : 0];
  if (kind === 1) { if (i < 0) return [st, 0]; const s = st.slice(); const [e] = s.splice(i, 1); s.push(e); return [s, e[1]]; }
  let s = st.slice();
  if (i >= 0) s.splice(i, 1);
  else if (s.length + 1 > cap) s = s.slice(clear);
  s.push([k, v]); return [s, 0];
}
// is there an order of the calls, consistent with their real-time order, which the model explains?
function linearizable(hist, cap, clear) {
  const n = hist.length, idx = new Array(n).fill(0), seen = new Set();
  let states = 0;
  return (function go(st) {
    if (idx.every((x, t) => x === hist[t].length)) return true;
    const key = idx.join() + '|' + st.join(';'); if (seen.has(key)) return false; seen.add(key); if (++states > 400000) return null;
    let first = Infinity; // the earliest response among the pending calls
    for (let t = 0; t < n; t++) if (idx[t] < hist[t].length) first = Math.min(first, hist[t][idx[t]][5]);
    for (let t = 0; t < n; t++) {
      if (idx[t] >= hist[t].length) continue; const h = hist[t][idx[t]]; if (h[4] > first) continue;
      const [s2, r] = step(st, cap, clear, h); if (r !== h[3]) continue;
      idx[t]++; const x = go(s2); idx[t]--; if (x !== false) return x;
    }
    return false;
  })([]);
}
function seqCase(r) {
  const cap = r.range(1, 9), clear = r.pick([0, 1, 2, 3, cap, cap + 1, -1, cap - 1]), keys = r.range(2, 14), ops = [];
  const n = r.range(5, 60); for (let i = 0; i < n; i++) ops.push([r.pick([0, 0, 0, 1, 1, 2]), r.int(keys), i + 1]);
  return { cap, clear, keys, ops };
}
function judgeSeq(c, o) {
  const x = U.died(o); if (x) return x; let st = []; const cl = effClear(c.cap, c.clear);
  for (let i = 0; i < c.ops.length; i++) {
    const [s, r] = step(st, c.cap, cl, c.ops[i]); st = s; const [gr, ...held] = o.val[i];
    const want = st.map(e => e[0]).sort((a, b) => a - b);
    if (gr !== r) return `call ${i} ${JSON.stringify(c.ops[i])} returned ${gr}, the model says ${r}`;
    if (held.length > c.cap) return `after call ${i} the cache holds ${held.length} elements, its capacity is ${c.cap}`;
    if (held.join() !== want.join()) return `after call ${i} ${JSON.stringify(c.ops[i])} the keys held are [${held}], the model says [${want}]`;
  }
  return null;
}
function concCase(r) {
  const cap = r.range(1, 4), clear = r.pick([0, 1, 2]), keys = r.range(1, 5), T = r.range(2, 4), threads = []; let v = 1;
  for (let t = 0; t < T; t++) { const a = [], n = r.range(3, 7); for (let i = 0; i < n; i++) a.push([r.pick([0, 0, 1, 1, 2]), r.int(keys), v++]); threads.push(a); }
  return { cap, clear, threads, seed: r.int(1e6) };
}
function judgeConc(c, o, ctx) {
  const x = U.died(o); if (x) return { bad: x };
  const l = linearizable(o.val, c.cap, effClear(c.cap, c.clear));
  let over = 0; const all = o.val.flat(); for (const a of all) for (const b of all) if (a !== b && a[4] < b[5] && b[4] < a[5]) over++;
  if (l === null) return { skip: true, over };
  return l ? { over, order: all.sort((a, b) => a[4] - b[4]).map(h => h.slice(0, 4).join()).join(';') } : { bad: 'no order of the concurrent calls explains their results: ' + JSON.stringify(o.val) };
}
module.exports = {
  rule: 'random sequences of Set, Get and HasKey against a model of the cache with the keys held observed after every call (capacities 1-9, all kinds of clear), and histories of 2-4 goroutines under the race detector, each decided by a search for a linearization; a concurrent history is non-trivial when calls overlapped',
  need: { 'calls checked': 50000, 'histories with overlapping calls': 200 },
  async shard(ctx) {
    const d = U.utilDriver(ctx, { race: true }); const cs = [];
    for (const i of ctx.range(ctx.n(6000, 60000))) cs.push(seqCase(new Rng('C17s|' + ctx.seed + '|' + i)));
    await d.all(cs, c => ({ op: 'lru', arg: c }), async (c, o) => {
      ctx.ev(); const bad = judgeSeq(c, o); ctx.stat('calls checked', c.ops.length); ctx.distinct(JSON.stringify(c));
      if (bad) ctx.violation({ key: 'seq ' + JSON.stringify(c), cls: 'seq', what: `cap=${c.cap} clear=${c.clear}: ${bad}`, c, kind: 'seq' });
    });
    const cc = []; for (const i of ctx.range(ctx.n(12000, 80000))) cc.push(concCase(new Rng('C17c|' + ctx.seed + '|' + i)));
    await d.all(cc, c => ({ op: 'lruc', arg: c }), async (c, o) => {
      ctx.ev(); const v = judgeConc(c, o); if (v.skip) { ctx.stat('search given up'); return; }
      if (v.bad) { ctx.violation({ key: 'conc ' + JSON.stringify(c), cls: 'conc ' + v.bad.slice(0, 12), what: `cap=${c.cap} clear=${c.clear}: ${v.bad}`, c, kind: 'conc' }); return; }
      ctx.stat('histories'); if (v.over) { ctx.stat('histories with overlapping calls'); ctx.stat('overlapping pairs', v.over); ctx.distinct(v.order); ctx.sample(v.order); }
    }, 4);
  },
  async replay(c, ctx) {
    const d = U.utilDriver(ctx, { race: true });
    for (let i = 0; i < (c.kind === 'seq' ? 1 : 300) && !ctx.viol.length; i++) {
      const o = await d.call(c.kind === 'seq' ? 'lru' : 'lruc', c.c); const bad = c.kind === 'seq' ? judgeSeq(c.c, o) : judgeConc(c.c, o).bad;
      if (bad) ctx.violation({ key: 'r', what: bad });
    }
  },
};
