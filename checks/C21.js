'use strict';
const U = require('../lib/util'), { Rng } = require('../lib/rng');
const KEYS = ['a', 'b', 'c', 'd', '0', 'x y', 'é', ''];
function val(r, d) { const k = r.int(d > 0 ? 9 : 5); if (k < 1) return null; if (k < 2) return r.pick([0, 1, -2.5, 1e9]); if (k < 4) return r.pick(['', 's', 'é']); if (k < 5) return r.bool(); if (k < 8) return map(r, d - 1); return Array.from({ length: r.int(4) }, () => val(r, d - 1)); }
function map(r, d) { const o = {}; for (let n = r.int(4); n--;) o[r.pick(KEYS)] = val(r, d); return o; }
const isMap = v => v && typeof v === 'object' && !Array.isArray(v);
const canon = v => JSON.stringify(v, (k, x) => isMap(x) ? Object.fromEntries(Object.entries(x).sort((a, b) => a[0] < b[0] ? -1 : 1)) : x);
function flat(v, path, out) { if (isMap(v)) for (const k in v) flat(v[k], path.concat(k), out); else if (Array.isArray(v)) v.forEach((x, i) => flat(x, path.concat(String(i)), out)); else out[path.join('.')] = v; return out; }
function get(o, p) { for (const k of p) { if (!isMap(o) || o[k] === undefined || o[k] === null) return null; o = o[k]; } return o; }
function merge(d, s) { for (const k in s) { if (k in d && isMap(d[k]) && isMap(s[k])) merge(d[k], s[k]); else if (s[k] !== null) d[k] = JSON.parse(JSON.stringify(s[k])); } return d; }
function judgeObj(c, o) {
  const x = U.died(o); if (x) return x; const v = o.val;
  if (canon(v.dst0) !== canon(c.dst)) return 'reading the object changed it';
  const f = flat(c.dst, [], {});
  const amb = Object.keys(f).length !== count(c.dst);
  if (!amb && canon(v.flat) !== canon(f)) return 'FlattenMap gives ' + canon(v.flat) + ' for ' + canon(c.dst);
  if (!amb && canon(v.kv) !== canon(f)) return 'JsonToKeyPathAndVal gives ' + canon(v.kv);
  if (canon(v.get) !== canon(get(c.dst, c.path))) return `GetByPath ${c.path} gives ${canon(v.get)} for ${canon(c.dst)}`;
  const m = JSON.parse(JSON.stringify(c.dst)); for (const s of c.srcs) merge(m, s);
  if (canon(v.merged) !== canon(m)) return `MergeMaps gives ${canon(v.merged)} for ${canon(c.dst)} and ${canon(c.srcs)}`;
  if (!v.srcs) return 'MergeMaps changed its sources ' + canon(c.srcs) + ' merging to ' + canon(c.dst);
  // what the walk visits: every value below the root with its path, key, and parent
  const want = new Set(); (function go(v, p, key, par, arr) { if (p.length) want.add(JSON.stringify([p, canon(v), String(key), canon(par), String(arr)])); if (isMap(v)) for (const k in v) go(v[k], p.concat(k), k, v, false); else if (Array.isArray(v)) v.forEach((x, i) => go(x, p.concat(String(i)), i, v, true)); })(c.dst, [], null, null, false);
  const seen = new Set(); for (const row of v.visits) { const n = row.length; const k = JSON.stringify([row.slice(0, n - 4), canon(JSON.parse(row[n - 4])), row[n - 3], canon(JSON.parse(row[n - 2])), row[n - 1]]); if (!want.has(k)) return 'WalkObj visits ' + row; seen.add(k); const up = row.slice(0, n - 5); if (up.length && ![...seen].some(s => JSON.stringify(JSON.parse(s)[0]) === JSON.stringify(up))) return 'WalkObj visits ' + row + ' before what holds it'; }
  const stopped = c.stop > 0 && v.visits.length >= c.stop;
  if (stopped && v.visits.length !== c.stop) return `WalkObj goes on after the callback stopped it`;
  if (v.ret === stopped) return `WalkObj returns ${v.ret}`;
  if (!stopped && seen.size !== want.size) return `WalkObj visits ${seen.size} of ${want.size} values`;
  return null;
}
const count = v => isMap(v) ? Object.values(v).reduce((a, x) => a + count(x), 0) : Array.isArray(v) ? v.reduce((a, x) => a + count(x), 0) : 1;
const nums = r => { const o = {}; for (let n = r.int(6); n--;) o['k' + r.int(8)] = r.int(100); return o; };
const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const asc = a => a.slice().sort((x, y) => x - y);
function judgeSets(c, o) {
  const x = U.died(o); if (x) return x; const v = o.val; const n = Object.keys(c.a).length;
  if (canon(v.a) !== canon(c.a) || canon(v.b) !== canon(c.b)) return 'a map read or copied was changed';
  if (canon(v.clone) !== canon(c.a) || v.leaked) return 'CloneMap: ' + canon(v.clone);
  if (!eq(v.keys, Object.keys(c.a).sort())) return 'Keys: ' + v.keys;
  if (n ? c.a[v.pk] !== v.pv || !Object.values(c.a).includes(v.one) : v.pk !== '' || v.pv !== 0 || v.one !== 0) return 'PickOne(Pair): ' + v.pk + ' ' + v.pv + ' ' + v.one;
  if (canon(v.merged) !== canon({ ...c.b, ...c.a })) return 'Merge: ' + canon(v.merged);
  if (!eq(v.took, asc(Object.values(c.a))) || v.zero !== 0) return 'TakeOne takes ' + v.took;
  if (!eq(v.arr, c.arr)) return 'Copy shares its elements'; const sw = c.arr.slice(), rm = c.arr.slice();
  if (sw.length) { [sw[c.i], sw[c.j]] = [sw[c.j], sw[c.i]]; rm.splice(c.i, 1); }
  if (!eq(v.swapped, sw)) return 'Swap: ' + v.swapped; if (!eq(v.removed, asc(rm))) return 'RemoveAt: ' + v.removed;
  for (let i = -2; i < 8; i++) if (v.inc[i + 2] !== c.arr.includes(i)) return 'Includes ' + i; return null;
}
// OrderedMap: the order is that of the last Set of each key
function judgeOmap(c, o) {
  const x = U.died(o); if (x) return x; let m = [];
  for (let i = 0; i < c.ops.length; i++) {
    const [k, key, v] = c.ops[i], e = m.find(p => p[0] === key), g = o.val[i]; let r = 0;
    if (k === 0) { m = m.filter(p => p[0] !== key); m.push([key, v]); r = key * 1000 + v; } else if (k === 1) r = e ? e[1] : 0; else if (k === 2) r = e ? 1 : 0; else m = m.filter(p => p[0] !== key);
    if (g.r !== r) return `call ${i} ${c.ops[i]} gives ${g.r}, expected ${r}`; if (!eq(g.order, m)) return `after call ${i} ${c.ops[i]} the order is ${JSON.stringify(g.order)}, expected ${JSON.stringify(m)}`;
  } return null;
}
const J = { obj: judgeObj, sets: judgeSets, omap: judgeOmap };
module.exports = {
  rule: 'random objects, maps, slices and call sequences against models of MergeMaps, FlattenMap, GetByPath, WalkObj (with stops), OrderedMap (order after every call), and the map and slice helpers; inputs are compared before and after',
  need: { obj: 5000, sets: 3000, omap: 3000 },
  async shard(ctx) {
    const d = U.utilDriver(ctx); const cs = [];
    for (const i of ctx.range(ctx.n(36000, 360000))) {
      const r = new Rng('C21|' + ctx.seed + '|' + i); const op = ['obj', 'sets', 'omap'][Math.floor(i / 8) % 3]; let c;
      if (op === 'obj') { c = { dst: map(r, 3), srcs: Array.from({ length: r.range(1, 3) }, () => map(r, 3)), path: Array.from({ length: r.int(4) }, () => r.pick(KEYS)), stop: r.bool(0.3) ? r.range(1, 8) : 0 }; if (r.bool()) { const f = Object.keys(flat(c.dst, [], {})); if (f.length) c.path = r.pick(f).split('.'); } }
      else if (op === 'sets') { c = { a: nums(r), b: nums(r), arr: Array.from({ length: r.int(7) }, () => r.range(-2, 7)), i: 0, j: 0 }; if (c.arr.length) { c.i = r.int(c.arr.length); c.j = r.int(c.arr.length); } }
      else c = { ops: Array.from({ length: r.range(1, 40) }, (_, i) => [r.pick([0, 0, 0, 1, 2, 3]), r.int(7), i]) };
      cs.push({ op, c });
    }
    await d.all(cs, x => ({ op: x.op, arg: x.c }), async (x, o) => { ctx.ev(); const bad = J[x.op](x.c, o); if (bad) ctx.violation({ key: JSON.stringify(x), cls: x.op + bad.slice(0, 12), what: bad, ...x }); ctx.stat(x.op); ctx.distinct(JSON.stringify(x)); if (ctx.evals % 500 === 0) ctx.sample(JSON.stringify(x.c)); });
  },
  async replay(c, ctx) { const d = U.utilDriver(ctx); const bad = J[c.op](c.c, await d.call(c.op, c.c)); if (bad) ctx.violation({ key: 'r', what: bad }); },
};
