'use strict';
const U = require('../lib/util'), { Rng } = require('../lib/rng');
function mk(r) {
  const K = r.range(1, 6), keys = Array.from({ length: K }, (_, i) => r.pick(['a', 'b', 'c', 'd']) + i + (r.bool(0.1) ? 'nil' : '')); const T = r.range(1, 10);
  return { threads: Array.from({ length: T }, () => Array.from({ length: r.range(1, 8) }, () => r.pick(keys))), types: r.range(1, 2), yield: r.int(4), lazy: r.bool(), twice: r.bool(0.3) };
}
function judge(c, o) {
  const x = U.died(o); if (x) return x; const v = o.val; const id = new Map();
  const calls = new Map(); for (const s of v.calls) { const [tag, file, code, , biz] = s.split('|'); const k = file.slice(5); calls.set(k, (calls.get(k) || 0) + 1); if (code !== 'code-' + k || biz !== k || tag !== 'p' + k.charCodeAt(0) % c.types) return `${k} was parsed with wrong arguments or by the wrong parser: ${s}`; }
  const asked = new Set(c.threads.flat());
  for (const k of asked) if (calls.get(k) !== 1) return `${k} was parsed ${calls.get(k) || 0} times`;
  for (const k of calls.keys()) if (!asked.has(k)) return `${k} was parsed but never asked for`;
  for (const row of v.answers) for (const a of row) {
    if (!a.got) return `a caller asking for ${a.key} got no answer`; if (a.id === 'unread') continue;
    if (a.key.endsWith('nil')) { if (!a.nil) return 'nil expected for ' + a.key; continue; }
    if (a.file !== 'file-' + a.key) return `a caller asking for ${a.key} got the result of ${a.file || 'nothing'}`;
    if (id.has(a.key) && id.get(a.key) !== a.id) return `callers of ${a.key} got different results`; id.set(a.key, a.id);
  }
  if (v.left) return `${v.left} goroutines of the cache remain`;
  return null;
}
module.exports = {
  rule: 'random requests of 1-10 goroutines for 1-6 keys and 1-2 parsers under the race detector, with delays in the parsers, futures read at once, late or never; a run is non-trivial when a key was asked for more than once',
  need: { 'answers': 20000, 'shared keys': 3000 },
  async shard(ctx) {
    const d = U.utilDriver(ctx, { race: true }); const cs = []; for (const i of ctx.range(ctx.n(4000, 40000))) cs.push(mk(new Rng('C19|' + ctx.seed + '|' + i)));
    await d.all(cs, c => ({ op: 'pcache', arg: c }), async (c, o) => {
      ctx.ev(); const bad = judge(c, o); if (bad) { ctx.violation({ key: JSON.stringify(c), cls: bad.replace(/[a-d]\d(nil)?/g, 'K').slice(0, 40), what: bad, c }); return; }
      const f = c.threads.flat(); ctx.stat('answers', f.length); ctx.stat('parses', o.val.calls.length); ctx.stat('shared keys', f.length > new Set(f).size ? 1 : 0);
      if (f.length > new Set(f).size) ctx.distinct(o.val.calls.join() + f.join()); ctx.sample(JSON.stringify(c.threads));
    }, 4);
  },
  async replay(c, ctx) { const d = U.utilDriver(ctx, { race: true }); for (let i = 0; i < 300 && !ctx.viol.length; i++) { const bad = judge(c.c, await d.call('pcache', c.c)); if (bad) ctx.violation({ key: 'r', what: bad }); } },
};
