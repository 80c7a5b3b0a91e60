'use strict';
const U = require('../lib/util'), { Rng } = require('../lib/rng'); const fs = require('fs');
const GOOD = ['a', 'b', 'dir/a', 'dir/sub/b', './c', 'dir/./d', 'x/../e', 'é 中', 'package/index.js', 'a..b', '..a', 'dir/..b/f', 'dir//g', 'n'.repeat(120), 'deep/1/2/3/4/5/6'];
const EVIL = ['../evil', '../../evil', '../../../evil', 'a/../../evil', 'dir/../../../evil', '$BASE/evil', '$BASE/a/canary', '../../canary', './../evil', 'dir/sub/../../../evil', '../dst2/evil', '../dst/../evil', '..', '../', 'x/../..'];
const norm = n => { const o = []; for (const p of n.split('/')) { if (p === '' || p === '.') continue; if (p === '..') o.pop(); else o.push(p); } return o.join('/'); };
function mk(r) {
  const es = []; const n = r.range(1, 8); let evil = false;
  for (let i = 0; i < n; i++) {
    const k = r.int(20); const mode = r.pick([0o644, 0o600, 0o755, 0o640]);
    if (k < 11) es.push({ name: r.pick(GOOD), type: 'f', body: r.pick(['', 'x', 'hello\n', 'y'.repeat(70000), 'é\0z']), mode });
    else if (k < 15) es.push({ name: r.pick(['dir', 'dir/sub', 'empty/', 'p/q/r/', './d2', 'd3/']), type: 'd', mode: 0o755 });
    else if (k < 18) { evil = true; es.push({ name: r.pick(EVIL), type: r.pick(['f', 'f', 'd']), body: 'evil', mode: r.pick([0o644, 0o755]) }); }
    else { evil = true; es.push({ name: 'ln' + i, type: r.pick(['l', 'l', 'h']), link: r.pick(['..', '../..', '$BASE', '../../canary', '$BASE/a/canary', '.', 'a']), mode: 0o777 }); es.push({ name: 'ln' + i + r.pick(['', '/evil', '/a/evil']), type: 'f', body: 'evil', mode: 0o644 }); }
  }
  return { entries: es, evil, pre: r.bool(0.3) ? [r.pick(GOOD)].filter(x => !x.includes('..')) : [], trunc: r.bool(0.1) ? r.range(1, 60) : 0 };
}
// the tree which extraction of harmless entries gives, null if the entries conflict with each other
function expect(c) {
  const t = {}; const addDir = p => { const q = p.split('/'); for (let i = 1; i <= q.length; i++) { const d = q.slice(0, i).join('/'); if (!d) continue; if (typeof t[d] === 'string') return false; t[d] = null; } return true; };
  for (const f of c.pre) { const p = norm(f); if (!addDir(p.split('/').slice(0, -1).join('/')) || p in t) return null; t[p] = 'old'; }
  for (const e of c.entries) { const p = norm(e.name); if (e.type === 'd') { if (!addDir(p)) return null; } else { if (!addDir(p.split('/').slice(0, -1).join('/')) || t[p] === null) return null; t[p] = e.body; } }
  return t;
}
const canon = t => JSON.stringify(Object.entries(t).sort((a, b) => a[0] < b[0] ? -1 : 1));
function judge(c, o) {
  const x = U.died(o); if (x) return { bad: x }; const v = o.val; if (v.skip) return { skip: v.skip };
  if (v.outside.length) return { bad: 'written outside of the destination: ' + v.outside };
  if (v.fds > 0) return { bad: v.fds + ' files left open' };
  for (const k in v.tree) if (String(v.tree[k]).startsWith('link ')) { const l = v.tree[k].slice(5); if (l.startsWith('/') || norm('D/' + k + '/../' + l) === '' || /^\.\.(\/|$)/.test(l)) return { bad: `${k} is a link to ${l} outside of the destination` }; }
  if (c.trunc && v.err) return { kind: 'truncated' };
  if (c.evil) return { kind: v.err ? 'hostile refused' : 'hostile contained' };
  const t = expect(c); if (!t) return { skip: 'conflicting entries' };
  if (v.err) return { bad: 'error: ' + v.err };
  if (canon(v.tree) !== canon(t)) return { bad: 'the tree extracted is ' + canon(v.tree).slice(0, 200) + ', expected ' + canon(t).slice(0, 200) };
  return { kind: 'extracted' };
}
function drv(ctx, base) { return U.utilDriver(ctx, { env: { VUTIL_NOBODY: '1', VUTIL_SCRATCH: base } }); }
module.exports = {
  rule: 'tarballs with nested, dotted and repeated names, hostile names (parents, absolute), links and truncations, extracted as an unprivileged user in a scratch directory; what lies in and around the destination afterwards is recorded and compared with what the entries say',
  need: { extracted: 1500, 'hostile refused': 800, truncated: 100 },
  async shard(ctx) {
    const base = U.scratch(0o777);
    try {
      const d = drv(ctx, base); const cs = []; for (const i of ctx.range(ctx.n(8000, 60000))) cs.push(mk(new Rng('C22|' + ctx.seed + '|' + i)));
      await d.all(cs, c => ({ op: 'untar', arg: c }), async (c, o) => {
        ctx.ev(); const v = judge(c, o); if (v.skip) { ctx.stat('skipped'); return; }
        if (v.bad) { ctx.violation({ key: JSON.stringify(c), cls: v.bad.slice(0, 24), what: v.bad + ' for ' + c.entries.map(e => e.type + ' ' + e.name + (e.link ? ' -> ' + e.link : '')).join(', ').slice(0, 300), c }); return; }
        ctx.stat(v.kind); ctx.distinct(JSON.stringify(c.entries)); if (ctx.evals % 200 === 0) ctx.sample(v.kind + ': ' + c.entries.map(e => e.type + ' ' + e.name.slice(0, 30)).join(', '));
      }, 4);
    } finally { U.rmrf(base); }
  },
  async replay(c, ctx) { const base = U.scratch(0o777); try { const d = drv(ctx, base); const v = judge(c.c, await d.call('untar', c.c)); if (v.bad) ctx.violation({ key: 'r', what: v.bad }); } finally { U.rmrf(base); } },
};
