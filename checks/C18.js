'use strict';
const U = require('../lib/util'), { Rng } = require('../lib/rng');
const NAMES = ['a', 'b', 'B', 'c1', 'c10', 'c2', '.hid', 'z z', 'é', '中', '-x', '_', 'node_modules', 'x.js', 'x.d.ts', 'A', '..x'];
function tree(r, o) {
  const dirs = ['r'], files = [], links = []; const used = new Set(['r']);
  const n = r.range(0, o.size);
  for (let i = 0; i < n; i++) {
    const p = (r.bool(0.5) ? dirs[dirs.length - 1] : r.pick(dirs)) + '/' + r.pick(NAMES) + (r.bool(0.3) ? r.int(30) : ''); if (used.has(p)) continue; used.add(p);
    const k = r.int(20); if (k < 9) dirs.push(p); else if (k < 19) files.push(p); else links.push(p + '=' + r.pick(['.', '..', 'nowhere', '/dev/null']));
  }
  return { dirs, files, links };
}
function mk(r, kind) {
  const t = tree(r, { size: kind === 'big' ? 250 : 40 });
  const c = { ...t, root: 'r', concurrent: r.pick([1, 1, 2, 3, 4, 8, 16, 0]), yield: r.bool(0.6) ? 1 + r.int(1e6) : 0, kind };
  const total = t.dirs.length + t.files.length + t.links.length;
  if (kind === 'stop') { c.stopAt = [r.int(total)]; while (r.bool(0.5)) c.stopAt.push(r.int(total)); if (r.bool(0.2)) c.stopAt = Array.from({ length: total }, (_, i) => i).slice(r.int(total)); }
  if (kind === 'outside') { c.stopOutside = r.range(1, Math.max(1, total - 1)); }
  if (kind === 'missing') { c.root = 'nowhere'; }
  if (kind === 'file') { c.files.push('f'); c.root = 'f'; }
  if (kind === 'remove') { // a directory disappears while it is pending: the handle of a file listed before it removes it
    const ds = t.dirs.slice(1); if (!ds.length) return null; const x = r.pick(ds); const f = x.slice(0, x.lastIndexOf('/')) + '/!rm'; c.files.push(f); c.remove = { [f]: x }; c.gone = x;
  }
  return c;
}
const cmp = (a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b));
function judge(c, o) {
  const x = U.died(o); if (x) return x; const v = o.val;
  if (v.hang) return 'Walk did not return: ' + v.stacks.replace(/\s+/g, ' ').slice(0, 500);
  if (v.late) return `${v.late} entries were handled after Walk had returned`;
  if (v.over) return `${v.over} handles were running when Walk returned`;
  if (v.left) return `${v.left} goroutines of the walker remain`;
  const kind = new Map(); for (const d of c.dirs) kind.set(d, true); for (const f of c.files) kind.set(f, false); for (const l of c.links) kind.set(l.slice(0, l.lastIndexOf('=')), false);
  const pos = new Map();
  for (const [p, dir] of v.events) {
    if (pos.has(p)) return `${p} was handled twice`;
    if (kind.get(p) !== dir) return `${p} was handled as a ${dir ? 'directory' : 'file'}`;
    const up = p.slice(0, p.lastIndexOf('/'));
    if (p !== c.root && !pos.has(up)) return `${p} was handled before its directory`;
    pos.set(p, pos.size);
  }
  // the files of a directory come in lexical order
  const by = new Map(); for (const [p, dir] of v.events) if (!dir) { const up = p.slice(0, p.lastIndexOf('/')), last = by.get(up); if (last && cmp(last, p) > 0) return `${p} was handled after ${last}`; by.set(up, p); }
  const stops = (c.stopAt || []).filter(i => i < v.events.length);
  if (c.kind === 'missing' || c.kind === 'file') { if (!v.hasErr) return 'no error for a root which cannot be read'; return v.events.length ? 'events for an unreadable root' : null; }
  if (c.kind === 'stop') {
    if (!stops.length) return v.hasErr ? 'error without a stop: ' + v.err : null;
    if (!v.hasErr || !stops.some(i => v.err === 'stop ' + i)) return `stopped at ${stops} but Err is ${v.err || 'nil'}`; return null;
  }
  if (c.kind === 'outside') { if (v.hasErr && v.err !== 'stop outside') return 'Err is ' + v.err; if (v.hasErr) return null; }
  if (c.kind === 'remove') { if (!v.hasErr && !pos.has(c.gone)) return `the directory ${c.gone} disappeared, it could not be read but Err is nil`; return !v.hasErr || v.err.includes(c.gone) ? null : 'Err does not name the directory: ' + v.err; }
  if (v.hasErr) return 'Err is ' + v.err;
  for (const p of kind.keys()) if (p.startsWith(c.root) && !pos.has(p)) return `${p} was never handled`;
  return null;
}
module.exports = {
  rule: 'random trees in a scratch directory (up to 250 entries, odd names, symbolic links) walked by 1-16 workers under the race detector with random delays in the handle: complete walks, stops from handles (one, many, all at once) and from other goroutines, missing roots, directories which disappear while pending; every event is recorded and judged; a walk is non-trivial with more than 3 events',
  need: { 'complete walks': 800, 'stopped walks': 300, 'failed walks': 100 },
  async shard(ctx) {
    const base = U.scratch();
    try {
      const d = U.utilDriver(ctx, { race: true }); const cs = [];
      for (const i of ctx.range(ctx.n(5000, 50000))) { const r = new Rng('C18|' + ctx.seed + '|' + i); const c = mk(r, r.pick(['all', 'all', 'big', 'stop', 'stop', 'outside', 'remove', 'missing', 'file'])); if (c) cs.push({ ...c, base }); }
      await d.all(cs, c => ({ op: 'walkdir', arg: c }), async (c, o) => {
        ctx.ev(); const bad = judge(c, o);
        if (bad) { ctx.violation({ key: JSON.stringify({ ...c, base: '' }), cls: c.kind + ' ' + bad.replace(/[^ ]*\/[^ ]*/g, '').slice(0, 40), what: `${c.kind} walk, ${c.concurrent} workers: ${bad}`, c }); return; }
        ctx.stat(o.val.hasErr ? (c.kind === 'stop' || c.kind === 'outside' ? 'stopped walks' : 'failed walks') : 'complete walks'); ctx.stat('events', o.val.events.length);
        if (o.val.par > 1) ctx.stat('walks with handles running in parallel');
        if (o.val.events.length > 3) { ctx.distinct(o.val.events.map(e => e[0]).join()); ctx.sample(c.kind + ' ' + o.val.events.slice(0, 12).map(e => e[0]).join(' ')); }
      }, 4);
    } finally { U.rmrf(base); }
  },
  async replay(c, ctx) {
    const base = U.scratch(); try { const d = U.utilDriver(ctx, { race: true }); for (let i = 0; i < 200 && !ctx.viol.length; i++) { const bad = judge(c.c, await d.call('walkdir', { ...c.c, base })); if (bad) ctx.violation({ key: 'r', what: bad }); } } finally { U.rmrf(base); }
  },
};
