'use strict';
const path = require('path'), W = require('../lib/work'), R = require('../lib/ref'), C = require('../lib/cfg'), X = require('../lib/exe'), { Rng } = require('../lib/rng');
const BIN = path.join(__dirname, '..', 'bin', 'vdrv_race');
const ENV = { GOMAXPROCS: '4', GORACE: 'halt_on_error=1 exitcode=66 atexit_sleep_ms=0' };
const arg = c => ({ op: 'conc', src: '', arg: { reqs: c.reqs, threads: c.threads, rounds: c.rounds, seed: c.s } });
function judge(o) {
  if (o.died) return { cls: 'race', bad: (/DATA RACE/.test(o.stderr || '') ? 'data race: ' : 'died: ' + o.died) + (o.stderr || '').replace(/\s+/g, ' ').slice(0, 900) };
  if (o.panic || o.hang) return { cls: 'panic', bad: String(o.panic || 'hang').slice(0, 500) };
  if (o.val.diffs.length) { const x = o.val.diffs[0]; return { cls: 'differs', i: x.i, bad: `the answer of request ${x.i} ${x.when} is ...${x.B}... instead of ...${x.A}...` }; }
  return {};
}
let snips;
function gen(seed, i) {
  const r = new Rng(seed + '|' + i), reqs = []; snips = snips || W.snips();
  for (let k = 0, n = r.range(8, 16); k < n; k++) {
    const kind = r.pick(['parse', 'parse', 'parse', 'snip', 'snip', 'ts', 'edit', 'walk', 'scope', 'cfg', 'cfg', 'exec', 'branches']);
    const s = snips[r.int(snips.length)], mode = r.pick(Object.keys(R.MODES));
    const prog = () => W.genProgram(seed, i * 100 + k);
    if (kind === 'parse') { const g = prog(); reqs.push({ op: 'parse', src: g.src, ...R.MODES[g.mode || 'script'] }); }
    else if (kind === 'snip') reqs.push({ op: 'parse', src: s.src, ...R.MODES[mode] });
    else if (kind === 'ts') reqs.push({ op: 'parse', src: s.src, off: ['JSX'], on: ['TS', 'DECORATOR'] });
    else if (kind === 'edit') reqs.push({ op: 'parse', src: W.mutate(s.src, r, 'script', r.range(1, 3)) || s.src, ...R.MODES[mode] });
    else if (kind === 'walk') { const g = prog(); reqs.push({ op: 'walk', src: g.src, ...R.MODES[g.mode || 'script'], arg: { stop: 0, path: true } }); }
    else if (kind === 'scope') { const g = prog(); reqs.push({ op: 'scope', src: g.src, ...R.MODES[g.mode || 'script'] }); }
    else if (kind === 'cfg') { const c = C.gen(seed, i * 100 + k, {}); reqs.push({ op: 'cfg', src: c.src, ...R.MODES.script }); }
    else { const c = kind === 'exec' ? X.genCase(seed, i * 100 + k) : X.genProg(seed, i * 100 + k); reqs.push({ op: kind, src: c.src, arg: c.vars.map(X.wire) }); }
  }
  return { reqs, threads: r.range(2, 4), rounds: 2, s: r.int(1e6) };
}
module.exports = {
  rule: 'batches of 8-16 jobs (parsing and converting, walking, scope and control flow analysis, evaluation; legal, broken, JSX and TypeScript sources) run alone, then from 2-4 goroutines at once in different orders under the race detector, then alone in the opposite order; every answer compared byte by byte with the first; a batch counts when jobs overlapped',
  need: { batches: 300, 'concurrent jobs': 15000, 'jobs started while another ran': 8000 },
  async shard(ctx) {
    const d = ctx.driver(BIN, ENV); const cases = [];
    for (const i of ctx.range(ctx.n(500, 8000))) cases.push(gen('C24|' + ctx.seed, i));
    await d.all(cases, arg, async (c, o) => {
      ctx.ev(); const v = judge(o);
      if (v.bad) {
        if (ctx.viol.length > 4) { ctx.stat('violations'); return; }
        ctx.violation({ key: v.cls + ' ' + (v.cls === 'differs' ? c.reqs[v.i].src.slice(0, 200) : v.bad.slice(0, 200)), cls: v.cls, what: v.bad + (v.cls === 'differs' ? ' ' + JSON.stringify(c.reqs[v.i]).slice(0, 300) : ''), c }); return;
      }
      ctx.stat('batches'); ctx.stat('jobs', c.reqs.length); ctx.stat('concurrent jobs', o.val.runs); ctx.stat('jobs started while another ran', o.val.overlaps); ctx.stat('bytes of answers', o.val.bytes);
      for (const q of c.reqs) ctx.stat('op ' + q.op); if (o.val.overlaps) ctx.distinct(JSON.stringify(c.reqs)); ctx.sample(c.reqs.map(q => q.op + ' ' + q.src.slice(0, 40)).slice(0, 3).join(' | '));
    }, 3);
  },
  async replay(f, ctx) { const d = ctx.driver(BIN, ENV); const v = judge(await d.req(arg(f.c))); console.log(v); if (v.bad) ctx.violation({ key: 'replay', what: v.bad }); },
};
