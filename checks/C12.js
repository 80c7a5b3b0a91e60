'use strict';
const R = require('../lib/ref'), F = require('../lib/fid'), W = require('../lib/work'), K = require('../lib/wlk'), J = require('../lib/rej'), T = require('../lib/tswork'), fs = require('fs'); const { shrink } = require('../lib/shrink');
const arg = c => ({ op: 'walk', src: c.src, ...R.MODES[c.mode], arg: { stop: c.stop || 0, path: true } });
function judge(c, o) {
  let ast; try { ast = K.parse(c.src, c.mode); } catch { return { skip: 'reference rejects' }; }
  if (F.outside(c.src, ast)) return { skip: 'outside of the language claimed' };
  const x = F.died(o); if (x) return { bad: x, cls: 'died ' + x.slice(0, 60) };
  if (!o.ok) return { skip: 'rejected' };
  const exp = K.expected(ast, c.src);
  if (c.stop) {
    // nothing is entered after the walk was stopped; what was entered before is a prefix
    const late = o.val.slice(c.stop).find(e => e[0] === 'b');
    if (late) return { bad: `the walk was stopped at event ${c.stop} (${o.val[c.stop - 1].slice(0, 5)}) and ${late[2]}@${late[3]} was entered afterwards`, cls: 'STOP' };
    return { n: o.val.length, stopped: 1 };
  }
  const ob = K.observed(o.val); if (ob.bad) return { bad: ob.bad, cls: 'EVENTS ' + ob.cls };
  const d = K.treeDiff(exp, ob.root); if (d) return { bad: d, cls: 'TREE ' + d.replace(/[@ ]\d+(-\d+)?/g, '').split('/').slice(-1)[0] };
  return { n: o.val.length };
}
// TypeScript: what the walk enters against what the nodes hold
const targ = c => ({ op: 'walkr', src: c.src, ...T.feat(c) });
function tjudge(c, o) {
  const x = F.died(o); if (x) return { bad: x, cls: 'died ' + x.slice(0, 60) };
  if (!o.ok) return { skip: 'rejected' };
  if (o.val.bad.length) { const b = o.val.bad[0]; return { bad: `${b[1]} ${b[0]} ${b[2]}`, cls: 'TS ' + b[0] + ' ' + b[1].replace(/@.*/, '') }; }
  return { n: o.val.nodes, kinds: Object.keys(o.val.kinds), walks: o.val.walks };
}
async function trun(ctx, d, cases) {
  await d.all(cases, targ, async (c, o) => {
    ctx.ev(); const v = tjudge(c, o);
    if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
    if (v.bad) {
      if (ctx.viol.length > 12) { ctx.stat('violations'); return; }
      const small = await shrink(c.src, async s => { const e = { ...c, src: s }; return tjudge(e, await d.req(targ(e))).cls === v.cls; }, 300);
      const w = tjudge({ ...c, src: small }, await d.req(targ({ ...c, src: small })));
      ctx.violation({ key: 'ts:' + small, cls: v.cls, what: `[ts ${c.mode}] ${JSON.stringify(small).slice(0, 200)}: ${w.bad || v.bad}`, src: small, mode: c.mode, ts: true, dts: c.dts, orig: c.src.slice(0, 5000) }); return;
    }
    ctx.stat('TypeScript programs walked'); ctx.stat('TypeScript nodes entered', v.n); ctx.stat('walks of type annotations', v.walks - 1); if (v.n > 4) ctx.distinct('ts' + c.mode + c.src);
  }, 16);
}
async function run(ctx, d, cases) {
  await d.all(cases, arg, async (c, o) => {
    ctx.ev(); const v = judge(c, o);
    if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
    if (v.bad) {
      if (ctx.viol.length > 12) { ctx.stat('violations'); return; }
      const small = c.stop ? c.src : await shrink(c.src, async s => { const e = { ...c, src: s }; return judge(e, await d.req(arg(e))).cls === v.cls; }, 300);
      ctx.violation({ key: c.mode + ':' + small + (c.stop ? '@' + c.stop : ''), cls: v.cls, what: `[${c.mode}] ${JSON.stringify(small).slice(0, 200)}: ${v.bad}`, src: small, mode: c.mode, stop: c.stop, orig: c.src }); return;
    }
    ctx.stat(v.stopped ? 'stopped walks' : 'walks compared'); ctx.stat('events observed', v.n); if (v.n > 8) ctx.distinct(c.mode + c.src + (c.stop || '')); if (c.src.length < 200 && v.n > 20) ctx.sample(c.src);
  }, 16);
}
module.exports = {
  rule: 'walks of generated programs (with and without JSX), snippets, fragments in contexts and real files, all events recorded; walks stopped at a random event; a case counts when the tree spelled by the events was compared with the tree of the reference parser; TypeScript programs and each of their type annotations walked, what was entered compared with what the nodes hold',
  need: { 'walks compared': 5000, 'stopped walks': 1000, 'TypeScript programs walked': 1500, 'walks of type annotations': 3000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = []; const seed = 'C12|' + ctx.seed;
    for (const i of ctx.range(ctx.n(8000, 80000))) { const jsx = i % 3 === 0; const g = W.genProgram(seed, i, { gen: { jsx } }); const mode = (jsx ? 'jsx' : '') + g.mode; cases.push({ src: g.src, mode }); cases.push({ src: g.src, mode, stop: 1 + g.rng.int(g.rng.pick([6, 20, 80])) }); }
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) for (const mode of ['script', 'module', 'jsxmodule']) { cases.push({ src: s.src, mode }); for (let k = 1; k < 12; k += 2) if (s.src.length < 60) cases.push({ src: s.src, mode, stop: k }); } });
    let k = 0; for (const c of J.fragCells()) if (ctx.mine(k++)) for (const mode of ['script', 'module']) cases.push({ src: c.src, mode });
    const files = W.realFiles(); const step = Math.max(1, Math.floor(files.length / ctx.n(250, 3000)));
    files.filter((f, i) => i % step === ((ctx.seed + 5) % step)).forEach((f, i) => { if (!ctx.mine(i)) return; const src = fs.readFileSync(f, 'utf8'); if (src.startsWith('#!') || src.includes('\ufffd')) return; const m = ['script', 'module'].find(m => F.ref(src, m).ast); if (m) cases.push({ src, mode: m }); });
    await run(ctx, d, cases);
    await trun(ctx, d, T.cases(ctx, ctx.n(400, 4000)));
  },
  async replay(c, ctx) { const d = ctx.driver(); if (c.ts) { const v = tjudge(c, await d.req(targ(c))); console.log(c.src, v); if (v.bad) ctx.violation({ key: 'ts:' + c.src, what: v.bad }); return; } const v = judge(c, await d.req(arg(c))); console.log(JSON.stringify(c.src), c.mode, c.stop || '', v); if (v.bad) ctx.violation({ key: c.mode + ':' + c.src + (c.stop ? '@' + c.stop : ''), what: v.bad }); },
};
