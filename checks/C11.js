'use strict';
const R = require('../lib/ref'), F = require('../lib/fid'), W = require('../lib/work'), S = require('../lib/sco'), P = require('../lib/scp'), J = require('../lib/rej'), fs = require('fs'); const { shrink } = require('../lib/shrink');
const arg = c => ({ op: 'scope', src: c.src, ...R.MODES[c.mode] });
function judge(c, o) { const x = F.died(o); if (x) return { bad: x, cls: 'died' }; return S.judge(c.src, c.mode, o); }
module.exports = {
  rule: 'programs dense in declarations and references of few names (shadowing, hoisting, closures, classes, patterns, loops, catch clauses, modules), generated programs, snippets, fragments in contexts and real files; a case counts when the binding of each of its references was compared with the reference resolution',
  need: { 'programs compared': 20000, 'references bound': 300000, 'references free': 50000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = [];
    for (const i of ctx.range(ctx.n(24000, 300000))) cases.push(P.gen('C11|' + ctx.seed, i, { module: i % 2 === 0, with: i % 7 === 1 }));
    for (const i of ctx.range(ctx.n(4000, 40000))) { const g = W.genProgram('C11g|' + ctx.seed, i, { gen: {} }); cases.push({ src: g.src, mode: g.mode }); }
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) for (const mode of ['script', 'module']) cases.push({ src: s.src, mode }); });
    let k = 0; for (const c of J.fragCells()) if (ctx.mine(k++)) for (const mode of ['script', 'module']) cases.push({ src: c.src, mode });
    const files = W.realFiles(); const step = Math.max(1, Math.floor(files.length / ctx.n(250, 3000)));
    files.filter((f, i) => i % step === ((ctx.seed + 9) % step)).forEach((f, i) => { if (!ctx.mine(i)) return; const src = fs.readFileSync(f, 'utf8'); if (src.startsWith('#!') || src.includes('\ufffd')) return; const m = ['script', 'module'].find(m => F.ref(src, m).ast); if (m) cases.push({ src, mode: m, real: 1 }); });
    await d.all(cases, arg, async (c, o) => {
      ctx.ev(); const v = judge(c, o); if (typeof v.skip === 'string') { ctx.stat('skipped: ' + v.skip); return; }
      if (v.bad) {
        if (ctx.viol.length > 12) { ctx.stat('violations'); return; }
        const small = c.real ? c.src : await shrink(c.src, async s => { const e = { ...c, src: s }; return judge(e, await d.req(arg(e))).cls === v.cls; }, 400);
        const w = judge({ ...c, src: small }, await d.req(arg({ ...c, src: small })));
        ctx.violation({ key: c.mode + ':' + small, cls: v.cls, what: `[${c.mode}] ${JSON.stringify(small).slice(0, 200)}: ${w.bad || v.bad}`, src: small, mode: c.mode, orig: c.src }); return;
      }
      ctx.stat('programs compared'); if (c.real) ctx.stat('real files compared'); ctx.stat('references bound', v.bound); ctx.stat('references free', v.free); for (const k in v.skip) ctx.stat('not claimed: ' + k, v.skip[k]);
      if (v.n > 1) ctx.distinct(c.mode + c.src); if (c.src.length < 200 && v.bound > 4) ctx.sample(c.src);
    }, 16);
  },
  async replay(c, ctx) { const d = ctx.driver(); const v = judge(c, await d.req(arg(c))); console.log(JSON.stringify(c.src), c.mode, v); if (v.bad) ctx.violation({ key: c.mode + ':' + c.src, what: v.bad }); },
};
