'use strict';
const R = require('../lib/ref'), F = require('../lib/fid'), W = require('../lib/work'), T = require('../lib/tswork'), J = require('../lib/rej'); const { shrink } = require('../lib/shrink');
const arg = c => ({ op: 'walkl', src: c.src, ...(c.ts ? T.feat(c) : R.MODES[c.mode]), arg: { rm: c.rm, prune: c.prune, first: c.first } });
function judge(c, o) {
  const x = F.died(o); if (x) return { bad: x, cls: 'died ' + x.slice(0, 60) };
  if (!o.ok) return { skip: 'rejected' };
  if (o.val.bad.length) return { bad: o.val.bad[0], cls: o.val.bad[0].replace(/@\d+/g, '') };
  return { n: o.val.calls, types: o.val.types };
}
module.exports = {
  rule: 'walks of generated programs, fragments and snippets, JavaScript, JSX and TypeScript, each with several listeners for all nodes and listeners for every type of node met, added in either order, one removed, one refused, one visitor replaced; every call recorded; a case counts when its calls were compared with the registrations',
  need: { 'programs': 5000, 'calls of listeners': 500000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = []; const seed = 'C25|' + ctx.seed; let n = 0;
    const add = c => { n++; cases.push({ ...c, rm: n % 11, prune: 1 + n % 13, first: n % 2 === 0 }); };
    for (const i of ctx.range(ctx.n(5000, 60000))) { const jsx = i % 3 === 0; const g = W.genProgram(seed, i, { gen: { jsx } }); add({ src: g.src, mode: (jsx ? 'jsx' : '') + g.mode }); }
    let k = 0; for (const c of J.fragCells()) if (ctx.mine(k++) && k % ctx.n(4, 1) === 0) add({ src: c.src, mode: 'script' });
    for (const c of T.cases(ctx, ctx.n(100, 2000), 3)) add({ ...c, ts: true });
    await d.all(cases, arg, async (c, o) => {
      ctx.ev(); const v = judge(c, o);
      if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
      if (v.bad) {
        if (ctx.viol.length > 8) { ctx.stat('violations'); return; }
        const small = await shrink(c.src, async s => { const e = { ...c, src: s }; return judge(e, await d.req(arg(e))).cls === v.cls; }, 200);
        ctx.violation({ key: small, cls: v.cls, what: `${JSON.stringify(small).slice(0, 200)}: ${v.bad}`, ...c, src: small, orig: c.src.slice(0, 5000) }); return;
      }
      ctx.stat('programs'); ctx.stat('calls of listeners', v.n); ctx.stat('types of nodes with listeners of their own', v.types); if (v.types > 3) ctx.distinct(c.mode + c.src); if (c.src.length < 100 && v.types > 8) ctx.sample(c.src);
    }, 16);
  },
  async replay(c, ctx) { const d = ctx.driver(); const v = judge(c, await d.req(arg(c))); console.log(c.src, v); if (v.bad) ctx.violation({ key: c.src, what: v.bad }); },
};
