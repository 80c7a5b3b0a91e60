'use strict';
const J = require('../lib/cfgj'), C = J.C;
const RUNS = 15;
const STATIC = ['class A{static{$(1)}}$(2)', 'class A{static{$(1);$(2)}}$(3)', 'class A{static{if($(1))$(2)}}$(3)'];
module.exports = {
  rule: 'programs made of markers run for real with random answers and with exceptions thrown out of markers; every step of every execution was looked up in the control flow graph; a case counts when at least 20 steps of it were looked up',
  need: { 'programs judged': 5000, 'steps looked up': 300000, 'steps by an exception': 5000, 'executions to the end': 20000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = [];
    for (const i of ctx.range(ctx.n(40000, 150000))) cases.push(C.gen('C13|' + ctx.seed, i, { without: i % 3 ? ['finally'] : ['finally', 'more'], forms: i % 2 === 0 }));
    for (const src of STATIC) cases.push({ src, frag: src });
    await d.all(cases, J.arg, async (c, o) => {
      ctx.ev(); const v = J.paths(c, o, RUNS);
      if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
      if (v.bad) {
        if (c.frag && ctx.isKnown({ frag: c.frag, cls: v.cls })) return;
        if (ctx.viol.length > 8) { ctx.stat('violations'); return; }
        const src = await C.reduce(c, async s => { const e = { ...c, src: s }; return J.paths(e, await d.req(J.arg(e)), RUNS).cls === v.cls; });
        const w = J.paths({ ...c, src }, await d.req(J.arg({ ...c, src })), RUNS);
        ctx.violation({ key: src, cls: v.cls, what: `${JSON.stringify(src).slice(0, 300)}: ${w.bad || v.bad}`, src, fn: c.fn, orig: c.src }); return;
      }
      ctx.stat('programs judged'); ctx.stat('steps looked up', v.n); ctx.stat('steps by an exception', v.ex); ctx.stat('executions to the end', v.ends); ctx.stat('different steps', v.kinds);
      if (v.n >= 20) ctx.distinct(c.src); if (v.n > 100 && c.src.length < 200) ctx.sample(c.src);
    }, 16);
  },
  async replay(c, ctx) { const d = ctx.driver(); const v = J.paths(c, await d.req(J.arg(c)), RUNS); console.log(c.src, v); if (v.bad) ctx.violation({ key: c.src, what: v.bad }); },
};
