'use strict';
const X = require('../lib/exe');
const arg = c => ({ op: 'branches', src: c.src, arg: c.wire });
function prep(c) {
  let n = 0; const want = c.vars.map(v => { const log = []; try { c.run(X.jsv(v), log); n++; return log.map(String); } catch (e) { if (e instanceof X.Skip) return null; throw e; } });
  return { src: c.src, wire: c.vars.map(X.wire), want, n };
}
function judge(c, o) {
  if (o.panic || o.died || o.hang) return { cls: 'crash', bad: 'fails: ' + String(o.panic || o.died || 'hang').slice(0, 200) };
  if (!o.ok) return { cls: 'reject', bad: 'not parsed: ' + JSON.stringify(o.err) };
  for (let i = 0; i < c.want.length; i++) if (c.want[i]) {
    const got = o.val[i].filter(t => /^1\d{3}$/.test(t));
    if (got.join() !== c.want[i].join()) return { cls: 'calls', bad: `collected [${got}] while the execution calls [${c.want[i]}] with ${JSON.stringify(c.wire[i])}` };
  }
  return {};
}
module.exports = {
  rule: 'programs of nested if, conditional and short-circuit expressions whose branches hold numbered calls; the calls collected for given variables compared in order with the calls an execution makes; a case counts when it makes at least one call and leaves out at least one',
  need: { 'executions compared': 20000, 'calls made': 30000, 'executions leaving calls out': 10000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = [];
    for (const i of ctx.range(ctx.n(80000, 1000000))) { const c = prep(X.genProg('C16|' + ctx.seed, i)); if (c.n) cases.push(c); else ctx.stat('left out'); }
    await d.all(cases, arg, async (c, o) => {
      ctx.ev(); const v = judge(c, o);
      if (v.bad) { if (ctx.viol.length < 6) ctx.violation({ key: c.src, cls: v.cls, what: `${JSON.stringify(c.src).slice(0, 300)}: ${v.bad.slice(0, 600)}`, ...c }); else ctx.stat('violations'); return; }
      const all = (c.src.match(/req\(1\d{3}/g) || []).length; let some = 0;
      for (const w of c.want) if (w) { ctx.stat('executions compared'); ctx.stat('calls made', w.length); if (w.length < all) { ctx.stat('executions leaving calls out'); if (w.length) some++; } }
      if (some) ctx.distinct(c.src); if (some && c.src.length > 60 && c.src.length < 160) ctx.sample(c.src);
    }, 16);
  },
  async replay(c, ctx) { const d = ctx.driver(); const v = judge(c, await d.req(arg(c))); console.log(c.src, v); if (v.bad) ctx.violation({ key: c.src, what: v.bad }); },
};
