'use strict';
const X = require('../lib/exe');
const arg = c => ({ op: 'exec', src: c.src, arg: c.wire });
function judge(c, o) {
  if (o.panic || o.died || o.hang) return { cls: 'crash', bad: 'the evaluator fails: ' + String(o.panic || o.died || 'hang').slice(0, 200) };
  if (!o.ok) return { cls: 'reject', bad: 'not parsed: ' + JSON.stringify(o.err) };
  for (let i = 0; i < c.want.length; i++) if (c.want[i] !== null && !X.same(c.want[i], o.val[i])) return { cls: 'value', bad: `evaluation ${i + 1} of the evaluator gives ${JSON.stringify(o.val[i])} instead of ${JSON.stringify(c.want[i])} with ${JSON.stringify(c.wire[i])}` };
  return {};
}
function prep(c) {
  let n = 0; const want = c.vars.map(v => { try { const w = X.show(X.ev(c.tree, X.jsv(v))); n++; return w; } catch (e) { if (e instanceof X.Skip) return null; throw e; } });
  return { src: c.src, wire: c.vars.map(X.wire), want, n };
}
module.exports = {
  rule: 'expressions evaluated four times in a row by one evaluator with different variables, each value compared with the value the operators of a JavaScript engine give; evaluations whose value depends on whether a nil stands for null or undefined are left out; a case counts when at least two of its evaluations were compared',
  need: { 'values compared': 50000, 'values: true': 2000, 'values: string': 2000, 'values: number': 2000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = [];
    for (const i of ctx.range(ctx.n(100000, 1500000))) { const c = prep(X.genCase('C15|' + ctx.seed, i)); if (c.n) cases.push(c); else ctx.stat('left out'); }
    await d.all(cases, arg, async (c, o) => {
      ctx.ev(); const v = judge(c, o);
      if (v.bad) { if (ctx.viol.length < 6) ctx.violation({ key: c.src, cls: v.cls, what: `${c.src.slice(0, 200)}: ${v.bad.slice(0, 500)}`, ...c }); else ctx.stat('violations'); return; }
      ctx.stat('values compared', c.n);
      for (const w of c.want) if (w !== null) ctx.stat('values: ' + (w === true ? 'true' : w === false ? 'false' : w === 'nil' ? 'nil' : Array.isArray(w) ? 'array' : typeof w === 'object' ? 'object' : w[0] === 's' ? 'string' : 'number'));
      if (c.n > 1) ctx.distinct(c.src); if (c.src.length > 30 && c.src.length < 80) ctx.sample(c.src);
    }, 16);
  },
  async replay(c, ctx) { const d = ctx.driver(); const v = judge(c, await d.req(arg(c))); console.log(c.src, v); if (v.bad) ctx.violation({ key: c.src, what: v.bad }); },
};
