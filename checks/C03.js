'use strict';
const R = require('../lib/ref'), F = require('../lib/fid'), W = require('../lib/work'), J = require('../lib/rej'), S = require('../lib/seq'); const { shrink } = require('../lib/shrink');
// contents of regular expressions are not validated (FEAT_CHK_REGEXP_FLAGS is
// off by default), HTML-like comments are not supported
// `>` and `}` in JSX text are accepted as TypeScript and older JSX did
const OUT = /regular expression|Did you mean `&(rbrace|gt);`/i;
function judge(src, mode, o) {
  const r = F.ref(src, mode);
  const x = F.died(o); if (x) return { bad: x, cls: 'died ' + x.slice(0, 60) };
  if (r.ast) return o.ok ? { both: 'accepted' } : { skip: 'accepted by the reference' };
  if (!o.ok) return { both: 'rejected', msg: r.err };
  if (OUT.test(r.err)) return { skip: 'contents of regular expressions' };
  if (F.outside(src) || mode.startsWith('jsx') && F.outsideJsx(src)) return { skip: 'outside of the language claimed' };
  if (F.babelOk(src, mode)) return { skip: 'references disagree' };
  return { bad: 'invalid program accepted, reference: ' + r.err, cls: 'ACCEPT ' + r.err.replace(/\d+/g, 'N').replace(/'[^']*'/g, "''") };
}
async function run(ctx, d, cases) {
  await d.all(cases, c => ({ op: 'accept', src: c.src, ...R.MODES[c.mode] }), async (c, o) => {
    ctx.ev(); const v = judge(c.src, c.mode, o);
    if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
    if (v.bad) {
      if (c.frag !== undefined && ctx.isKnown({ frag: c.frag, cls: v.cls })) return;
      if (ctx.viol.length > 12) { ctx.stat('violations'); return; }
      const small = await shrink(c.src, async s => judge(s, c.mode, await d.req({ op: 'accept', src: s, ...R.MODES[c.mode] })).cls === v.cls, 250);
      ctx.violation({ key: c.mode + ':' + small, cls: v.cls, what: `[${c.mode}] ${JSON.stringify(small).slice(0, 200)}: ${v.bad}`, src: small, mode: c.mode, orig: c.src, from: c.from }); return;
    }
    ctx.stat('agreed ' + v.both); ctx.stat('agreed ' + v.both + ' ' + c.from);
    if (v.both === 'rejected') { ctx.distinct(c.mode + c.src); ctx.stat('error class: ' + v.msg.replace(/ \(\d.*/, '').replace(/'[^']*'/g, "''").slice(0, 60)); if (c.src.length > 12 && c.src.length < 200) ctx.sample(c.src); }
  }, 32);
}
module.exports = {
  rule: 'every pair of declarations of a name in 23 contexts, 480 fragments in 60 contexts, 230000 sequences of interacting items (members, clauses, module items, params, properties, elements, labels, directives), every pair of statement ends and statement starts with every separator, every expression continued by every token, 61000 nestings of a restricted name or construct in two contexts, failing snippets of the tests, token and character mutations and truncations of valid programs, in script and module mode; a case counts when both reference parsers decided it, it is non-trivial when they reject it',
  need: { 'agreed rejected': 20000 },
  async shard(ctx) {
    const d = ctx.driver(); let cases = []; const seed = 'C03|' + ctx.seed; let i = 0;
    for (const s of J.dupMatrix()) if (ctx.mine(i++)) for (const mode of ['script', 'module']) cases.push({ src: s, mode, from: 'declarations' });
    for (const c of J.fragCells()) if (ctx.mine(i++)) for (const mode of ['script', 'module']) cases.push({ ...c, mode, from: 'fragments' });
    for (const [t, s] of S.all()) if (ctx.mine(i++)) for (const mode of t === 'module' ? ['module'] : ['script', 'module']) cases.push({ src: s, mode, from: 'sequences' });
    for (const c of J.allCells()) if (ctx.mine(i++)) for (const mode of ['script', 'module']) cases.push({ ...c, mode });
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) for (const mode of ['script', 'module']) cases.push({ src: s.src, mode, from: 'snippet' }); });
    await run(ctx, d, cases); cases = [];
    const sn = W.snips().filter(s => !s.ts);
    for (const i of ctx.range(ctx.n(60000, 600000))) {
      const r = new W.Rng(seed + '|m|' + i); const mode = r.bool() ? 'script' : 'module';
      const base = r.bool() ? W.genProgram(seed + 'm', i, { mode, depth: r.range(1, 3), stmts: 2, layout: 'space' }).src : r.pick(sn).src;
      let s;
      if (r.bool(0.75)) s = W.mutate(base, r, mode, r.range(1, 2));
      else { const k = r.int(base.length + 1); s = r.bool() ? base.slice(0, k) : base.slice(0, k) + r.pick([...'()[]{},;:.?=+-*/%&|^!~<>`"\'#@\\0aA$_ \n']) + base.slice(k + r.int(2)); }
      if (s) cases.push({ src: s, mode, from: 'mutated' });
    }
    await run(ctx, d, cases);
  },
  async replay(c, ctx) { const d = ctx.driver(); const v = judge(c.src, c.mode, await d.req({ op: 'accept', src: c.src, ...R.MODES[c.mode] })); console.log(JSON.stringify(c.src), v); if (v.bad) ctx.violation({ key: c.mode + ':' + c.src, what: v.bad }); },
};
module.exports.judge = judge; module.exports.run = run;
