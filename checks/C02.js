'use strict';
const F = require('../lib/fid'), W = require('../lib/work'), J = require('../lib/rej'), S = require('../lib/seq'), fs = require('fs');
const BIN = ['??', '||', '&&', '|', '^', '&', '==', '!=', '===', '!==', '<', '>', '<=', '>=', 'instanceof', 'in', '<<', '>>', '>>>', '+', '-', '*', '/', '%', '**'];
const ASG = ['=', '+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^=', '&&=', '||=', '??='];
const PRE = ['', '!', '-', '+', '~', 'typeof ', 'void ', 'delete ', '++', '--', 'new ', 'await ', 'yield ', '(', 'async ', '...'];
const POST = ['', '++', '--', '.p', '[0]', '()', '`t`', '?.p', '?.()', ')', '?.[1]', '?y:z', '=>1', ',d'];
// every pair of binary operators, and prefixes and suffixes around operators
function operatorPrograms() {
  const out = [];
  for (const a of BIN) for (const b of BIN) { out.push(`x=a ${a} b ${b} c`); out.push(`(a ${a} b) ${b} c ${a} (d ${b} e)`); out.push(`a ${a} b ${b} c ${a} d`); }
  for (const a of BIN) for (const p of PRE) for (const q of POST) { const s = `${p}a ${a} ${p}b${q}`; out.push(s, `async function f(){${s}}`, `function* g(){${s}}`); }
  for (const a of ASG) for (const b of ASG) out.push(`a ${a} b ${b} c ${a} d`, `a.b ${a} c ? d ${b} e : f ${a} g`);
  for (const a of BIN) for (const b of ASG) out.push(`x ${b} a ${a} b`, `a ${a} (x ${b} b)`, `x ${b} y ? a ${a} b : c ${a} d`);
  for (const a of BIN) for (const b of BIN) for (const c of ['+', '**', '&&', '??', '<', '==', '|', '*', 'in']) out.push(`a ${a} b ${b} c ${c} d`);
  return out;
}
module.exports = {
  rule: 'generated programs (grammar directed, 5 layouts), snippets of the tests, real files, 480 fragments in 60 contexts, 230000 sequences of interacting items (members, clauses, module items, params, properties, elements, labels, directives), every pair of statement ends and statement starts with every separator, every expression continued by every token, 61000 nestings of a restricted name or construct in two contexts, token mutations and all pairs of operators in script and module mode; a case counts when the reference parser accepts it and the whole trees were compared, it is non-trivial with more than 3 nodes',
  need: { compared: 3000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = []; const seed = 'C02|' + ctx.seed;
    for (const i of ctx.range(ctx.n(20000, 200000))) { const g = W.genProgram(seed, i); cases.push({ src: g.src, mode: g.mode, from: 'generated' }); }
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) for (const mode of ['script', 'module']) cases.push({ src: s.src, mode, from: 'snippet' }); });
    operatorPrograms().forEach((s, i) => { if (ctx.mine(i)) for (const mode of ['script', 'module']) cases.push({ src: s, mode, from: 'operators' }); });
    let k = 0; for (const c of J.fragCells()) if (ctx.mine(k++)) for (const mode of ['script', 'module']) cases.push({ ...c, mode, from: 'fragments' });
    k = 0; for (const [t, s] of S.all()) if (ctx.mine(k++)) for (const mode of t === 'module' ? ['module'] : ['script', 'module']) cases.push({ src: s, mode, from: 'sequences' });
    k = 0; for (const c of J.allCells()) if (ctx.mine(k++)) for (const mode of ['script', 'module']) cases.push({ ...c, mode });
    const sn = W.snips().filter(s => !s.ts);
    for (const i of ctx.range(ctx.n(24000, 200000))) {
      const r = new W.Rng(seed + '|m|' + i); const mode = r.bool() ? 'script' : 'module';
      const base = r.bool() ? W.genProgram(seed + 'm', i, { mode, depth: r.range(1, 3), stmts: 2, layout: 'space' }).src : r.pick(sn).src;
      const s = W.mutate(base, r, mode, r.range(1, 2)); if (s) cases.push({ src: s, mode, from: 'mutated' });
    }
    await F.run(ctx, d, cases, 'shape');
    const files = W.realFiles(); const step = Math.max(1, Math.floor(files.length / ctx.n(1200, 6000))); const fc = [];
    files.filter((f, i) => i % step === (ctx.seed % step)).forEach((f, i) => {
      if (!ctx.mine(i)) return; const src = fs.readFileSync(f, 'utf8'); if (src.startsWith('#!') || src.includes('\ufffd')) return;
      const m = ['script', 'module'].find(m => F.ref(src, m).ast); if (m) fc.push({ src, mode: m, from: 'file' });
    });
    await F.run(ctx, d, fc, 'shape');
  },
  replay: (c, ctx) => F.replay(c, ctx, 'shape'),
};
