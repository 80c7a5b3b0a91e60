'use strict';
const T = require('../lib/tsj'), W = require('../lib/work'), J = require('../lib/rej'), S = require('../lib/seq'), { shrink } = require('../lib/shrink'), fs = require('fs');
module.exports = {
  rule: 'plain programs (generated, snippets, real files, fragments in contexts, operator and statement sequences, programs with names that are words of TypeScript) parsed in JavaScript mode and in TypeScript mode, the trees compared node by node; a case counts when both modes gave a tree',
  need: { 'trees compared': 40000, 'nodes compared': 500000, 'compared generated': 8000, 'compared file': 200, 'compared words': 3000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = []; const seed = 'C08|' + ctx.seed; let k = 0;
    for (const i of ctx.range(ctx.n(12000, 150000))) { const g = W.genProgram(seed, i); cases.push({ src: g.src, mode: g.mode && !g.mode.startsWith('jsx') ? g.mode : 'script', from: 'generated' }); }
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) for (const mode of ['script', 'module']) cases.push({ src: s.src, mode, from: 'snippet' }); });
    for (const c of J.fragCells()) if (ctx.mine(k++)) cases.push({ src: c.src, mode: k & 8 ? 'module' : 'script', from: 'fragments' });
    k = 0; for (const [t, s] of S.all()) if (ctx.mine(k++)) cases.push({ src: s, mode: t === 'module' ? 'module' : 'script', from: 'sequences' });
    k = 0; for (const c of J.allCells()) if (ctx.mine(k++)) cases.push({ src: c.src, mode: (k >> 3) & 1 ? 'module' : 'script', from: c.from });
    k = 0; for (const src of words()) if (ctx.mine(k++)) for (const mode of ['script', 'module']) cases.push({ src, mode, from: 'words' });
    const files = W.realFiles(), step = Math.max(1, Math.floor(files.length / ctx.n(600, 5000)));
    files.filter((f, i) => i % step === ((ctx.seed + 5) % step)).forEach((f, i) => {
      if (!ctx.mine(i)) return; const src = fs.readFileSync(f, 'utf8'); if (src.startsWith('#!') || src.includes('\ufffd')) return;
      for (const mode of ['script', 'module']) cases.push({ src, mode, from: 'file' });
    });
    await d.all(cases, c => T.req(c, false), async (c, a) => {
      ctx.ev(); const v = T.judge(c, a, a.ok ? await d.req(T.req(c, true)) : null);
      if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
      if (v.bad) {
        if (ctx.viol.length > 8) { ctx.stat('violations'); return; }
        const one = async s => { const e = { ...c, src: s }, x = await d.req(T.req(e, false)); return T.judge(e, x, x.ok ? await d.req(T.req(e, true)) : null); };
        const src = await shrink(c.src, async s => (await one(s)).cls === v.cls, 800); const w = await one(src);
        ctx.violation({ key: src, cls: v.cls, what: `${c.mode}: ${JSON.stringify(src).slice(0, 300)} ${w.bad || v.bad}`, src, mode: c.mode, orig: c.src.slice(0, 5000) }); return;
      }
      ctx.stat('trees compared'); ctx.stat('nodes compared', v.n); ctx.stat('compared ' + c.from); ctx.distinct(c.src); if (v.n > 40 && c.src.length < 160) ctx.sample(c.src);
    }, 16);
  },
  async replay(c, ctx) { const d = ctx.driver(); const a = await d.req(T.req(c, false)), v = T.judge(c, a, a.ok ? await d.req(T.req(c, true)) : null); console.log(c.src, v); if (v.bad) ctx.violation({ key: c.src, what: v.bad }); },
};
// names that are words of TypeScript, and operators TypeScript gives another use, in
// the positions where they could be taken for the start of TypeScript syntax
function* words() {
  const N = ['type', 'interface', 'namespace', 'module', 'global', 'as', 'is', 'keyof', 'infer', 'unique', 'asserts', 'any', 'number', 'string', 'never', 'unknown', 'object', 'symbol', 'enum1', 'satisfies', 'out', 'from', 'of', 'get', 'set', 'async', 'require', 'constructor', 'undefined', 'boolean', 'bigint', 'intrinsic', 'accessors', 'let1'];
  const S = ['W', 'W;', 'W\nx', 'W\nx\ny', 'W=1', 'W+1', 'W(1)', 'W[0]', 'W.a', 'W`a`', 'W?.a', 'W=>1', '(W)=>1', '(W,b)=>1', '(W=1)=>1', '({W})', '({W:1})', '({W(){}})', '({get W(){return 1}})', '({async W(){}})', '({*W(){}})', 'var W', 'var W=1', 'let W', 'const W=1', 'var {W}=a', 'var {a:W}=b', 'var [W]=a',
    'function W(){}', 'function f(W){}', 'function f(W=1){}', 'function f(...W){}', 'function f({W}){}', 'class W{}', 'class A extends W{}', 'class A{W(){}}', 'class A{static W(){}}', 'class A{W=1}', 'class A{W}', 'class A{W;a}', 'class A{static W=1}', 'class A{get W(){return 1}}', 'class A{async W(){}}', 'class A{*W(){}}', 'class A{#W=1;a(){return this.#W}}',
    'W:x', 'W:while(1)break W', 'if(W)x;else W', 'for(W of a);', 'for(W in a);', 'for(var W of a);', 'for(W;W;W);', 'while(W);', 'a?W:b', 'a?(W):b', 'a?b:W', 'a?(W):(b)', 'a?W():b', 'a?(W,b):c', 'a?(b)=>W:c', 'a?{W}:b', 'a?[W]:b', 'a?W=>1:b', 'a?b?W:c:d', 'switch(W){case W:W}', 'switch(a){case(W):b}', 'switch(a){case W():b;default:W}', 'switch(a){case W?a:b:c}',
    'typeof W', 'new W', 'new W()', 'new W(a)', 'delete W.a', '!W', 'W++', '++W', 'a=W', 'a+W', 'W in a', 'W instanceof a', 'a in W', 'W<a', 'W<a>b', 'W<a,b>c', 'f(W<a,b>c)', 'W<<a', 'W>>a', 'W<=a', 'W>=a', 'W<<=1', 'W>>=1', 'W>>>=1', 'W<a&&b>c', 'W<a||b>c', 'a<W', 'a<W>b', 'W<a[b]>c', '[W<a,b>c]', 'if(W<a)b', 'for(;W<a;)b', 'W?.[a]<b', 'W.a<b', 'W()<b', 'new W<a', 'new W()<a', '(W)<a', 'W[0]<a', 'W<-a', 'W<(a)', 'W<[a]', 'W<{a}', 'W<"a"', 'W<1', 'W<a.b', 'W<typeof a', 'W<void 0', 'W<a?b:c', 'W<a=>1',
    'W!=a', 'W!==a', 'W\n!a', 'W\n(a)', 'W\n[a]', 'W\n`a`', 'W\n<a', 'a\nW\nb', 'a\nW b', 'a=b\nW', 'return_(W)', 'throw W', '()=>W', '()=>({W})', '()=>{W}', 'async()=>W', 'async W=>1', 'async(W)=>1', 'async function W(){}', 'function*g(){yield W}', 'function*g(){yield\nW}', 'async function f(){await W}', 'try{W}catch(W){W}finally{W}', '`${W}`', '[W]', '[...W]', 'f(...W)', 'f(W)', '({...W})', '({[W]:1})', '({a:W}=b)', '[W]=a', '({W}=a)', '({W=1}=a)', 'W,a', 'do W;while(W)', 'W/a/b', 'W\n/a/b',
    'export{W};var W', 'export{W as a};var W', 'var a;export{a as W}', 'import W from"a"', 'import{W}from"a"', 'import{W as a}from"b"', 'import{a as W}from"b"', 'import*as W from"a"', 'import W,{a}from"b"', 'export default W', 'export default W=>1', 'export default class W{}', 'export var W=1', 'export function W(){}', 'export class W{}', 'export*as W from"a"', 'export{W}from"a"', 'import("W")', 'W\nimport a from"b"'];
  for (const s of S) for (const n of N) yield s.replace(/W/g, n);
}
