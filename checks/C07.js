'use strict';
const R = require('../lib/ref'), F = require('../lib/fid'), W = require('../lib/work'), C03 = require('./C03'); const { shrink } = require('../lib/shrink');
const X = ['<', '>', '/', '</', '/>', '{', '}', '{}', 'a', '.', '-', ':', '=', '"', "'", '...', '{...b}', '<a>', '</a>', '<></>', ' ', '\n', '&', '&amp;', 'b="c"', '/*c*/', '1', ',', ';', '`', 'b={}', 'b=<c/>', '{/**/}'];
// elements, attributes and children of every kind in every expression position
const EL = ['<a/>', '<a></a>', '<></>', '<a b/>', '<a b="c"/>', "<a b='&lt;&#65;'/>", '<a b={c}/>', '<a b=<c/>/>', '<a b=<></> d-e/>', '<a {...b}/>', '<a {...b} c {...d}/>', '<a-b c-d="e"/>', '<a.b/>', '<a.b.c></a.b.c>', '<a:b c:d="e"/>', '<a:b></a:b>', '<this/>', '<this.a/>', '<a>b</a>', '<a>{b}</a>', '<a>{}</a>', '<a>{/*c*/}</a>', '<a> {b} c {d} </a>', '<a>\n  b\n</a>', '<a><b/></a>', '<a><b></b><c/></a>', '<a>b<c/>d</a>', '<><a/></>', '<a>{b}{c}</a>', '<a>{<b/>}</a>', '<a b={<c d={<e/>}/>}/>', '<a>{b=><c/>}</a>', '<a>&amp;&nbsp;&#x41;&copy;</a>', '<a>"\'`</a>', '<a>//b</a>', '<a>/*b*/</a>', '<a b="/*"/>', '<a b={`${c}`}>{`<d>`}</a>', '<a b={/r/}>/r/</a>', '<a b={{c:1}}>{{d}}</a>', '<a b={c<d}/>', '<a b={c>d}/>', '<a>{c<d}{e>f}</a>', '<a>{(b)}</a>', '<a>{b,c}</a>', '<a\n/>', '<a/*c*/b/*d*/=/*e*/"f"/*g*//>', '<a//c\nb/>', '< a > < / a >', '<a>é😀</a>', '<é/>', '<a é="π"/>', '<if/>', '<a if/>', '<a>{function(){return <b/>}}</a>', '<a>{async()=>await b}</a>', '<a>{b in c}</a>', '<a></*c*//a>', '</*c*/a/>', '<a b=""/>', '<a>\\n</a>', '<a b="\\"/>', '<a b="c\nd"/>', '<a b>c</a>', '<a b={"c"}/>', '<A/>', '<$/>', '<_/>', '<a1/>', '<a--b/>', '<a>1</a>', '<a>;</a>', '<a>=</a>', '<a>if</a>'];
const POS = [s => s, s => `(${s})`, s => `x=${s}`, s => `x=${s}\ny`, s => `f(${s})`, s => `f(${s},${s})`, s => `[${s},${s}]`, s => `({a:${s}})`, s => `a?${s}:${s}`, s => `a&&${s}`, s => `${s}||a`, s => `${s}.b`, s => `${s}[0]`, s => `${s}(1)`, s => `${s}?.b`, s => `${s}/2`, s => `${s}/2/g`, s => `!${s}`, s => `typeof ${s}`, s => `new ${s}`, s => `${s}\`t\``, s => `\`\${${s}}\``, s => `function f(){return ${s}}`, s => `function f(){return(\n${s}\n)}`, s => `()=>${s}`, s => `async()=>${s}`, s => `function*g(){yield ${s}}`, s => `async function f(){await ${s}}`, s => `throw ${s}`, s => `if(${s})${s}`, s => `for(x=${s};;);`, s => `for(let x of ${s});`, s => `for(var x in ${s});`, s => `while(${s});`, s => `switch(${s}){case ${s}:}`, s => `class A extends ${s}{}`, s => `class A{x=${s};[${s}](){}}`, s => `let {a=${s}}=b`, s => `(a=${s})=>1`, s => `${s},a`, s => `a,${s}`, s => `a+${s}`, s => `${s}+a`, s => `a<b;${s}`, s => `a;${s};/r/`, s => `{}${s}`, s => `if(a){}${s}`, s => `${s}\n${s.replace(/</, ';<')}`, s => `${s}\n/r/g`, s => `do ${s};while(a)`, s => `a?.[${s}]`, s => `x=<z>{${s}}</z>`, s => `x=<z y={${s}}/>`, s => `x=<z y=${s}/>`, s => `x=<z>${s}</z>`, s => `x=<z>t${s}t{u}${s}</z>`, s => `x=<><w/>${s}</>`, s => `x=<z {...${s}}/>`];
async function both(ctx, d, cases) { await F.run(ctx, d, cases, 'shape'); await F.run(ctx, d, cases, 'loc'); await C03.run(ctx, d, cases); }
module.exports = {
  rule: 'generated programs with JSX in five layouts, 75 kinds of elements in 57 positions, snippets and plain programs with JSX enabled, and mutations of JSX; a case counts when the whole trees (kinds, values, ranges, lines) were compared or both sides rejected it',
  need: { compared: 8000, 'agreed rejected': 8000 },
  async shard(ctx) {
    const d = ctx.driver(); let cases = []; const seed = 'C07|' + ctx.seed;
    for (const i of ctx.range(ctx.n(14000, 120000))) { const r = new W.Rng(seed + i); const g = W.genProgram(seed, i, { gen: { jsx: i % 8 !== 0 }, ...(i % 3 ? { depth: r.range(1, 2), stmts: 2 } : {}) }); cases.push({ src: g.src, mode: 'jsx' + g.mode, from: i % 8 ? 'generated' : 'plain' }); }
    let k = 0; for (const p of POS) for (const e of EL) if (ctx.mine(k++)) for (const mode of ['jsxscript', 'jsxmodule']) cases.push({ src: p(e), mode, from: 'positions' });
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) for (const mode of ['jsxscript', 'jsxmodule']) cases.push({ src: s.src, mode, from: 'snippet' }); });
    await both(ctx, d, cases); cases = [];
    for (const i of ctx.range(ctx.n(30000, 300000))) {
      const r = new W.Rng(seed + 'r' + i); let s, mode = r.bool() ? 'jsxscript' : 'jsxmodule';
      if (r.bool(0.4)) s = r.pick(POS)(r.pick(EL)); else { const g = W.genProgram(seed + 'r', i, { mode: mode.slice(3), gen: { jsx: true }, depth: r.range(0, 2), stmts: 1, layout: r.pick(['min', 'space']) }); s = g.src; }
      const at = [...s.matchAll(/[<>{}\/=."':-]/g)].map(m => m.index);
      for (let k = r.range(1, 2); k > 0; k--) { const j = at.length && r.bool(0.8) ? r.pick(at) + r.int(2) : r.int(s.length + 1); const q = r.int(3); s = q === 0 ? s.slice(0, j) + s.slice(j + 1) : q === 1 ? s.slice(0, j) + r.pick(X) + s.slice(j) : s.slice(0, j) + r.pick(X) + s.slice(j + 1); }
      if (/(^|[^\w$.])0\d*[89]/.test(s) || /&[A-Za-z]\w*;/.test(s.replace(/&(amp|lt|gt|quot|nbsp|copy);/g, ''))) continue; // legacy decimals and HTML 5 entities are not part of the claim
      cases.push({ src: s, mode, from: 'mutated' });
    }
    await both(ctx, d, cases);
  },
  async replay(c, ctx) { const d = ctx.driver(); await F.replay(c, ctx, 'shape'); await F.replay(c, ctx, 'loc'); const v = C03.judge(c.src, c.mode, await d.req({ op: 'accept', src: c.src, ...R.MODES[c.mode] })); if (v.bad) ctx.violation({ key: c.mode + ':' + c.src, what: v.bad }); },
};
