'use strict';
// Totality: whatever the bytes and the options, the parser answers with a tree
// or with an error positioned in the source, without panicking or running away.
const W = require('../lib/work'), F = require('../lib/fid'); const { shrink } = require('../lib/shrink');
const FE = ['STRICT', 'GLOBAL_ASYNC', 'LET_CONST', 'SPREAD', 'BINDING_PATTERN', 'BINDING_REST_ELEM', 'MODULE', 'IMPORT_DEC', 'EXPORT_DEC', 'META_PROPERTY', 'POW', 'BINDING_REST_ELEM_NESTED', 'ASYNC_AWAIT', 'BAD_ESCAPE_IN_TAGGED_TPL', 'ASYNC_GENERATOR', 'ASYNC_ITERATION', 'OPT_CATCH_PARAM', 'JSON_SUPER_SET', 'CLASS_PRV', 'OPT_EXPR', 'NULLISH', 'BIGINT', 'DYNAMIC_IMPORT', 'EXPORT_ALL_AS_NS', 'NUM_SEP', 'LOGIC_ASSIGN', 'CLASS_PUB_FIELD', 'CLASS_PRIV_FIELD', 'JSX', 'JSX_NS', 'CHK_REGEXP_FLAGS', 'REGEXP_UNICODE', 'REGEXP_STICKY', 'REGEXP_DOT_ALL', 'REGEXP_HAS_INDICES', 'TS', 'DTS', 'DECORATOR'];
const SETS = [{ off: ['JSX'] }, { off: ['JSX', 'MODULE', 'STRICT', 'GLOBAL_ASYNC'] }, {}, { on: ['TS'], off: ['JSX'] }, { on: ['TS'] }, { on: ['TS', 'DTS'], off: ['JSX'] }, { on: ['JSX_NS'] }, { on: ['TS'], off: ['JSX', 'MODULE', 'STRICT', 'GLOBAL_ASYNC'] }];
const TOK = ['(', ')', '[', ']', '{', '}', '<', '>', '=>', '=', ',', ';', ':', '?', '?.', '.', '...', '`', '${', '"', "'", '/', '/*', '*/', '//', '\n', '\\u', '\\', '#', '@', '!', '~', '++', '--', '+', '-', '*', '**', '%', '&&', '||', '??', '|', '&', '^', '<<', '>>', '>>>', '<=', '==', '===', '+=', '**=', '??=', 'a', 'b', '0', '1n', '.5', '0x1', '01', '/a/g', '"s"', '`t`', 'async', 'await', 'yield', 'let', 'const', 'var', 'function', 'class', 'extends', 'super', 'new', 'target', 'this', 'null', 'true', 'if', 'else', 'for', 'of', 'in', 'while', 'do', 'switch', 'case', 'default', 'break', 'continue', 'return', 'throw', 'try', 'catch', 'finally', 'with', 'delete', 'typeof', 'void', 'instanceof', 'import', 'export', 'from', 'as', 'static', 'get', 'set', 'constructor', 'debugger', 'enum', 'meta', 'type', 'interface', 'declare', 'namespace', 'module', 'abstract', 'readonly', 'private', 'public', 'override', 'keyof', 'infer', 'unique', 'symbol', 'is', 'asserts', 'implements', 'number', 'string', 'any', 'never', 'unknown', 'object', 'global', 'require', 'satisfies', 'accessor', 'out', '</', '/>', '<a>', '</a>', '<a.b', '<a:b', '&amp;', '&#x41;', '&', '\u00e9', '\ud83d\ude00', '\u2028', '\ufeff', '\u0000', 'L:'];
// nesting and repetition: the work must stay proportionate to the input
const NEST = [['(', ')'], ['[', ']'], ['{', '}'], ['a=>', 'b'], ['(a=>', ')'], ['(a=(', '))=>1'], ['[a=', ']'], ['f(', ')'], ['{a:', '}'], ['({a:', '})'], ['`${', '}`'], ['!', 'a'], ['a?', ':b'], ['a+(', ')'], ['new ', 'a'], ['function f(){', '}'], ['class A{m(){', '}}'], ['if(a){', '}'], ['async(', ')'], ['async(a=', ')=>1'], ['({a=', '})=>1'], ['[', ']=a'], ['(a,', ')'], ['<a>', '</a>'], ['<a b={', '}/>'], ['x<', '>'], ['a:', 'b'], ['(a?(', '):b)'], ['let x:(', ')=>void'], ['type T=', 'a'], ['type T<A>=A extends ', '?1:2'], ['f<', '>()'], ['a<b>(', ')'], ['[[', ']]'], ['a**', 'b'], ['a=', 'b'], ['a||', 'b'], ['L:', ';'], ['for(;;)', ';'], ['try{', '}catch{}'], ['switch(a){case 1:', '}'], ['return ', ''], ['import(', ')'], ['a.b(', ')'], ['a?.[', ']'], ['...', 'a'], ['/*', '*/'], ['<T>(', ')'], ['<T,>(', ')=>1'], ['(x:', ')=>1'], ['{[', ']:1}'], ['@a(', ') class B{}'], ['namespace A{', '}'], ['a as ', 'b'], ['(a as ', ')'], ['x={...', '}'], ['async x=>', '1'], ['yield ', '1'], ['await ', '1'], ['typeof ', 'a'], ['- -', 'a'], ['a,', 'b']];
const REP = ['a;', 'a+', 'a,', '"s";', '/*c*/', '//c\n', '\n', ' ', '`t`;', 'a.b', '.b', '[0]', '()', '++a;', 'var a=1,b;', 'let \u00e9=1\n', '0;', '{}', '/a/;', 'L:', 'if(a)b;else ', 'case 1:', ',', '\\u0061', '\u00e9', 'a=>', '`${a}`', '"\\n"', '\ud83d\ude00'];
function judge(src, o) {
  const x = F.died(o); if (x) return { bad: x, cls: 'died ' + x.replace(/0x[0-9a-f]+|\d+/g, 'N').slice(0, 160) };
  if (o.ok && !o.err) return { tree: true };
  if (o.ok || !o.err || !o.err.msg) return { bad: 'neither a tree nor an error', cls: 'nothing' };
  const e = o.err; if (e.line < 1 || e.col < 0) return { bad: 'error without a position: ' + e.msg, cls: 'unpositioned ' + e.msg.replace(/\d+/g, 'N').slice(0, 60) };
  return { err: e };
}
// positions are in lines ended by LF, CR or CRLF and in runes
function inSource(src, e) { const ls = src.split(/\r\n|\n|\r/); if (e.line > ls.length + 1) return false; const l = ls[e.line - 1] || ''; return e.col <= [...l].length + 1; }
async function run(ctx, d, cases) {
  await d.all(cases, c => ({ op: c.op || 'parse', src: c.b64 ? c.src.toString('base64') : c.src, b64: !!c.b64, ...c.set, nolc: c.nolc }), async (c, o) => {
    ctx.ev(); const v = judge(c.src, o);
    let w = v; if (v.err && !c.b64 && !inSource(c.src, v.err)) w = { bad: 'position outside of the source: ' + v.err.msg, cls: 'outside' };
    if (w.bad) {
      if (ctx.viol.length > 8) { ctx.stat('violations'); return; }
      let small = c.src; if (!c.b64 && !o.hang && !o.died && c.src.length < 5000) small = await shrink(c.src, async s => { const o = await d.req({ op: 'parse', src: s, ...c.set }); let x = judge(s, o); if (x.err && !inSource(s, x.err)) x = { cls: 'outside' }; return x.cls === w.cls; }, 200);
      const key = JSON.stringify(c.set) + ':' + (c.b64 ? c.src.toString('base64') : small);
      ctx.violation({ key, cls: w.cls, what: `${JSON.stringify(c.set)} ${JSON.stringify(c.b64 ? c.src.toString('base64') : small).slice(0, 200)}: ${w.bad.slice(0, 300)}`, src: c.b64 ? c.src.toString('base64') : small, b64: !!c.b64, set: c.set, from: c.from }); return;
    }
    ctx.stat(v.tree ? 'trees' : 'positioned errors'); ctx.stat((v.tree ? 'trees ' : 'errors ') + c.from); if (o.cpu) ctx.stat('slow (>200 ms)');
    if (c.src.length > 3) ctx.distinct(JSON.stringify(c.set) + (c.b64 ? c.src.toString('base64') : c.src));
    if (!c.b64 && c.src.length < 150) ctx.sample(c.src);
  }, 16);
}
module.exports = {
  rule: 'random bytes, random token sequences, truncations and mutations of snippets and generated programs, deep nestings and long repetitions, under 8 usual and random feature sets; a case counts when the parser answered and the answer was judged, it is non-trivial with more than 3 bytes',
  need: { trees: 5000, 'positioned errors': 20000 },
  SETS,
  async shard(ctx) {
    const d = ctx.driver(); let cases = []; const seed = 'C01|' + ctx.seed; const sn = W.snips();
    sn.forEach((s, i) => { if (ctx.mine(i)) for (const set of SETS) cases.push({ src: s.src, set, from: 'snippet' }); });
    for (const i of ctx.range(ctx.n(60000, 800000))) {
      const r = new W.Rng(seed + i);
      let set = r.pick(SETS); if (r.bool(0.25)) { const on = [], off = []; for (const f of FE) if (r.bool(0.15)) (r.bool() ? on : off).push(f); set = { on, off }; }
      const k = r.int(7);
      if (k === 0) { const n = r.range(1, 40); const b = Buffer.alloc(n); for (let j = 0; j < n; j++) b[j] = r.int(256); cases.push({ src: b, b64: true, set, from: 'bytes' }); continue; }
      if (k === 1) { const b = Buffer.from(r.pick(sn).src); for (let j = r.range(1, 3); j--;) if (b.length) b[r.int(b.length)] = r.int(256); cases.push({ src: b, b64: true, set, from: 'corrupted' }); continue; }
      if (k === 2 || k === 3) { const n = r.range(1, 14); let s = ''; for (let j = 0; j < n; j++) s += r.pick(TOK) + (r.bool(0.6) ? ' ' : ''); cases.push({ src: s, set, from: 'tokens' }); continue; }
      const base = r.bool(0.7) ? r.pick(sn).src : W.genProgram(seed, i, { depth: 2, stmts: 2 }).src;
      if (k === 4) { cases.push({ src: base.slice(0, r.int(base.length + 1)), set, from: 'truncated' }); continue; }
      let s = base; for (let j = r.range(1, 3); j--;) { const p = r.int(s.length + 1), q = Math.min(s.length, p + r.int(6)); s = r.bool() ? s.slice(0, p) + r.pick(TOK) + s.slice(q) : r.bool() ? s.slice(0, p) + s.slice(q) : s.slice(0, p) + s.slice(p, q) + s.slice(p, q) + s.slice(q); }
      cases.push({ src: s, set, from: 'edited' });
    }
    await run(ctx, d, cases); cases = [];
    let i = 0;
    for (const [a, b] of NEST) for (const set of SETS) for (const n of ctx.thorough ? [30, 300, 2000] : [30, 300]) { if (!ctx.mine(i++)) continue; for (const m of ['x', '']) { cases.push({ src: a.repeat(n) + m + b.repeat(n), set, from: 'nested' }, { src: a.repeat(n) + m, set, from: 'nested' }); } }
    for (const a of REP) for (const set of SETS.slice(0, 4)) for (const n of ctx.thorough ? [3000, 100000] : [3000]) if (ctx.mine(i++)) cases.push({ src: a.repeat(n), set, from: 'repeated' });
    await run(ctx, d, cases);
  },
  async replay(c, ctx) { const d = ctx.driver(); await run(ctx, d, [{ src: c.b64 ? Buffer.from(c.src, 'base64') : c.src, b64: c.b64, set: c.set, from: 'replay' }]); },
};
