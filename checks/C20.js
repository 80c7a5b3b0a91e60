'use strict';
const U = require('../lib/util'), { Rng } = require('../lib/rng');
// documents are built as tokens and trivia, so what must come out is known by construction
const STR = ['""', '"a"', '"// no"', '"/* no */"', '"\\""', '"\\\\"', '"\\\\\\""', '"a,]"', '"},{"', '"\\u0022//"', '"é中😀"', '"http://x/y"', '"*/"', '"\\/\\/"', '"\\n"', '"\'"', '"a\\\\\\\\"', '", }"'];
const NUM = ['0', '-1', '1.5e3', '42', 'true', 'false', 'null'];
const COM = ['', '//', '// x', '// "q', '// */', '// /*', '//,', '//}', '// é中😀', '//\\', '//\t"a":1,', '///'];
const MUL = ['/**/', '/* x */', '/*"*/', '/***/', '/*/*/', '/* // */', '/*,*/', '/*}*/', '/* é中😀 */', '/*a\nb*/', '/*\n\n*/', '/*a\r\nb*/', '/**\r*/', '/*]*/', '/*\\*/', '/* * / */', '/*\n*/', '/*\r\n\r\n*/'];
const WS = ['', '', ' ', '\n', '\t', '  ', '\r\n', '\n\n ', '\r'];
function doc(r) {
  const out = []; // [text, kind] kind: t token, s string token, w white, c comment, x trailing comma
  const triv = () => { let n = r.pick([0, 0, 1, 1, 2, 3]); while (n--) { const k = r.int(10); if (k < 6) out.push([r.pick(WS), 'w']); else if (k < 8) out.push([r.pick(MUL), 'c']); else { out.push([r.pick(COM.slice(1)), 'c']); out.push([r.pick(['\n', '\r\n', '\n', '\r']), 'w']); } } };
  const val = d => {
    triv(); const k = r.int(d > 0 ? 6 : 3);
    if (k === 0) out.push([r.pick(NUM), 't']); else if (k < 3) out.push([r.pick(STR), 't']);
    else if (k < 5) { out.push(['{', 't']); const n = r.int(4); for (let i = 0; i < n; i++) { triv(); out.push([r.bool(0.3) ? r.pick(STR) : '"k' + i + '"', 't']); triv(); out.push([':', 't']); val(d - 1); triv(); if (i < n - 1) out.push([',', 't']); else if (r.bool(0.4)) { out.push([',', 'x']); } } triv(); out.push(['}', 't']); }
    else { out.push(['[', 't']); const n = r.int(4); for (let i = 0; i < n; i++) { val(d - 1); triv(); if (i < n - 1) out.push([',', 't']); else if (r.bool(0.4)) out.push([',', 'x']); } triv(); out.push([']', 't']); }
    triv();
  };
  val(r.range(0, 4)); if (r.bool(0.2)) out.push([r.pick(COM.slice(1)), 'c']);
  return out;
}
const lines = s => s.split(/\r\n|\r|\n/).length - 1;
function judge(toks, o) {
  const x = U.died(o); if (x) return x; if (o.val.err) return 'error: ' + o.val.err;
  if (!o.val.same) return 'the input was changed';
  const got = Buffer.from(o.val.out, 'base64').toString('utf8'), plain = toks.filter(t => t[1] === 't').map(t => t[0]).join('');
  let a, b; try { b = JSON.parse(plain); } catch (e) { throw new Error('generator: ' + plain); }
  try { a = JSON.parse(got); } catch (e) { return 'the output is not JSON: ' + e.message; }
  if (JSON.stringify(a) !== JSON.stringify(b)) return 'the output has another value: ' + JSON.stringify(a).slice(0, 100);
  // tokens stay on their lines
  let line = 0, at = 0, want = [];
  for (const [t, k] of toks) { if (k === 't') want.push([t, line]); line += lines(t); }
  // CRs and LFs of one break may come from two pieces: count on the whole text
  const src = toks.map(t => t[0]).join(''); let pos = 0; want = [];
  for (const [t, k] of toks) { if (k === 't') want.push([t, lines(src.slice(0, pos))]); pos += t.length; }
  let p = 0;
  for (const [t, l] of want) { while (/\s/.test(got[p] || '')) p++; if (got.slice(p, p + t.length) !== t) return `expected ${t} at ${p} of the output`; const gl = lines(got.slice(0, p)); if (gl !== l) return `${t} moved from line ${l + 1} to line ${gl + 1}`; p += t.length; }
  // a text without comments and trailing commas comes out unchanged
  if (toks.every(t => t[1] !== 'c' && t[1] !== 'x') && got !== src) return 'a text without comments was changed';
  // columns stay as they are on lines where no comment spans lines
  if (toks.every(t => t[1] !== 'c' || !/[\r\n]/.test(t[0])) && [...got].length !== [...src].length) return 'the length changed';
  return null;
}
async function shrinkToks(toks, bad) { for (let again = true; again;) { again = false; for (let i = 0; i < toks.length; i++) { if (toks[i][1] === 't') continue; const t = toks.slice(0, i).concat(toks.slice(i + 1)); try { if (await bad(t)) { toks = t; again = true; break; } } catch { } } } return toks; }
module.exports = {
  rule: 'JSON documents built from tokens, white space, line and block comments, trailing commas and strings which look like comments; the value, the text and the line of every token must survive, without comments the text must be unchanged; a document is non-trivial when it holds a comment or a trailing comma',
  need: { 'documents with comments': 10000 },
  async shard(ctx) {
    const d = U.utilDriver(ctx); const cs = []; for (const i of ctx.range(ctx.n(60000, 600000))) cs.push(doc(new Rng('C20|' + ctx.seed + '|' + i)));
    const src = t => t.map(x => x[0]).join('');
    await d.all(cs, c => ({ op: 'jsonc', arg: { src: src(c) } }), async (c, o) => {
      ctx.ev(); const bad = judge(c, o);
      if (bad) { if (ctx.viol.length < 6) { const small = await shrinkToks(c, async t => judge(t, await d.call('jsonc', { src: src(t) }))); ctx.violation({ key: src(small), cls: bad.slice(0, 20), what: JSON.stringify(src(small)) + ': ' + (judge(small, await d.call('jsonc', { src: src(small) })) || bad), c: small }); } else ctx.stat('violations'); return; }
      ctx.stat('tokens', c.filter(t => t[1] === 't').length); if (c.some(t => t[1] === 'c')) ctx.stat('documents with comments'); if (c.some(t => t[1] === 'x')) ctx.stat('documents with trailing commas');
      if (c.some(t => t[1] === 'c' || t[1] === 'x')) { ctx.distinct(src(c)); if (src(c).length < 120) ctx.sample(src(c)); }
    });
  },
  async replay(c, ctx) { const d = U.utilDriver(ctx); const o = await d.call('jsonc', { src: c.c.map(x => x[0]).join('') }); console.log(o.val && o.val.out ? JSON.stringify(Buffer.from(o.val.out, 'base64').toString()) : o); const bad = judge(c.c, o); if (bad) ctx.violation({ key: 'r', what: bad }); },
};
