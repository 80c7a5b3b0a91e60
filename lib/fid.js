'use strict';
// Fidelity oracle for JavaScript and JSX: the reference tree against mole's.
const R = require('./ref'); const { shrink } = require('./shrink');
const LOC = new Set(['start', 'end', 'loc']);
// constructs outside of what mole claims: names of module exports written as
// strings, HTML-like comments, lone surrogates (mole keeps UTF-8), identifiers
// newer than Go's Unicode tables, `\\8` and `\\9` (accepted everywhere, which the tests pin),
// brand checks (`#p in o`, ES2022, not implemented)
function outside(src, ast) {
  if (/<!--|-->/.test(src)) return 'html comment';
  if (/\\u[dD][89a-fA-F]|\\u\{0*[dD][89a-fA-F]|[\ud800-\udfff]/.test(src) && /\\u[dD]|\\u\{0*[dD]|(?<![\ud800-\udbff])[\udc00-\udfff]|[\ud800-\udbff](?![\udc00-\udfff])/.test(src)) return 'surrogate';
  if (/\\[89]/.test(src)) return 'decimal digit escape';
  if (/[\u{2b740}-\u{2ebe0}\u{30000}-\u{3134f}]/u.test(src)) return 'unicode version';
  if (/#[\w$]+\s+in\b/.test(src)) return 'brand check';
  if (ast) for (const s of ast.body || []) {
    for (const p of s.specifiers || []) for (const k of ['local', 'exported', 'imported']) if (p[k] && p[k].type === 'Literal') return 'string name';
    if (s.exported && s.exported.type === 'Literal') return 'string name';
  }
  return null;
}
// JSX: entities of HTML 5 (acorn-jsx knows those of XHTML) and spread children (babel's extension)
let _xh;
function outsideJsx(src, ast) {
  _xh = _xh || new Set(Object.keys(require(R.NM + 'acorn-jsx/xhtml')).concat('foo'));
  for (const m of src.matchAll(/&([A-Za-z]\w*);/g)) if (!_xh.has(m[1])) return 'HTML 5 entity';
  if (/\{\s*\.\.\./.test(src) && !ast) return 'spread child';
  return null;
}
function ref(src, mode) { try { return { ast: R.acornParse(src, mode).ast }; } catch (e) { return { err: e.message }; } }
// a second opinion when mole and acorn disagree on acceptance
function babelOk(src, mode) {
  try { R.babel().parse(src, { sourceType: mode.endsWith('module') ? 'module' : 'script', plugins: mode.startsWith('jsx') ? ['jsx'] : [], errorRecovery: false, allowReturnOutsideFunction: false, createImportExpressions: true }); return true; } catch (e) { return false; }
}
function died(o) { return o.died ? 'driver died ' + o.died + ' ' + (o.stderr || '').slice(0, 300) : o.panic ? 'panic: ' + o.panic.split('\n').slice(0, 8).join(' | ').slice(0, 500) : o.hang ? 'no answer within the CPU limit' : null; }
// what: 'shape' (everything but locations) or 'loc' (only locations)
function judge(src, mode, o, what) {
  const r = ref(src, mode);
  if (!r.ast) return { skip: 'reference rejects' };
  const out = outside(src, r.ast) || mode.startsWith('jsx') && outsideJsx(src, r.ast); if (out) return { skip: out };
  const x = died(o); if (x) return what === 'loc' ? { skip: 'died' } : { bad: x, cls: 'died ' + x.slice(0, 60) };
  if (!o.ok) { if (what === 'loc') return { skip: 'rejected' }; return babelOk(src, mode) ? { bad: 'valid program rejected: ' + o.err.msg, cls: 'REJECT ' + o.err.msg.replace(/ at .*/, '').replace(/\d+/g, 'N') } : { skip: 'references disagree' }; }
  const n = R.norm(r.ast, src);
  const sh = R.diff(n, o.val, '', { skip: LOC });
  if (what === 'shape') return sh ? { bad: 'tree differs at ' + sh, cls: 'DIFF ' + tail(sh) } : { n };
  if (sh) return { skip: 'shape' };
  const d = R.diff(n, o.val, '');
  return d ? { bad: 'location differs at ' + d, cls: 'LOC ' + tail(d) } : { n };
}
const tail = d => d.replace(/\[\d+\]/g, '').replace(/: ref.*/s, '').split('.').slice(-1)[0];
function kinds(n, f) { (function go(x) { if (Array.isArray(x)) { for (const y of x) go(y); return; } if (x && typeof x === 'object') { if (x.type) f(x.type); for (const k in x) if (k !== 'loc') go(x[k]); } })(n); }
// run a list of {src, mode, from} through the driver under the oracle
async function run(ctx, d, cases, what) {
  await d.all(cases, c => ({ op: 'parse', src: c.src, ...R.MODES[c.mode] }), async (c, o) => {
    ctx.ev();
    const v = judge(c.src, c.mode, o, what);
    if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
    if (v.bad) {
      if (c.frag !== undefined && ctx.isKnown({ frag: c.frag, cls: v.cls })) return;
      if (ctx.viol.length > 20) { ctx.stat('violations'); return; }
      const small = await shrink(c.src, async s => { const w = judge(s, c.mode, await d.req({ op: 'parse', src: s, ...R.MODES[c.mode] }), what); return w.cls === v.cls; }, 400);
      const w = judge(small, c.mode, await d.req({ op: 'parse', src: small, ...R.MODES[c.mode] }), what);
      ctx.violation({ key: c.mode + ':' + small, cls: v.cls, what: `[${c.mode}] ${JSON.stringify(small).slice(0, 200)}: ${w.bad || v.bad}`, mode: c.mode, src: small, orig: c.src, from: c.from });
      return;
    }
    ctx.stat('compared'); ctx.stat('compared ' + (c.from || '')); let nodes = 0;
    kinds(v.n, () => nodes++); ctx.stat('nodes compared', nodes);
    if (nodes > 3) ctx.distinct(c.mode + c.src);
    if (c.src.length < 300 && nodes > 8) ctx.sample(c.src);
  }, 16);
}
async function replay(c, ctx, what) {
  const d = ctx.driver();
  const o = await d.req({ op: 'parse', src: c.src, ...R.MODES[c.mode] });
  const v = judge(c.src, c.mode, o, what);
  console.log('source:\n' + c.src + '\nreference: ' + JSON.stringify(R.norm(ref(c.src, c.mode).ast || {}, c.src)).slice(0, 3000) + '\nmole: ' + JSON.stringify(o).slice(0, 3000));
  if (v.bad) ctx.violation({ key: c.mode + ':' + c.src, what: v.bad });
}
module.exports = { outsideJsx, judge, run, replay, outside, babelOk, died, ref, kinds, LOC, tail };
