'use strict';
const R = require('../lib/ref'), F = require('../lib/fid'), W = require('../lib/work'), K = require('../lib/wlk'), J = require('../lib/rej'), fs = require('fs'); const { Rng } = require('../lib/rng'); const { shrink } = require('../lib/shrink');
// what the helpers should answer, from the tree of the reference parser; undefined: not claimed
const patNames = (p, o = []) => { if (!p) return o; switch (p.type) { case 'Identifier': o.push(p.name); break; case 'ObjectPattern': p.properties.forEach(q => patNames(q.type === 'RestElement' ? q.argument : q.value, o)); break; case 'ArrayPattern': p.elements.forEach(q => patNames(q, o)); break; case 'AssignmentPattern': patNames(p.left, o); break; case 'RestElement': patNames(p.argument, o); } return o; };
const isFn = n => /^Function|^ArrowFunction/.test(n.type), isCls = n => /^Class(Dec|Exp)/.test(n.type);
function decNames(n) {
  if (n.type === 'VariableDeclaration') return [n.declarations.flatMap(d => patNames(d.id)), false];
  if (/^Function/.test(n.type) || isCls(n)) return [n.id ? [n.id.name] : [], false];
  if (n.type === 'ImportDeclaration') return [n.specifiers.filter(s => s.type !== 'ImportNamespaceSpecifier').map(s => s.type === 'ImportSpecifier' ? s.imported.name : s.local.name), n.specifiers.some(s => s.type === 'ImportNamespaceSpecifier')];
  if (n.type === 'ExportDefaultDeclaration') return [['default'], false];
  if (n.type === 'ExportAllDeclaration') return n.exported ? undefined : [[], true];
  if (n.type === 'ExportNamedDeclaration') return n.declaration ? decNames(n.declaration) : [n.specifiers.map(s => s.exported.name), false];
  return [[], false];
}
function nodeNames(n) {
  if (/^Function/.test(n.type)) return n.id ? [n.id.name] : null;
  if (n.type === 'VariableDeclaration') return n.declarations.length === 1 && n.declarations[0].id.type === 'Identifier' ? [n.declarations[0].id.name] : null;
  if (n.type === 'ImportDeclaration') return n.specifiers.map(s => s.local.name);
  if (n.type === 'ExportDefaultDeclaration') return ['default'];
  if (n.type === 'ExportAllDeclaration') return n.exported ? undefined : ['#all'];
  if (n.type === 'ExportNamedDeclaration') return n.declaration ? (isCls(n.declaration) ? undefined : nodeNames(n.declaration)) : null;
  if (n.type === 'Identifier' || n.type === 'JSXIdentifier') return [n.name];
  return isCls(n) || n.type === 'PrivateIdentifier' ? undefined : null;
}
function propName(n) { if (n.type === 'ChainExpression') return propName(n.expression); if (n.type === 'ParenthesizedExpression') return propName(n.expression); if (n.type !== 'MemberExpression') return ''; if (n.property.type === 'PrivateIdentifier') return undefined; return n.computed ? (n.property.type === 'Literal' || n.property.type === 'TemplateLiteral' ? undefined : '') : n.property.name; }
const prim = n => n.type === 'Identifier' || n.type === 'Literal';
let parens = new Set(); // the expressions in parentheses: mole keeps a node for those, nothing is claimed
function inParens(src, mode) { const o = new Set(); (function go(n) { if (!n || typeof n !== 'object') return; if (n.type === 'ParenthesizedExpression') { let x = n; while (x.type === 'ParenthesizedExpression') x = x.expression; o.add(x.start + ' ' + x.end); } for (const k in n) if (k !== 'loc') { const v = n[k]; if (Array.isArray(v)) v.forEach(go); else if (v && v.type) go(v); } })(K.parse(src, mode, { preserveParens: true })); return o; }
function plainArr(n) { if (n.type !== 'ArrayExpression') return false; let u; for (const e of n.elements) if (e) { const p = plain(e); if (p === false) return false; if (p === undefined) u = 1; } return u ? undefined : true; }
function plainObj(n) { if (n.type !== 'ObjectExpression') return false; let u; for (const q of n.properties) { if (q.type === 'SpreadElement' || q.computed) { u = 1; continue; } const p = plain(q.value); if (p === false) return false; if (p === undefined) u = 1; } return u ? undefined : true; }
function plain(n, top) { if (!top && parens.has(n.start + ' ' + n.end)) return undefined; if (prim(n)) return true; if (n.type === 'ArrayExpression') return plainArr(n); if (n.type === 'ObjectExpression') return plainObj(n); return false; }
const arg = c => c.sel ? { op: 'select', src: c.src, ...R.MODES.script, arg: c.vars } : { op: 'astu', src: c.src, ...R.MODES[c.mode] };
function judge(c, o) {
  const x = F.died(o); if (x) return { bad: x, cls: 'died ' + x.slice(0, 60) };
  if (!o.ok) return { skip: 'rejected' };
  if (o.val.bad.length) return { bad: o.val.bad[0], cls: o.val.bad[0].split(/[ (]/)[0] };
  let ast; try { ast = K.parse(c.src, c.mode); } catch { return { skip: 'reference rejects' }; }
  if (F.outside(c.src, ast)) return { skip: 'outside of the language claimed' };
  parens = inParens(c.src, c.mode); const by = new Map(); for (const r of o.val.recs) { const k = r.slice(0, 3).join(' '); if (!by.has(k)) by.set(k, []); by.get(k).push(r); }
  let n = 0, bad = null; const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
  (function go(e) {
    if (bad) return;
    const a = e.n; const rs = a.type === 'TemplateElement' || e.k === 'Ident' && a.type === 'JSXIdentifier' ? undefined : by.get([e.k, e.lo, e.hi].join(' '));
    if (a.type !== 'Property' && rs) for (const r of rs) {
      const ask = (what, want, got) => { if (want === undefined || bad) return; n++; if (!same(want, got)) bad = { bad: `${what} of ${e.k}@${e.lo}: ${JSON.stringify(got)}, should be ${JSON.stringify(want)}`, cls: what + ' ' + e.k }; };
      const d = decNames(a); if (d) ask('NamesInDecNode', d, [r[3], r[4]]);
      ask('GetNodeNames', nodeNames(a), r[5]); ask('GetStaticPropertyName', propName(a), r[6]);
      ask('GetName', a.type === 'PrivateIdentifier' ? undefined : a.type === 'Identifier' ? a.name : '', r[7]);
      if (a.type !== 'PrivateIdentifier') { ask('IsPrimitive', prim(a), !!(r[8] & 1)); ask('IsPlainArr', plainArr(a), !!(r[8] & 2)); ask('IsPlainObjLit', plainObj(a), !!(r[8] & 4)); ask('IsPlainObj', plain(a, true), !!(r[8] & 8)); ask('IsFn', isFn(a), !!(r[8] & 16)); }
    }
    e.ch.forEach(go);
  })(K.expected(ast, c.src));
  return bad || { n: n + o.val.asked };
}
// branches: programs printed from trees without parentheses
const VARS = [{ x: 1, z: 0, s: 'a', e: '' }, { x: 0, z: 1, s: '', e: 'b' }, { x: 2, z: 2, s: '0', e: '0' }];
function genSel(r) {
  let k = 0; const atom = () => r.pick([() => 'x', () => 'z', () => 's', () => 'e', () => '0', () => '1', () => '"a"', () => '""', () => '!x', () => '!s', () => 'x===z', () => 's!==e', () => 'x!=z'])();
  const and = () => { let t = { t: atom() }; for (let n = r.pick([0, 0, 1, 2]); n--;) t = { op: '&&', l: t, r: { t: atom() } }; return t; };
  const test = () => { let t = and(); for (let n = r.pick([0, 0, 0, 1, 2]); n--;) t = { op: '||', l: t, r: and() }; return t; };
  const body = () => { const i = k++; return r.pick([`f${i}();`, `{f${i}()}`, `{}`, `y=${i};`]); };
  const iff = d => ({ i: test(), c: { b: body() }, a: r.bool(0.7) ? (d && r.bool(0.6) ? iff(d - 1) : { b: body() }) : null });
  return r.pick([() => iff(3), () => iff(3), () => { const t = test(); return t.op ? t : { q: t, c: { t: 'f1()' }, a: { t: 'f2()' } }; }, () => ({ q: test(), c: { t: 'g(1)' }, a: { t: 'x' } })])();
}
const text = n => n.t !== undefined ? n.t : n.b !== undefined ? n.b : n.op ? text(n.l) + n.op + text(n.r) : n.q ? `${text(n.q)}?${text(n.c)}:${text(n.a)}` : `if(${text(n.i)})${text(n.c)}` + (n.a ? 'else ' + text(n.a) : '');
const val = (n, v) => Function('x', 'z', 's', 'e', 'return ' + text(n))(v.x, v.z, v.s, v.e);
const isBin = t => t.op ? t : /===|!==|!=/.test(t.t || '') ? { op: 'x', l: { t: t.t.split(/===|!==|!=/)[0] }, r: { t: t.t.split(/===|!==|!=/)[1] } } : null;
function sel(n, v) {
  if (n.i) { const p = sel(n.i, v); if (val(n.i, v)) return [...p, text(n.c)]; if (!n.a) return p; return n.a.i ? [...p, ...sel(n.a, v)] : [...p, text(n.a)]; }
  if (n.q) return [text(val(n.q, v) ? n.c : n.a)];
  const b = isBin(n); if (!b) return [];
  const w = b.op === '&&' ? val(b.l, v) : b.op === '||' ? !val(b.l, v) : true; return [text(b.l), ...(w ? [text(b.r)] : [])];
}
function judgeSel(c, o) {
  const x = F.died(o); if (x) return { bad: x, cls: 'died ' + x.slice(0, 60) };
  if (!o.ok) return { bad: 'rejected: ' + JSON.stringify(o.err), cls: 'rejected' };
  let n = 0;
  for (let i = 0; i < VARS.length; i++) { const w = sel(c.tree, VARS[i]), tr = s => s.replace(/;$/, ''); n++; if (JSON.stringify(w.map(tr)) !== JSON.stringify(o.val[i].map(tr))) return { bad: `SelectTrueBranches with ${JSON.stringify(VARS[i])}: ${JSON.stringify(o.val[i])}, should be ${JSON.stringify(w)}`, cls: 'SelectTrueBranches' }; }
  return { n, sel: 1 };
}
const any = (c, o) => c.sel ? judgeSel(c, o) : judge(c, o);
module.exports = {
  rule: 'generated programs, fragments, snippets and real files; the helpers asked about every node met and about random pairs and ancestors of nodes; if statements, conditional and logical expressions with three sets of variables; a case counts when at least 10 answers were compared',
  need: { 'programs': 8000, 'answers compared': 300000, 'selections compared': 5000 },
  async shard(ctx) {
    const d = ctx.driver(); const cases = []; const seed = 'C26|' + ctx.seed;
    for (const i of ctx.range(ctx.n(8000, 80000))) { const jsx = i % 4 === 0; const g = W.genProgram(seed, i, { gen: { jsx } }); cases.push({ src: g.src, mode: (jsx ? 'jsx' : '') + g.mode }); }
    W.snips().forEach((s, i) => { if (ctx.mine(i) && !s.ts) for (const mode of ['script', 'module', 'jsxmodule']) cases.push({ src: s.src, mode }); });
    let k = 0; for (const c of J.fragCells()) if (ctx.mine(k++)) cases.push({ src: c.src, mode: 'module' });
    for (const i of ctx.range(ctx.n(4000, 40000))) { const tree = genSel(new Rng(seed + '|sel|' + i)); cases.push({ sel: 1, tree, src: text(tree), vars: VARS }); }
    const files = W.realFiles(); const step = Math.max(1, Math.floor(files.length / ctx.n(100, 1500)));
    files.filter((f, i) => i % step === ((ctx.seed + 9) % step)).forEach((f, i) => { if (!ctx.mine(i)) return; const src = fs.readFileSync(f, 'utf8'); if (src.startsWith('#!') || src.includes('\ufffd')) return; const m = ['script', 'module'].find(m => F.ref(src, m).ast); if (m) cases.push({ src, mode: m }); });
    await d.all(cases, arg, async (c, o) => {
      ctx.ev(); const v = any(c, o);
      if (v.skip) { ctx.stat('skipped: ' + v.skip); return; }
      if (v.bad) {
        if (ctx.viol.length > 10) { ctx.stat('violations'); return; }
        const small = c.sel ? c.src : await shrink(c.src, async s => { const e = { ...c, src: s }; return judge(e, await d.req(arg(e))).cls === v.cls; }, 300);
        const w = c.sel ? v : judge({ ...c, src: small }, await d.req(arg({ ...c, src: small })));
        ctx.violation({ key: small, cls: v.cls, what: `${JSON.stringify(small).slice(0, 200)}: ${w.bad || v.bad}`, ...c, src: small, orig: c.src.slice(0, 5000) }); return;
      }
      if (v.sel) ctx.stat('selections compared', v.n); else { ctx.stat('programs'); ctx.stat('answers compared', v.n); }
      if (v.n > 10 || v.sel) ctx.distinct(c.src); if (c.src.length < 100 && v.n > 60) ctx.sample(c.src);
    }, 16);
  },
  async replay(c, ctx) { const d = ctx.driver(); const v = any(c, await d.req(arg(c))); console.log(c.src, v); if (v.bad) ctx.violation({ key: c.src, what: v.bad }); },
};
