'use strict';
// Plain JavaScript read in TypeScript mode: the tree of mole in JavaScript mode is the
// reference for the tree of mole in TypeScript mode. TypeScript only adds properties to
// the nodes of plain programs, empty ones, which are left out before the comparison.
const R = require('./ref'), acorn = R.acorn;
const strip = o => JSON.stringify(o, (k, v) => (v === null || v === undefined || v === false || (k === 'accessibility' && v === '') || (k === 'decorators' && Array.isArray(v) && !v.length) ? undefined : v));
const MOD = new Set(['public', 'private', 'protected', 'abstract', 'readonly', 'override', 'declare', 'accessor']);
// token sequences TypeScript itself reads in another way, or mole documents to
function outside(src, mode) {
  const toks = [];
  try { acorn.parse(src, { ecmaVersion: 13, sourceType: mode === 'module' ? 'module' : 'script', onToken: toks, allowHashBang: false }); } catch (e) { return 'reference rejects'; }
  const t = i => { const k = toks[i]; return k ? (k.type.keyword || (typeof k.value === 'string' && k.type.label !== 'string' && k.type.label !== 'template' ? k.value : k.type.label)) : ''; };
  const stack = []; let lt = false, arrow = false, colon = false;
  for (let i = 0; i < toks.length; i++) {
    const l = toks[i].type.label, x = t(i);
    if (l === "name" && MOD.has(x)) return "a modifier as a name";
    if (l === '(') { stack.push(i); if (t(i - 1) === '=>') arrow = true; }
    if (l === ')') { const o = stack.pop(); if (t(i + 1) === ':') { colon = true; if (t(o - 1) === 'async') return 'a parenthesis before a colon'; } }
    if (x === '<' && l !== 'string') { if (t(i - 1) === 'async') return 'async before <'; lt = true; }
    if (lt && (x === '>' || x === '>>' || x === '>>>') && l !== 'string' && (t(i + 1) === '(' || t(i + 1) === '`')) return 'type arguments';
    if (x === '<<' && l !== 'string') { if (t(i - 1) === 'async') return 'async before <'; lt = true; }
  }
  return arrow && colon ? 'a parenthesis before a colon' : '';
}
const req = (c, ts) => { const M = R.MODES[c.mode]; return { op: 'parse', src: c.src, off: M.off, on: [...(M.on || []), ...(ts ? ['TS'] : [])] }; };
function judge(c, a, b) {
  if (!a.ok) return { skip: 'rejected' };
  if (!b.ok) { const w = outside(c.src, c.mode); if (w) return { skip: w }; return { cls: 'rejected', bad: `parsed as JavaScript, as TypeScript: ${b.panic || b.hang || b.died || (b.err && b.err.msg)}` }; }
  const x = strip(a.val), y = strip(b.val); if (x === y) return { n: (x.match(/"type":/g) || []).length };
  const w = outside(c.src, c.mode); if (w) return { skip: w };
  let i = 0; while (x[i] === y[i]) i++; return { cls: 'tree', bad: `as JavaScript ...${x.slice(Math.max(0, i - 60), i + 60)}..., as TypeScript ...${y.slice(Math.max(0, i - 60), i + 60)}...` };
}
module.exports = { outside, req, judge };
