'use strict';
// Reference parsers and the normalisation of their trees to the conventions
// mole documents (ESTree / acorn for JS and JSX, babel for TypeScript).
const NM = process.env.VT_NODE_MODULES || '/opt/veriftools/node/node_modules/';
const acorn = require(NM + 'acorn');
let _jsx, _babel;
const jsx = () => _jsx || (_jsx = acorn.Parser.extend(require(NM + 'acorn-jsx')()));
const babel = () => _babel || (_babel = require(NM + '@babel/parser'));

// feature sets of mole
const MODES = {
  module: { off: ['JSX'] },
  script: { off: ['JSX', 'MODULE', 'STRICT', 'GLOBAL_ASYNC'] },
  jsxmodule: { on: ['JSX_NS'] },
  jsxscript: { on: ['JSX_NS'], off: ['MODULE', 'STRICT', 'GLOBAL_ASYNC'] },
};
function acornParse(src, mode) {
  const P = mode.startsWith('jsx') ? jsx() : acorn.Parser;
  const notes = { comments: [], tokens: [] };
  const ast = P.parse(src, {
    ecmaVersion: 13, sourceType: mode.endsWith('module') ? 'module' : 'script', locations: true,
    allowHashBang: false, onComment: notes.comments,
  });
  return { ast, notes };
}
// UTF-16 offset -> byte offset, and (line, utf16 col) -> (line, rune col)
function offsetMap(src) {
  if (!/[^\x00-\x7f]/.test(src)) return null;
  const m = new Uint32Array(src.length + 1); const runes = new Uint32Array(src.length + 1);
  let b = 0, r = 0;
  for (let i = 0; i < src.length; i++) {
    m[i] = b; runes[i] = r;
    const c = src.charCodeAt(i);
    if (c < 0x80) { b += 1; r++; } else if (c < 0x800) { b += 2; r++; }
    else if (c >= 0xd800 && c < 0xdc00 && i + 1 < src.length) { b += 4; r++; i++; m[i] = b - 2; runes[i] = r; }
    else { b += 3; r++; }
  }
  m[src.length] = b; runes[src.length] = r;
  return { m, runes };
}
// mole ends lines at LF, CR and CRLF, U+2028 and U+2029 do not count
function lineStarts(src) { const a = [0]; const re = /\r\n|[\n\r]/g; while (re.exec(src)) a.push(re.lastIndex); return a; }
function locator(src) {
  const om = offsetMap(src), ls = lineStarts(src);
  return {
    byte: o => om ? om.m[o] : o,
    pos(o) {
      let lo = 0, hi = ls.length - 1;
      while (lo < hi) { const m = (lo + hi + 1) >> 1; if (ls[m] <= o) lo = m; else hi = m - 1; }
      return { line: lo + 1, column: om ? om.runes[o] - om.runes[ls[lo]] : o - ls[lo] };
    },
  };
}

function norm(ast, src) {
  const L = locator(src);
  function go(n) {
    if (Array.isArray(n)) return n.map(go);
    if (!n || typeof n !== 'object') return typeof n === 'bigint' ? undefined : n;
    if (n instanceof RegExp) return undefined;
    const o = {};
    for (const k of Object.keys(n)) {
      if (k === 'start' || k === 'end') { o[k] = L.byte(n[k]); continue; }
      if (k === 'loc') { o.loc = { start: L.pos(n.start), end: L.pos(n.end) }; continue; }
      if (k === 'range') continue;
      o[k] = go(n[k]);
    }
    // mole gives the value of the directive, pinned by TestDirective16
    if (n.directive !== undefined && n.expression) o.directive = n.expression.value;
    switch (n.type) {
      case 'Program': delete o.sourceType; break;
      case 'Literal':
        if (n.raw === 'true' || n.raw === 'false' || n.raw === 'null') delete o.raw;
        if (n.regex) { o.regexp = o.regex; delete o.regex; delete o.value; delete o.raw; }
        if (n.bigint) delete o.value;
        if (n.value === Infinity) o.value = 0; // pinned by TestNumSep2: JSON has no infinity
        break;
      case 'TemplateElement': // the raw value is the source text, illegal escapes give the empty string
        o.value = { raw: src.slice(n.start, n.end), cooked: n.value.cooked === null ? '' : o.value.cooked };
        break;
      case 'JSXNamespacedName': o.namespace = n.namespace.name; o.name = n.name.name; break; // strings, pinned by the tests
      case 'JSXOpeningFragment': delete o.attributes; delete o.selfClosing; break;
      case 'JSXText': delete o.bigint; break;
      case 'FunctionDeclaration': case 'FunctionExpression': delete o.expression; break;
    }
    return o;
  }
  return go(ast);
}
// first difference between the reference (a) and mole (b); keys of a decide
function diff(a, b, p, opt) {
  if (a === b) return null;
  if (typeof a === 'number' && typeof b === 'number') { if (Object.is(a, b)) return null; }
  if (a === undefined) return null;
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') {
    if (a === null && b === undefined && opt && opt.nullIsMissing) return null;
    return p + ': ref=' + short(a) + ' mole=' + short(b);
  }
  if (Array.isArray(a)) {
    if (!Array.isArray(b) || a.length !== b.length) return p + ': ref len ' + a.length + ' ' + short(a) + ' mole ' + short(b);
    for (let i = 0; i < a.length; i++) { const d = diff(a[i], b[i], p + '[' + i + ']', opt); if (d) return d; }
    return null;
  }
  if (a.type !== b.type) return p + ': ref type ' + a.type + ' mole type ' + b.type;
  for (const k of Object.keys(a)) {
    if (opt && opt.skip && opt.skip.has(k)) continue;
    const d = diff(a[k], b[k], p + '.' + (a.type || '') + '/' + k, opt); if (d) return d;
  }
  return null;
}
function short(x) { let s; try { s = JSON.stringify(x); } catch { s = String(x); } return s === undefined ? 'undefined' : s.length > 90 ? s.slice(0, 90) + '…' : s; }
module.exports = { NM, acorn, babel, acornParse, norm, diff, MODES, offsetMap, lineStarts, locator, short };
