'use strict';
// expressions of the fragment the evaluator knows, as trees which are printed for mole and
// evaluated by the operators of this engine; null and undefined are one value in mole, so an
// operation whose outcome depends on which of the two it meets throws Skip
const { Rng } = require('./rng');
class Skip extends Error { }
const NUM = ['0', '1', '2', '3', '10', '0.5', '.5', '5.', '1e3', '1E-7', '1.5e+2', '0x1f', '0XAB', '0o17', '0b101', '1_000', '1e21', '1e22', '123456789012345680000', '0.000001', '0.0000001', '9007199254740993', '1e400', '255', '100', '1e-320', '3.14159', '0.1', '0.2'];
const STR = ['', 'a', 'b', '0', '1', '10', ' 1 ', '1e3', '0x10', '-1', '+2', '.5', '5.', 'Infinity', '-Infinity', 'inf', 'nan', 'NaN', '1_0', '0x', '0b11', '0o7', '-0x1', '1 2', 'true', 'development', 'é', '\n', '\t3\n', '\u00a04', '1e', 'e1', '1.2.3', '+-1', '0x1p1', '1,2', '01', '1.0', 'infinity', '[object Object]', '0b2', '0xg', '  ', '\ufeff7'];
const VARS = ['a', 'b', 'c', 'd', 'e', 'o', 'p', 'q'];
const KEYS = ['x', 'y', 'env', 'k1', '0', '1', '2', 'A B'];
function genVal(r, d = 0) {
  return r.weighted([[3, () => ({ v: Number(r.pick(NUM).replace(/_/g, '')) })], [3, () => ({ v: r.pick(STR) })], [1, () => ({ v: r.bool() })], [0.4, () => ({ v: null })], [2, () => ({ i: r.int(5) - 1 })],
  [d < 2 ? 2 : 0, () => ({ arr: Array.from({ length: 1 + r.int(4) }, () => genVal(r, d + 1)) })],
  [d < 2 ? 3 : 0, () => ({ obj: Object.fromEntries(r.shuffle(KEYS.slice()).slice(0, 1 + r.int(4)).map(k => [k, genVal(r, d + 1)])) })]])();
}
const fin = v => v === Infinity ? 1e308 : v;
function toWire(v) { if ('i' in v) return { $i: v.i }; if (v.arr) return v.arr.map(toWire); if (v.obj) return { $o: Object.fromEntries(Object.entries(v.obj).map(([k, e]) => [k, toWire(e)])) }; return typeof v.v === 'number' ? fin(v.v) : v.v; }
function toJs(v) { if ('i' in v) return v.i; if (v.arr) return v.arr.map(toJs); if (v.obj) return Object.assign(Object.create(null), Object.fromEntries(Object.entries(v.obj).map(([k, e]) => [k, toJs(e)]))); return typeof v.v === 'number' ? fin(v.v) : v.v; }
function genVars(r) { const o = {}; for (const n of VARS) if (r.bool(0.95)) o[n] = genVal(r, 'opq'.includes(n) ? (r.bool(0.8) ? -1 : 0) : r.int(3)); return o; }
const wire = o => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, toWire(v)]));
const jsv = o => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, toJs(v)]));

function strLit(r, s) {
  const q = r.pick(['"', "'"]); let o = '';
  for (const ch of s) {
    const c = ch.codePointAt(0);
    if (ch === '\n') o += '\\n'; else if (ch === '\t') o += r.bool() ? '\\t' : '\\x09'; else if (ch === q || ch === '\\') o += '\\' + ch;
    else if (r.bool(0.1)) o += '\\u' + c.toString(16).padStart(4, '0'); else if (c < 256 && r.bool(0.1)) o += '\\x' + c.toString(16).padStart(2, '0'); else if (r.bool(0.05)) o += `\\u{${c.toString(16)}}`; else o += ch;
  }
  return q + o + q;
}
// opts.calls: () => next marker
function genExpr(r, d, opts = {}) {
  const sub = () => genExpr(r, d - 1, opts);
  const lit = () => r.weighted([[4, () => { const s = r.pick(NUM); return { t: 'lit', src: s, v: Number(s.replace(/_/g, '')) }; }], [4, () => { const s = r.pick(STR); return { t: 'lit', src: strLit(r, s), v: s }; }],
  [2, () => { const b = r.bool(); return { t: 'lit', src: String(b), v: b }; }], [0.5, () => ({ t: 'lit', src: 'null', v: null })], [0.5, () => ({ t: 'lit', src: 'undefined', v: undefined })], [5, () => ({ t: 'var', n: r.pick(VARS) })]])();
  if (d <= 0) return opts.calls && r.bool(0.15) ? { t: 'req', n: opts.calls() } : lit();
  return r.weighted([
    [5, () => ({ t: 'bin', op: r.pick(['+', '+', '-', '*', '/']), l: sub(), r: sub() })],
    [5, () => ({ t: 'bin', op: r.pick(['==', '!=', '===', '!==']), l: sub(), r: sub() })],
    [5, () => ({ t: 'bin', op: r.pick(['&&', '||', '&&', '||', '??']), l: sub(), r: sub() })],
    [4, () => ({ t: 'un', op: r.pick(['!', '!', '-', '+']), a: sub() })],
    [3, () => ({ t: 'mem', o: { t: 'var', n: r.pick(['o', 'p', 'q']) }, k: r.pick(KEYS.filter(k => /^[a-z]/.test(k))) })],
    [3, () => ({ t: 'mem', o: r.bool(0.7) ? { t: 'var', n: r.pick(['o', 'p', 'q']) } : sub(), k: r.pick(KEYS.filter(k => /^[a-z]/.test(k))), opt: r.bool(0.15) })],
    [4, () => ({ t: 'idx', o: r.bool(0.7) ? { t: 'var', n: r.pick(['o', 'p', 'q']) } : sub(), k: r.bool(0.5) ? lit() : sub(), opt: r.bool(0.1) })],
    [2, () => ({ t: 'arr', e: Array.from({ length: 1 + r.int(4) }, () => r.bool(0.07) ? null : sub()) })],
    [2, () => ({ t: 'inc', o: r.bool(0.6) ? { t: 'arr', e: Array.from({ length: 1 + r.int(4) }, sub) } : { t: 'var', n: r.pick(['o', 'p', 'q']) }, a: r.int(12) ? sub() : null })],
    [opts.cond ? 3 : 0, () => ({ t: 'cond', c: sub(), l: sub(), r: sub() })],
    [opts.calls ? 4 : 0, () => ({ t: 'req', n: opts.calls(), a: r.bool(0.2) ? sub() : null })],
    [1, lit], [1, () => ({ t: 'paren', a: sub() })]])();
}
const PREC = { '??': 1, '||': 2, '&&': 3, '==': 4, '!=': 4, '===': 4, '!==': 4, '+': 5, '-': 5, '*': 6, '/': 6 };
function prec(e) { return e.t === 'bin' ? PREC[e.op] : e.t === 'un' ? 7 : e.t === 'cond' ? 0.5 : 9; }
const sp = r => r.weighted([[8, ' '], [4, ''], [1, '\n'], [1, '/*c*/']]);
function print(r, e) {
  const at = (x, p) => prec(x) < p || r.bool(0.05) ? '(' + print(r, x) + ')' : print(r, x);
  switch (e.t) {
    case 'lit': return e.src;
    case 'var': return e.n;
    case 'paren': return '(' + print(r, e.a) + ')';
    case 'un': { const s = at(e.a, 7); return e.op + (s[0] === e.op && e.op !== '!' ? ' ' : '') + s; }
    case 'bin': {
      const p = PREC[e.op], nn = x => x.t === 'bin' && (e.op === '??' ? x.op === '&&' || x.op === '||' : (e.op === '&&' || e.op === '||') && x.op === '??') ? '(' + print(r, x) + ')' : null;
      return (nn(e.l) || at(e.l, p)) + ' ' + e.op + ' ' + (nn(e.r) || at(e.r, p + 1));
    }
    case 'cond': return at(e.c, 1) + sp(r) + '?' + sp(r) + print(r, e.l) + ' :' + sp(r) + print(r, e.r);
    case 'mem': return obj(r, e.o) + (e.opt ? '?.' : '.') + e.k;
    case 'idx': return obj(r, e.o) + (e.opt ? '?.[' : '[') + print(r, e.k) + ']';
    case 'arr': return '[' + e.e.map(x => x ? print(r, x) : '').join(',') + (e.e[e.e.length - 1] ? '' : ',') + ']';
    case 'inc': return obj(r, e.o) + '.includes(' + (e.a ? print(r, e.a) : '') + ')';
    case 'req': return `req(${e.n}${e.a ? ', ' + print(r, e.a) : ''})`;
  }
}
function obj(r, e) { const s = print(r, e); return prec(e) < 9 || /^[\d.]/.test(s) || s.includes('?.') && e.t !== 'paren' ? '(' + s + ')' : s; }
const nil = v => v === null || v === undefined;
const isObj = v => typeof v === 'object' && v !== null;
function str(v) { return Array.isArray(v) ? v.map(x => nil(x) ? '' : str(x)).join(',') : isObj(v) ? '[object Object]' : v; }
function ev(e, vars, log) {
  const go = x => ev(x, vars, log);
  switch (e.t) {
    case 'lit': return e.v;
    case 'var': return vars[e.n];
    case 'paren': return go(e.a);
    case 'un': { const a = go(e.a); if (e.op === '!') return !a; if (nil(a)) throw new Skip(); return e.op === '-' ? -str(a) : +str(a); }
    case 'bin': {
      const l = go(e.l);
      if (e.op === '&&') return l ? go(e.r) : l; if (e.op === '||') return l ? l : go(e.r); if (e.op === '??') return nil(l) ? go(e.r) : l;
      const r = go(e.r);
      if (Array.isArray(l) && Array.isArray(r) && !l.length && !r.length) throw new Skip();
      if (e.op === '===' || e.op === '!==') { if (nil(l) && nil(r)) throw new Skip(); return e.op === '===' ? l === r : l !== r; }
      if (e.op === '==' || e.op === '!=') { let q; if (nil(l) || nil(r)) q = nil(l) && nil(r); else if (isObj(l) && isObj(r)) q = l === r; else q = str(l) == str(r); return e.op === '==' ? q : !q; }
      if (nil(l) || nil(r)) throw new Skip();
      const a = str(l), b = str(r);
      return e.op === '+' ? a + b : e.op === '-' ? a - b : e.op === '*' ? a * b : a / b;
    }
    case 'cond': return go(e.c) ? go(e.l) : go(e.r);
    case 'mem': case 'idx': {
      const o = go(e.o); if (nil(o)) { if (e.opt && e.t === 'mem') return undefined; throw new Skip(); } if (!isObj(o)) throw new Skip();
      let k = e.t === 'mem' ? e.k : go(e.k); if (nil(k)) throw new Skip(); k = String(str(k));
      if (Array.isArray(o) && /^(length|[a-z]\w*)$/i.test(k) && !KEYS.includes(k) && !STR.includes(k)) throw new Skip();
      return Object.prototype.hasOwnProperty.call(o, k) && !(Array.isArray(o) && k === 'length') ? o[k] : undefined;
    }
    case 'arr': return e.e.map(x => x ? go(x) : undefined);
    case 'inc': { const o = go(e.o); if (!Array.isArray(o)) throw new Skip(); const a = e.a ? go(e.a) : undefined; if (nil(a) && o.some(nil)) throw new Skip(); return o.includes(a); }
    case 'req': { if (e.a) go(e.a); if (log) log.push(e.n); return undefined; }
  }
}
const buf = new DataView(new ArrayBuffer(8));
function show(v) {
  if (nil(v)) return 'nil'; if (typeof v === 'boolean') return v; if (typeof v === 'string') return 's:' + v;
  if (typeof v === 'number') { if (Object.is(v, -0)) return 'n:-0'; if (Number.isNaN(v)) return 'n:NaN'; buf.setFloat64(0, v); return 'n:' + buf.getBigUint64(0).toString(16); }
  if (Array.isArray(v)) return v.map(show); return Object.fromEntries(Object.entries(v).map(([k, e]) => [k, show(e)]));
}
const norm = x => typeof x === 'string' && /^n:[7f]ff[8-f0][0-9a-f]{12}$/.test(x) && !/^n:[7f]ff0{13}$/.test(x) ? 'n:NaN' : Array.isArray(x) ? x.map(norm) : x && typeof x === 'object' ? Object.fromEntries(Object.keys(x).sort().map(k => [k, norm(x[k])])) : x;
const same = (a, b) => JSON.stringify(norm(a)) === JSON.stringify(norm(b));

function genCase(seed, i) {
  const r = new Rng(seed + '|' + i); const e = genExpr(r, r.range(1, 4)); const src = print(r, e);
  return { src, tree: e, vars: Array.from({ length: 4 }, () => genVars(r)) };
}
// statements with calls of req in the branches
function genProg(seed, i) {
  const r = new Rng(seed + '|p|' + i); let n = 1000, y = 0; const calls = () => n++;
  const E = d => genExpr(r, d, { calls, cond: false });
  // conditional expressions are not values of the evaluator's fragment: they stand where no value is wanted
  const V = d => r.weighted([[3, () => E(d)], [2, () => ({ t: 'cond', c: E(d), l: d > 0 ? V(d - 1) : E(0), r: d > 0 ? V(d - 1) : E(0) })], [2, () => ({ t: 'bin', op: r.pick(['&&', '||', '??']), l: E(d), r: d > 0 ? V(d - 1) : E(0) })], [2, () => ({ t: 'req', n: calls() })]])();
  const S = d => {
    const k = d <= 0 ? r.pick(['x', 'x', 'v']) : r.pick(['if', 'if', 'ifelse', 'ifelse', 'elseif', 'x', 'x', 'v', 'b', 'iife', 'seq', 'args', 'empty']);
    switch (k) {
      case 'if': return { s: k, c: E(2), a: S(d - 1) };
      case 'ifelse': return { s: 'if', c: E(2), a: S(d - 1), b: S(d - 1) };
      case 'elseif': return { s: 'if', c: E(2), a: S(d - 1), b: { s: 'if', c: E(2), a: S(d - 1), b: r.bool() ? S(d - 1) : null } };
      case 'x': return { s: k, e: V(2) };
      case 'v': return { s: k, n: 'y' + y++, e: V(2) };
      case 'b': case 'iife': return { s: k, l: Array.from({ length: 1 + r.int(3) }, () => S(d - 1)), arrow: r.bool() };
      case 'seq': case 'args': return { s: k, l: Array.from({ length: 2 + r.int(2) }, () => V(1)) };
      default: return { s: 'empty' };
    }
  };
  const P = s => {
    switch (s.s) {
      case 'if': return `if (${print(r, s.c)}) ${s.b ? '{' + P(s.a) + '}' : P(s.a)}` + (s.b ? ' else ' + P(s.b) : '');
      case 'x': { const t = print(r, s.e); return t + ';'; }
      case 'v': return `var ${s.n} = ${print(r, s.e)};`;
      case 'b': return '{' + s.l.map(P).join(r.pick(['\n', ' '])) + '}';
      case 'iife': return s.arrow ? `(() => {${s.l.map(P).join('\n')}})();` : `(function () {${s.l.map(P).join('\n')}})();`;
      case 'seq': return s.l.map(e => print(r, e)).join(', ') + ';';
      case 'args': return `q0([${s.l.map(e => print(r, e)).join(', ')}]);`;
      default: return ';';
    }
  };
  const run = (s, vars, log) => {
    switch (s.s) {
      case 'if': if (ev(s.c, vars, log)) run(s.a, vars, log); else if (s.b) run(s.b, vars, log); return;
      case 'x': case 'v': ev(s.e, vars, log); return;
      case 'b': case 'iife': for (const x of s.l) run(x, vars, log); return;
      case 'seq': case 'args': for (const e of s.l) ev(e, vars, log); return;
    }
  };
  const prog = Array.from({ length: 1 + r.int(4) }, () => S(r.range(1, 3)));
  const src = prog.map(P).join('\n');
  return { src, vars: Array.from({ length: 4 }, () => genVars(r)), run: (vars, log) => { for (const s of prog) run(s, vars, log); } };
}
module.exports = { Skip, genCase, genProg, ev, show, same, wire, jsv };
