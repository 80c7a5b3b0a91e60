'use strict';
// Grammar-directed generator of programs. A program is a flat list of tokens:
// strings, plus the markers NONL (no line terminator may stand here), SEMI (a
// statement terminator that may be left to automatic insertion) and GLUE (no
// white space here). render() turns the list into source text in a layout.
const { Rng } = require('./rng');
const NONL = { nonl: true }, SEMI = { semi: true }, GLUE = { glue: true };

const BIN = [['??', 1], ['||', 1], ['&&', 2], ['|', 3], ['^', 4], ['&', 5], ['==', 6], ['!=', 6], ['===', 6], ['!==', 6],
['<', 7], ['>', 7], ['<=', 7], ['>=', 7], ['instanceof', 7], ['in', 7], ['<<', 8], ['>>', 8], ['>>>', 8], ['+', 9], ['-', 9], ['*', 10], ['/', 10], ['%', 10], ['**', 11]];
const ASSIGN = ['=', '=', '=', '=', '+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^=', '&&=', '||=', '??='];
const NAMES = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z', 'foo', 'bar', 'baz', '$', '_', 'obj', 'arr', 'Name', 'x1', '$el', '_p', 'undefined', 'NaN'];
const CTXNAMES = ['of', 'get', 'set', 'async', 'from', 'as', 'target', 'type', 'meta'];
const KWPROP = ['if', 'in', 'for', 'return', 'class', 'new', 'delete', 'typeof', 'default', 'null', 'true', 'this', 'function', 'yield', 'await', 'let', 'static', 'get', 'set', 'async', 'of', 'constructor', 'prototype', 'import', 'export', 'super', 'instanceof', 'enum', 'var', 'case', 'void', 'while'];

class Gen {
  constructor(seed, o = {}) {
    this.r = new Rng(seed);
    this.o = Object.assign({ mode: 'module', depth: 5, stmts: 4, jsx: false, unicode: false, uniq: true }, o);
    this.out = []; this.uid = 0;
    this.fn = { async: this.o.mode.endsWith('module'), gen: false, arrow: false, top: true, method: false, ctor: false, derived: false };
    this.strict = this.o.mode.endsWith('module');
    this.loop = 0; this.sw = 0; this.labels = []; this.noIn = 0; this.noYA = 0;
    this.privs = []; this.stats = {};
  }
  hit(k) { this.stats[k] = (this.stats[k] || 0) + 1; }
  t(...xs) { for (const x of xs) this.out.push(x); return this; }
  uname(p = 'v') { return p + (this.uid++); }
  name() {
    const r = this.r;
    if (this.o.unicode && r.bool(0.15)) return r.pick(['é', 'π', '变量', 'ñame', '𝒜', 'a\u200c', 'ªb']);
    if (this.o.escid && r.bool(0.1)) return r.pick(['\\u0061bc', 'x\\u{62}', '\\u{1d49c}', 'a\\u0031']);
    if (r.bool(0.06)) return r.pick(CTXNAMES);
    if (!this.strict && r.bool(0.03)) return r.pick(['let', 'static', 'implements', 'yield', 'await', 'package'].filter(n => !(n === 'yield' && this.fn.gen) && !(n === 'await' && this.fn.async) && n !== 'let'));
    return r.pick(NAMES);
  }
  // a binding name that cannot clash with another lexical declaration
  bname() { return this.uname(this.r.pick(['v', 'k', 'q', 'w'])); }
  sub(f) { const save = this.out; this.out = []; f(); const s = this.out; this.out = save; return s; }

  // ---------- expressions; p is the minimum precedence context:
  // 0 sequence, 1 assignment, 2 conditional, 3.. binary (3 + prec), 20 unary, 21 update, 22 lhs (call/member), 23 member(new callee), 24 primary
  expr(p = 1, d = 0) {
    const r = this.r;
    if (r.bool(0.04) && d < this.o.depth + 2) { this.hit('paren'); this.t('('); const ni = this.noIn; this.noIn = 0; this.expr(r.bool(0.1) ? 0 : 1, d + 1); this.noIn = ni; this.t(')'); return; }
    const deep = d >= this.o.depth;
    const c = [];
    if (!deep) {
      if (p <= 0) c.push([2, 'seq']);
      if (p <= 1) c.push([3, 'assign'], [2.2, 'arrow'], [0.5, 'destr'], [0.6, 'asyncArrow']);
      if (p <= 1 && this.fn.gen && !this.noYA) c.push([2, 'yield']);
      if (p <= 2) c.push([2, 'cond']);
      if (p <= 18) c.push([7, 'bin']);
      if (p <= 20) c.push([3, 'unary'], [this.fn.async && !this.noYA ? 2 : 0, 'await']);
      if (p <= 21) c.push([1.5, 'update']);
      if (p <= 22) c.push([5, 'call'], [1.5, 'optchain'], [0.3, 'import'], [0.5, 'newNoArgs']);
      if (p <= 23) c.push([5, 'member'], [1.5, 'new'], [0.7, 'tagged'], [0.3, 'meta']);
      if (this.fn.method && p <= 23) c.push([0.7, 'super']);
      c.push([3, 'array'], [3, 'object'], [1.5, 'function'], [0.8, 'class'], [2, 'template'], [1, 'paren']);
      if (this.o.jsx && p <= 22) c.push([4, 'jsx']);
    }
    c.push([6, 'ident'], [3, 'num'], [3, 'str'], [1.5, 'kwlit'], [0.8, 'regex'], [0.4, 'bigint']);
    if (deep && r.bool(0.1)) c.push([2, 'plaintpl'], [2, 'empty']);
    let k = r.weighted(c);
    this.hit('e:' + k);
    this['e_' + k](p, d + 1);
  }
  paren(f) { this.t('('); const ni = this.noIn; this.noIn = 0; f(); this.noIn = ni; this.t(')'); }
  nest(f) { const ni = this.noIn; this.noIn = 0; f(); this.noIn = ni; }
  e_paren(p, d) { this.paren(() => this.expr(0, d)); }
  e_seq(p, d) { const n = this.r.range(2, 3); for (let i = 0; i < n; i++) { if (i) this.t(','); this.expr(1, d); } }
  // simple assignment target
  target(d) { const r = this.r; if (r.bool(0.5) || d > this.o.depth) return this.t(this.assignable()); this.e_member(23, d, true); }
  assignable() { let n; do { n = this.name(); } while (n === 'undefined' || n === 'NaN'); return n; }
  e_assign(p, d) { const op = this.r.pick(ASSIGN); this.target(d); this.t(op); this.expr(1, d); }
  e_destr(p, d) { // destructuring assignment; an object pattern is always parenthesised in a statement-safe way
    if (this.r.bool()) this.paren(() => { this.pat(d, false); this.t('='); this.expr(1, d); });
    else this.paren(() => { this.arrPat(d, false); this.t('='); this.expr(1, d); });
  }
  e_cond(p, d) { this.expr(3, d); this.t('?'); this.nest(() => this.expr(1, d)); this.t(':'); this.expr(1, d); }
  e_bin(p, d) {
    const r = this.r; const min = Math.max(0, p - 3);
    let ops = BIN.filter(o => o[1] >= min && !(o[0] === 'in' && this.noIn));
    if (this.inNullish) ops = ops.filter(o => o[0] !== '||' && o[0] !== '&&');
    if (this.inLogic) ops = ops.filter(o => o[0] !== '??');
    if (!ops.length) return this.e_ident(p, d);
    const [op, pr] = r.pick(ops); this.hit('bin:' + op);
    const sn = this.inNullish, sl = this.inLogic;
    if (op === '??') this.inNullish = true; if (op === '&&' || op === '||') this.inLogic = true;
    if (op === '**') { this.sub2(() => this.expr(21, d)); this.t('**'); this.expr(r.bool(0.4) ? 3 + 11 : 20, d); }
    else { this.expr(3 + pr, d); this.t(op); this.expr(3 + pr + 1, d); }
    this.inNullish = sn; this.inLogic = sl;
  }
  sub2(f) { f(); }
  clearLogic(f) { const a = this.inNullish, b = this.inLogic; this.inNullish = this.inLogic = false; f(); this.inNullish = a; this.inLogic = b; }
  e_unary(p, d) {
    const op = this.r.pick(['!', '-', '+', '~', 'typeof', 'void', 'delete', '!', '-']); this.t(op);
    if (op === 'delete') { this.clearLogic(() => this.e_member(23, d, true)); return; }
    this.clearLogic(() => this.expr(20, d));
  }
  e_await(p, d) { this.t('await'); this.clearLogic(() => this.expr(20, d)); }
  e_yield(p, d) {
    const r = this.r; this.t('yield');
    if (r.bool(0.25)) { this.t(NONL, '*'); this.expr(1, d); } else if (r.bool(0.75)) { this.t(NONL); this.expr(1, d); }
    else { // bare yield must be followed by a closing token: parenthesise
      this.out.pop(); this.t('(', 'yield', ')');
    }
  }
  e_update(p, d) { const op = this.r.pick(['++', '--']); if (this.r.bool()) { this.t(op); this.target(d); } else { this.target(d); this.t(NONL, op); } }
  callee(d) { this.clearLogic(() => this.expr(22, d)); }
  args(d) {
    this.t('('); this.clearLogic(() => this.nest(() => {
      const n = this.r.weighted([[3, 0], [4, 1], [2, 2], [1, 3]]);
      for (let i = 0; i < n; i++) { if (i) this.t(','); if (this.r.bool(0.12)) this.t('...'); this.expr(1, d); }
      if (n && this.r.bool(0.08)) this.t(',');
    })); this.t(')');
  }
  e_call(p, d) { this.callee(d); this.args(d); }
  e_newNoArgs(p, d) { this.t('new'); this.clearLogic(() => this.newCallee(d)); }
  e_new(p, d) { this.t('new'); this.clearLogic(() => this.newCallee(d)); this.args(d); }
  newCallee(d) { // a MemberExpression without calls
    const r = this.r;
    if (r.bool(0.6)) this.t(this.name()); else if (r.bool(0.5)) this.paren(() => this.expr(0, d)); else this.t('this');
    for (let i = r.int(3); i > 0; i--) this.memSuffix(d);
  }
  memSuffix(d) {
    const r = this.r;
    if (r.bool(0.6)) this.t('.', this.propId()); else if (this.privs.length && this.privs[this.privs.length - 1].length && r.bool(0.5)) this.t('.', '#' + r.pick(this.privs[this.privs.length - 1]));
    else { this.t('['); this.nest(() => this.clearLogic(() => this.expr(r.bool(0.1) ? 0 : 1, d))); this.t(']'); }
  }
  propId() { return this.r.bool(0.15) ? this.r.pick(KWPROP) : this.name(); }
  objExpr(d) { // object of a member access: avoid a bare number literal and object/function at the start
    this.clearLogic(() => this.expr(22, d));
  }
  e_member(p, d, plain) {
    const r = this.r;
    if (plain || p >= 23) { if (r.bool(0.7)) this.t(this.name()); else if (r.bool()) this.t('this'); else this.paren(() => this.expr(0, d)); }
    else this.objExpr(d);
    for (let i = r.weighted([[4, 1], [2, 2], [1, 3]]); i > 0; i--) this.memSuffix(d);
  }
  e_optchain(p, d) {
    const r = this.r; const s = this.sub(() => this.objExpr(d)); if (s[0] === 'new') this.t('(', ...s, ')'); else this.t(...s);
    const opt = () => { if (r.bool(0.5)) this.t('?.', this.propId()); else if (r.bool()) { this.t('?.', '['); this.nest(() => this.clearLogic(() => this.expr(1, d))); this.t(']'); } else { this.t('?.'); this.args(d); } };
    opt(); for (let i = r.int(3); i > 0; i--) { const k = r.int(3); if (k === 0) this.memSuffix(d); else if (k === 1) this.args(d); else opt(); }
  }
  e_import(p, d) { this.t('import', '('); this.nest(() => this.clearLogic(() => this.expr(1, d))); this.t(')'); }
  e_meta(p, d) {
    if (!this.fn.top && !this.fn.arrow && this.r.bool(0.5)) return this.t('new', '.', 'target');
    if (this.o.mode.endsWith('module')) return this.t('import', '.', 'meta');
    this.t('this');
  }
  e_super(p, d) {
    if (p <= 22 && this.fn.ctor && this.fn.derived && this.r.bool(0.3)) { this.t('super'); return this.args(d); }
    this.t('super'); if (this.r.bool(0.7)) this.t('.', this.propId()); else { this.t('['); this.nest(() => this.clearLogic(() => this.expr(1, d))); this.t(']'); }
  }
  e_tagged(p, d) { const r = this.r; this.t(this.name()); if (r.bool(0.4)) this.memSuffix(d); this.template(d); }
  e_template(p, d) { this.template(d); }
  e_plaintpl() { this.t('`' + this.tplChunk() + '`'); }
  e_empty() { this.t(...this.r.pick([['[', ']'], ['(', '{', '}', ')'], ['(', ')', NONL, '=>', '{', '}'], ['(', 'function', '(', ')', '{', '}', ')']].slice(0, 2))); }
  tplChunk() { const r = this.r; return r.pick(['', '', 'a', ' b ', 'x\ny', '$', '$$', '\\n', '\\`', '\\${', '{}', '"', "'", '//', '/*', '\\u0041', '\\x41', '\\u{1F600}', this.o.unicode ? 'é变' : 'e', '\\\n', '\\0']); }
  template(d) {
    const r = this.r; const n = r.weighted([[2, 0], [3, 1], [2, 2], [1, 3]]);
    if (!n) return this.t('`' + this.tplChunk() + '`');
    this.clearLogic(() => this.nest(() => {
      const fix = s => s.replace(/\$$/, '');
      this.t('`' + fix(this.tplChunk()) + '${');
      for (let i = 0; i < n; i++) { this.expr(r.bool(0.1) ? 0 : 1, d); this.t('}' + (i === n - 1 ? this.tplChunk() + '`' : fix(this.tplChunk()) + '${')); }
    }));
  }
  jsxName() {
    const r = this.r; const id = () => r.pick(['a', 'div', 'A', 'Foo', 'x-y', 'data-x-1', '_a', '$', 'this', 'if', 'class', 'for', 'async', 'B2', 'a--', this.o.unicode ? 'é' : 'e']);
    const k = r.weighted([[6, 0], [2, 1], [1, 2], [1, 3]]);
    if (k === 0) return [id()]; if (k === 1) return [r.pick(['A', 'a', 'this', 'x1']), '.', r.pick(['b', 'C', 'if', 'd1'])];
    if (k === 2) return ['A', '.', 'b', '.', r.pick(['c', 'default'])]; return this.o.jsxns === false ? ['ns'] : [id(), ':', id()];
  }
  jsxText() { const r = this.r; let s = ''; for (let i = r.range(1, 3); i > 0; i--) s += r.pick(['t', ' ', 'hello world', '\n', '  \n  ', '\t', '"', "'", '`', '//', '/* c */', '&amp;', '&lt;', '&#65;', '&#x41;', '&#x2603;', '&nbsp;', '&copy;', '&', '& ', '&foo;', '&;', '&#;', '\\n', '\\', 'a.b', '$', '=', '(', ')', '[', ';', '#', '@', '!', 'if', '1', this.o.unicode ? 'é😀' : 'z', '<'].slice(0, -1)); return s; }
  jsxStr() { const r = this.r; const q = r.pick(['"', "'"]); let s = ''; for (let i = r.int(3); i > 0; i--) s += r.pick(['t', ' ', '&amp;', '&#65;', '&#x41;', '&quot;', '&', '&foo;', '\n', '\\', '\\n', '{}', '<a>', '//', this.o.unicode ? 'é' : 'y', q === '"' ? "'" : '"']); return q + s + q; }
  jsxElem(d) {
    const r = this.r; const frag = r.bool(0.12); const name = frag ? [] : this.jsxName();
    this.t('<', ...name);
    if (!frag) for (let i = r.weighted([[4, 0], [3, 1], [2, 2], [1, 3]]); i > 0; i--) {
      if (r.bool(0.15)) { this.t('{', '...'); this.expr(1, d); this.t('}'); continue; }
      this.t(r.pick(['a', 'b', 'data-x', 'x--y', 'class', 'if', 'on-', 'A1']));
      if (this.o.jsxns !== false && r.bool(0.1)) this.t(':', r.pick(['n', 'href', 'x-y']));
      if (r.bool(0.75)) { this.t('='); const k = r.int(8); if (k < 4) this.t(this.jsxStr()); else if (k < 7 || d > this.o.depth) { this.t('{'); this.expr(r.bool(0.1) ? 0 : 1, d); this.t('}'); } else this.jsxElem(d + 1); }
    }
    if (!frag && r.bool(0.35)) { if (r.bool(0.8)) this.t('/>'); else this.t('/', '>'); return; }
    this.t('>');
    const n = d > this.o.depth ? r.int(2) : r.weighted([[2, 0], [4, 1], [3, 2], [2, 3]]); let txt = false;
    for (let i = 0; i < n; i++) {
      this.t(GLUE); const k = r.int(9);
      if (k < 4 && !txt) { this.t(this.jsxText()); txt = true; continue; } txt = false;
      if (k === 4) this.t('{', '}'); else if (k === 5 && d <= this.o.depth) { this.jsxElem(d + 1); } else if (k === 6) this.t('{/* c */}'); else { this.t('{'); this.expr(r.bool(0.1) ? 0 : 1, d); this.t('}'); }
    }
    this.t(GLUE); if (r.bool(0.8)) this.t('</'); else this.t('<', '/'); this.t(...name, '>');
  }
  e_jsx(p, d) { this.clearLogic(() => this.nest(() => this.jsxElem(d))); }
  e_array(p, d) {
    const r = this.r; this.t('[');
    this.clearLogic(() => this.nest(() => {
      const n = r.weighted([[2, 0], [3, 1], [3, 2], [1, 4]]);
      for (let i = 0; i < n; i++) { if (r.bool(0.08)) { this.t(','); continue; } if (r.bool(0.12)) this.t('...'); this.expr(1, d); if (i < n - 1 || r.bool(0.1)) this.t(','); }
    })); this.t(']');
  }
  propKey(d, cls) {
    const r = this.r; const k = r.weighted([[6, 'id'], [2, 'str'], [1, 'num'], [1.5, 'comp'], [1, 'kw']]);
    if (k === 'id') { this.t(this.name()); return; }
    if (k === 'kw') { let n = r.pick(KWPROP); if (cls) while (n === 'constructor' || n === 'prototype') n = r.pick(KWPROP); this.t(n); return; }
    if (k === 'str') { this.t(r.pick(['"k"', "'k-1'", '""', '"a b"', '"\\u0061"'])); return; }
    if (k === 'num') { this.t(r.pick(['0', '1', '1.5', '0x10', '1e3', '.5'])); return; }
    this.t('['); this.nest(() => this.expr(1, d)); this.t(']');
  }
  e_object(p, d) {
    const r = this.r; this.t('{');
    this.clearLogic(() => this.nest(() => {
      const n = r.weighted([[2, 0], [3, 1], [3, 2], [2, 3]]);
      for (let i = 0; i < n; i++) {
        const k = r.weighted([[5, 'init'], [3, 'short'], [2, 'method'], [1, 'get'], [1, 'set'], [1, 'spread'], [0.8, 'async'], [0.8, 'gen'], [0.4, 'asyncgen']]);
        this.hit('prop:' + k);
        if (k === 'init') { this.propKey(d); this.t(':'); this.expr(1, d); }
        else if (k === 'short') this.t(this.name());
        else if (k === 'spread') { this.t('...'); this.expr(1, d); }
        else this.methodDef(k, d, {});
        if (i < n - 1 || r.bool(0.15)) this.t(',');
      }
    })); this.t('}');
  }
  methodDef(k, d, { cls, ctor, derived, priv }) {
    const key = () => { if (ctor) this.t('constructor'); else if (priv) this.t('#' + priv); else this.propKey(d, cls); };
    if (k === 'get') { this.t('get'); key(); this.t('(', ')'); this.fnBody({ method: true }, d); return; }
    if (k === 'set') { this.t('set'); key(); this.t('('); this.inFn({ method: true }, () => this.param(d)); this.t(')'); this.fnBody({ method: true }, d); return; }
    if (k === 'async' || k === 'asyncgen') this.t('async', NONL);
    if (k === 'gen' || k === 'asyncgen') this.t('*');
    key();
    const f = { method: true, ctor, derived, async: k.startsWith('async'), gen: k === 'gen' || k === 'asyncgen' };
    this.params(f, d); this.fnBody(f, d);
  }
  inFn(f, cb) {
    const s = [this.fn, this.loop, this.sw, this.labels, this.noYA, this.noIn, this.inNullish, this.inLogic];
    this.fn = f.arrow ? { ...this.fn, async: !!f.async, gen: false, arrow: this.fn.arrow || this.fn.top, top: false, inArrow: true } : { async: !!f.async, gen: !!f.gen, method: !!f.method, ctor: !!f.ctor, derived: !!f.derived, top: false };
    this.loop = 0; this.sw = 0; this.labels = []; this.noIn = 0; this.inNullish = this.inLogic = false; this.noYA = 0;
    cb();
    [this.fn, this.loop, this.sw, this.labels, this.noYA, this.noIn, this.inNullish, this.inLogic] = s;
  }
  param(d) { this.bind(d, true); if (this.r.bool(0.2)) { this.t('='); this.noYA++; this.expr(1, d + 1); this.noYA--; } }
  params(f, d) {
    const r = this.r; this.t('(');
    this.inFn(f, () => {
      this.noYA++;
      const n = r.weighted([[3, 0], [3, 1], [2, 2], [1, 3]]);
      for (let i = 0; i < n; i++) { if (i) this.t(','); if (i === n - 1 && r.bool(0.15)) { this.t('...'); this.bind(d, true); this.noTrail = true; } else { this.param(d); this.noTrail = false; } }
      if (n && !this.noTrail && r.bool(0.06)) this.t(',');
      this.noYA--;
    });
    this.t(')');
  }
  fnBody(f, d) { this.t('{'); this.inFn(f, () => this.stmts(this.r.weighted([[2, 0], [4, 1], [2, 2]]), d + 1)); this.t('}'); }
  e_function(p, d) {
    const r = this.r; const f = { async: r.bool(0.2), gen: r.bool(0.2) };
    if (f.async) this.t('async', NONL); this.t('function'); if (f.gen) this.t('*');
    if (r.bool(0.4)) this.t(this.uname('fe'));
    this.params(f, d); this.fnBody(f, d);
  }
  e_arrow(p, d, async) {
    const r = this.r; const f = { arrow: true, async: !!async };
    if (async) this.t('async', NONL);
    if (r.bool(0.35)) this.t(this.bname()); else this.params(f, d);
    this.t(NONL, '=>');
    if (r.bool(0.4)) { this.fnBody(f, d); this.hit('arrow:block'); }
    else { const ni = this.noIn; this.inFn(f, () => { this.noIn = ni; const s = this.sub(() => this.expr(1, d)); if (s[0] === '{') this.t('(', ...s, ')'); else this.t(...s); }); }
  }
  e_asyncArrow(p, d) { this.e_arrow(p, d, true); }
  e_class(p, d) { this.t('class'); if (this.r.bool(0.4)) this.t(this.uname('K')); this.clsTail(d); }
  clsTail(d) {
    const r = this.r; const derived = r.bool(0.4); const ss = this.strict; this.strict = true;
    this.clearLogic(() => this.nest(() => {
      if (derived) { this.t('extends'); this.expr(22, d); }
      this.t('{');
      const privs = []; const n = r.weighted([[2, 0], [3, 1], [3, 2], [2, 3]]);
      const plan = []; let ctor = false;
      for (let i = 0; i < n; i++) {
        let k = r.weighted([[3, 'method'], [1, 'get'], [1, 'set'], [0.8, 'async'], [0.8, 'gen'], [0.4, 'asyncgen'], [2.5, 'field'], [1, 'ctor'], [0.4, 'semi']]);
        if (k === 'ctor') { if (ctor) k = 'method'; else ctor = true; }
        const priv = k !== 'ctor' && k !== 'semi' && r.bool(0.2) ? this.uname('p') : null; if (priv) privs.push(priv);
        plan.push([k, k !== 'ctor' && r.bool(0.25), priv]);
      }
      this.privs.push(privs.length ? privs : (this.privs[this.privs.length - 1] || []));
      if (!this.privs[this.privs.length - 1].length) this.privs[this.privs.length - 1] = [];
      for (const [k, st, priv] of plan) {
        this.hit('cls:' + k);
        if (k === 'semi') { this.t(';'); continue; }
        if (st) this.t('static');
        if (k === 'field') {
          if (priv) this.t('#' + priv); else { const s = this.sub(() => this.propKey(d, true)); const bad = ['get', 'set', 'static', 'async', 'constructor', '"constructor"', 'prototype']; this.t(...(bad.includes(s[0]) ? ['fld'] : s)); }
          if (r.bool(0.6)) { this.t('='); this.inFn({ method: true }, () => { this.expr(1, d); }); }
          this.t(';');
        } else this.methodDef(k === 'ctor' ? 'method' : k, d, { cls: true, ctor: k === 'ctor', derived, priv });
      }
      this.privs.pop(); this.t('}');
    }));
    this.strict = ss;
  }
  e_ident() { this.t(this.name()); }
  e_num() { this.t(this.num()); }
  num() {
    const r = this.r;
    switch (r.int(9)) {
      case 0: return String(r.int(10)); case 1: return String(r.int(100000)); case 2: return '0x' + r.int(1e9).toString(16); case 3: return '0b' + r.int(255).toString(2);
      case 4: return '0o' + r.int(4096).toString(8); case 5: return (r.next() * 1000).toFixed(r.range(1, 4)); case 6: return '.' + r.range(1, 999); case 7: return r.int(100) + 'e' + r.pick(['', '+', '-']) + r.int(20);
      default: return r.pick(['0', '1_000', '1_000_000.5', '0xFF_FF', '0.5', '1.', '0.1e-7', '9007199254740993', '1E5']);
    }
  }
  e_bigint() { this.t(this.r.pick(['0n', '1n', '123n', '0xffn', '0b11n', '0o17n', '1_000n', '123456789012345678901234567890n'])); }
  e_str() { this.t(this.str()); }
  str() {
    const r = this.r; const q = r.pick(['"', "'"]);
    const parts = ['a', 'b', ' ', 'hello', '\\n', '\\t', '\\\\', '\\x41', '\\u0042', '\\u{43}', '\\0', q === '"' ? "'" : '"', '\\' + q, '\\b\\f\\v\\r', '//', '/*', '`', '${x}', '\\\n', '0', '\\a', '{', '}'];
    if (this.o.unicode) parts.push('é', '变', '😀', '\u2028', '\\u{1F600}');
    let s = ''; for (let i = r.int(4); i > 0; i--) s += r.pick(parts);
    // \0 must not be followed by a digit
    s = s.replace(/\\0(?=[0-9])/g, '\\0 ');
    return q + s + q;
  }
  e_kwlit() { this.t(this.r.pick(['true', 'false', 'null', 'this'])); }
  e_regex() { this.t(this.r.pick(['/a/', '/[/]/g', '/a\\/b/', '/(?:x)+/i', '/[^\\]]/u', '/\\d{2,}/m', '/=x/', '/./s', '/a|b/y', '/[a-z]/gi', '/\\(/', '/\\u/', '/[\\u{]/', '/\\u{61}/u', '/\\u0061/', '/[)(]/', '/(a[)])/', '/[[]/', '/]/', '/\\x/', '/[/\\]/]/', '/(?<n>a)\\k<n>/u', '/\\\\/', '/[\\\\]/', '/(?<=é)😀/u', '/[]/', '/[^]/', '/(()|())/'])); }

  // ---------- patterns
  bind(d, decl) { // BindingTarget
    const r = this.r;
    if (d > this.o.depth || r.bool(0.65)) return decl ? this.t(this.bname()) : this.target(d);
    this.pat(d, decl);
  }
  pat(d, decl) { if (this.r.bool(0.55)) this.objPat(d + 1, decl); else this.arrPat(d + 1, decl); }
  objPat(d, decl) {
    const r = this.r; this.t('{'); const n = r.weighted([[1, 0], [3, 1], [3, 2], [1, 3]]);
    for (let i = 0; i < n; i++) {
      if (i === n - 1 && r.bool(0.15)) { this.t('...'); if (decl) this.t(this.bname()); else this.t(this.assignable()); break; }
      if (r.bool(0.45)) { const nm = decl ? this.bname() : this.assignable(); this.t(nm); if (r.bool(0.3)) { this.t('='); this.nest(() => this.expr(1, d)); } }
      else { this.nest(() => this.propKey(d)); this.t(':'); this.bind(d, decl); if (r.bool(0.25)) { this.t('='); this.nest(() => this.expr(1, d)); } }
      if (i < n - 1 || r.bool(0.1)) this.t(',');
    }
    this.t('}');
  }
  arrPat(d, decl) {
    const r = this.r; this.t('['); const n = r.weighted([[1, 0], [3, 1], [3, 2], [1, 3]]);
    for (let i = 0; i < n; i++) {
      if (r.bool(0.1)) { this.t(','); continue; }
      if (i === n - 1 && r.bool(0.15)) { this.t('...'); this.bind(d, decl); break; }
      this.bind(d, decl); if (r.bool(0.25)) { this.t('='); this.nest(() => this.expr(1, d)); }
      if (i < n - 1 || r.bool(0.1)) this.t(',');
    }
    this.t(']');
  }

  // ---------- statements
  exprStmt(d) {
    const s = this.sub(() => this.expr(this.r.bool(0.08) ? 0 : 1, d));
    const bad = s[0] === '{' || s[0] === 'function' || s[0] === 'class' || s[0] === 'let' || (s[0] === 'async') || s[0] === 'import' && !(s[1] === '(' || s[1] === '.');
    if (bad) this.t('(', ...s, ')'); else if (/^["']/.test(s[0])) this.t('(', ...s, ')'); else this.t(...s);
    this.t(SEMI);
  }
  stmts(n, d) { for (let i = 0; i < n; i++) this.stmt(d, true); }
  // decl: whether a declaration may stand here
  stmt(d, decl) {
    const r = this.r; const deep = d >= this.o.depth;
    const c = [[8, 'expr'], [0.4, 'empty'], [0.3, 'debugger']];
    if (decl) c.push([4, 'lexical'], [4, 'var'], [deep ? 0 : 2, 'function'], [deep ? 0 : 1.2, 'class']); else c.push([2, 'var']);
    if (!deep) c.push([3, 'if'], [1.5, 'for'], [1.5, 'forin'], [1.5, 'forof'], [1, 'while'], [1, 'dowhile'], [1.2, 'switch'], [1.5, 'try'], [2, 'block'], [0.8, 'labeled']);
    if (this.fn.async && !this.noYA && !deep) c.push([0.5, 'forawait']);
    c.push([1, 'throw']);
    if (!this.fn.top && !this.inField) c.push([2.5, 'return']);
    if (this.loop) c.push([1.5, 'continue']); if (this.loop || this.sw) c.push([1.5, 'break']);
    if (this.labels.length) c.push([0.7, 'brklabel']);
    if (!this.strict && !deep && this.o.withStmt !== false) c.push([0.3, 'with']);
    const k = r.weighted(c); this.hit('s:' + k);
    this['s_' + k](d + 1);
  }
  s_expr(d) { this.exprStmt(d); }
  s_empty() { this.t(';'); }
  s_debugger() { this.t('debugger', SEMI); }
  s_block(d) { this.t('{'); this.stmts(this.r.int(4), d); this.t('}'); }
  declarators(kind, d) {
    const n = this.r.weighted([[5, 1], [2, 2], [1, 3]]);
    for (let i = 0; i < n; i++) {
      if (i) this.t(',');
      if (this.r.bool(0.75)) { this.t(kind === 'var' && this.r.bool(0.1) ? 'vv' : this.bname()); if (kind === 'const' || this.r.bool(0.7)) { this.t('='); this.expr(1, d); } }
      else { this.pat(d, true); this.t('='); this.expr(1, d); }
    }
  }
  s_var(d) { this.t('var'); this.declarators('var', d); this.t(SEMI); }
  s_lexical(d) { const k = this.r.pick(['let', 'const']); this.t(k); this.declarators(k, d); this.t(SEMI); }
  s_function(d) { const r = this.r; const f = { async: r.bool(0.2), gen: r.bool(0.2) }; if (f.async) this.t('async', NONL); this.t('function'); if (f.gen) this.t('*'); this.t(this.uname('f')); this.params(f, d); this.fnBody(f, d); }
  s_class(d) { this.t('class', this.uname('C')); this.clsTail(d); }
  sub1(d) { // a nested single statement
    if (this.r.bool(0.6)) this.s_block(d); else this.stmt(d, false);
  }
  s_if(d) {
    this.t('if', '('); this.expr(0, d); this.t(')');
    if (this.r.bool(0.45)) { // avoid a dangling else in the consequent
      this.s_block(d); this.t('else'); this.sub1(d);
    } else this.sub1(d);
  }
  inLoop(f) { this.loop++; f(); this.loop--; }
  s_while(d) { this.t('while', '('); this.expr(0, d); this.t(')'); this.inLoop(() => this.sub1(d)); }
  s_dowhile(d) { this.t('do'); this.inLoop(() => this.sub1(d)); this.t('while', '('); this.expr(0, d); this.t(')', SEMI); }
  s_for(d) {
    const r = this.r; this.t('for', '('); this.noIn++;
    const k = r.int(4);
    if (k === 0) { const s = this.sub(() => this.expr(0, d)); if (s[0] === 'let' || s[0] === '{' || s[0] === 'function' || s[0] === 'class' || s[0] === 'async') this.t('(', ...s, ')'); else this.t(...s); } else if (k === 1) { this.t('var'); this.declarators('var', d); } else if (k === 2) { const q = r.pick(['let', 'const']); this.t(q); this.declarators(q, d); }
    this.noIn--; this.t(';'); if (r.bool(0.8)) this.expr(0, d); this.t(';'); if (r.bool(0.7)) this.expr(0, d); this.t(')'); this.inLoop(() => this.sub1(d));
  }
  forHead(d) {
    const r = this.r; const k = r.int(4);
    if (k === 0) { const s = this.sub(() => this.target(d)); if (s[0] === 'async' || s[0] === 'let') s[0] = 'x'; this.t(...s); }
    else if (k === 3) this.pat(d, false);
    else { this.t(r.pick(['var', 'let', 'const'])); this.bind(d, true); }
  }
  s_forin(d) { this.t('for', '('); this.forHead(d); this.t('in'); this.expr(0, d); this.t(')'); this.inLoop(() => this.sub1(d)); }
  s_forof(d) { this.t('for', '('); this.forHead(d); this.t('of'); this.expr(1, d); this.t(')'); this.inLoop(() => this.sub1(d)); }
  s_forawait(d) { this.t('for', 'await', '('); this.forHead(d); this.t('of'); this.expr(1, d); this.t(')'); this.inLoop(() => this.sub1(d)); }
  s_switch(d) {
    const r = this.r; this.t('switch', '('); this.expr(0, d); this.t(')', '{'); let def = false; this.sw++;
    for (let i = r.int(4); i > 0; i--) { if (!def && r.bool(0.25)) { def = true; this.t('default', ':'); } else { this.t('case'); this.expr(0, d); this.t(':'); } this.stmts(r.int(3), d); }
    this.sw--; this.t('}');
  }
  s_try(d) {
    const r = this.r; this.t('try'); this.s_block(d); const k = r.int(3);
    if (k !== 1) { this.t('catch'); if (r.bool(0.75)) { this.t('('); this.bind(d, true); this.t(')'); } this.s_block(d); }
    if (k !== 0) { this.t('finally'); this.s_block(d); }
  }
  s_labeled(d) {
    const l = this.uname('L'); this.t(l, ':'); this.labels.push([l, false]);
    const r = this.r; if (r.bool(0.6)) { this.labels[this.labels.length - 1][1] = true; this['s_' + r.pick(['while', 'for', 'forof', 'dowhile', 'forin'])](d); } else if (r.bool(0.6)) this.s_block(d); else this.stmt(d, false);
    this.labels.pop();
  }
  s_brklabel(d) { const r = this.r; const [l, isLoop] = r.pick(this.labels); this.t(isLoop && this.loop && r.bool(0.4) ? 'continue' : 'break', NONL, l, SEMI); }
  s_break() { this.t('break', SEMI); }
  s_continue() { this.t('continue', SEMI); }
  s_return(d) { this.t('return'); if (this.r.bool(0.8)) { this.t(NONL); this.expr(0, d); } this.t(SEMI); }
  s_throw(d) { this.t('throw', NONL); this.expr(0, d); this.t(SEMI); }
  s_with(d) { this.t('with', '('); this.expr(0, d); this.t(')'); this.sub1(d); }

  s_import(d) {
    const r = this.r; const n = () => this.uname('i'); this.hit('s:import');
    const src = () => r.pick(['"m"', "'./x.js'", '"a/b"']);
    const spec = () => { const k = r.int(4); if (k === 0) this.t(n()); else if (k === 1) this.t('default', 'as', n()); else if (k === 2) this.t(r.pick(['foo', 'as', 'from', 'if', 'class']), 'as', n()); else this.t('x', 'as', n()); };
    this.t('import');
    const k = r.int(5);
    if (k === 0) this.t(src());
    else {
      let need = true;
      if (r.bool(0.5)) { this.t(n()); need = false; }
      if (need || r.bool(0.5)) { if (!need) this.t(','); if (r.bool(0.3)) this.t('*', 'as', n()); else { this.t('{'); const m = r.int(4); for (let i = 0; i < m; i++) { spec(); if (i < m - 1 || r.bool(0.15)) this.t(','); } this.t('}'); } }
      this.t('from', src());
    }
    this.t(SEMI);
  }
  s_export(d) {
    const r = this.r; const k = r.int(8); this.hit('s:export'); this.t('export');
    const src = '"m"';
    if (k === 0) { this.t('*', 'from', src, SEMI); }
    else if (k === 1) { this.t('*', 'as', r.bool(0.2) ? r.pick(['default', 'if']) : this.uname('E'), 'from', src, SEMI); if (this.out.includes('default')) this.defExp = true; }
    else if (k === 2) { this.t('{'); const m = r.int(4); for (let i = 0; i < m; i++) { this.t(r.pick(['foo', 'default', 'if', 'as', 'x']), 'as', this.uname('E')); if (i < m - 1 || r.bool(0.15)) this.t(','); } this.t('}', 'from', src, SEMI); }
    else if (k === 3) { const v = this.uname('ev'); this.t(r.pick(['let', 'var']), v, '=', '1', SEMI); }
    else if (k === 4) this.s_function(d);
    else if (k === 5) this.s_class(d);
    else if (k === 6 && !this.defExp) { this.defExp = true; this.t('default'); const s = this.sub(() => this.expr(1, d)); if (['function', 'class', 'async', '{'].includes(s[0])) this.t('(', ...s, ')'); else this.t(...s); this.t(SEMI); }
    else if (k === 7 && !this.defExp) {
      this.defExp = true; this.t('default'); const kind = r.int(3); const f = { async: kind === 1, gen: r.bool(0.3) };
      if (kind === 2) { this.t('class'); if (r.bool()) this.t(this.uname('K')); this.clsTail(d); } else { if (f.async) this.t('async', NONL); this.t('function'); if (f.gen) this.t('*'); if (r.bool()) this.t(this.uname('f')); this.params(f, d); this.fnBody(f, d); }
    } else { const v = this.uname('ec'); this.t('const', v, '=', '2', SEMI); }
  }
  program() {
    const r = this.r;
    if (this.o.mode.endsWith('script') && r.bool(0.15)) { this.t(r.pick(['"use strict"', "'use strict'"]), ';'); this.strict = true; }
    else if (r.bool(0.05)) this.t('"other directive"', ';');
    const n = r.range(1, this.o.stmts);
    for (let i = 0; i < n; i++) {
      if (this.o.mode.endsWith('module') && this.o.imports !== false && r.bool(0.12)) { if (r.bool()) this.s_import(0); else this.s_export(0); }
      else this.stmt(0, true);
    }
    return this.out;
  }
}

// ---------- rendering
const isWord = c => /[\w$\\#\u0080-\uffff]/.test(c);
function needSpace(a, b) {
  if (!a || !b) return false;
  const x = a[a.length - 1], y = b[0];
  if (isWord(x) && (isWord(y) || /^["'`]/.test(y) && false)) return true;
  if (/[0-9.]/.test(x) && y === '.' && /^[\d.]/.test(a)) return true; // 1 . x
  if (/^[\d.]/.test(a) && isWord(y)) return true;
  if ((x === '+' || x === '-') && y === x) return true;
  if (x === '/' && (y === '/' || y === '*' || /\w/.test(y))) return true;
  if (x === '<' && (y === '!' || y === '<')) return true;
  if (a === '<' && b === '/') return false; if (a === '/' && b === '>') return false; if (a === '<' && b === '>') return false; if (a === '</' && b === '>') return false; if (a === '/>' || a === '>' && b === '<') return a === '/>' && b === '='; 
  if (x === '-' && y === '>') return true;
  if (x === '?' && y === '.') return true; // ? .5
  if (x === '*' && y === '*' || x === '&' && y === '&' || x === '|' && y === '|' || x === '=' && y === '=' || x === '!' && y === '=') return true;
  if (/[-+*/%&|^<>=!?]$/.test(a) && /^[=>]/.test(b)) return true;
  if (/^\//.test(a) && a.length > 2 && isWord(y)) return true;
  if (x === '.' && y === '.') return true;
  return false;
}
// a statement terminator may be left out before this token only when the next
// line cannot continue the statement
const ASI_BAD = /^([(\[/+\-*%<>=&|^?:.,`!~]|in$|instanceof$|\+\+|--)/;
// layout: min | space | lines | wild ; opts.asi: drop semicolons where allowed
function render(toks, layout, rng, opts = {}) {
  let s = ''; let prev = ''; let nonl = false; let glue = false;
  const wild = layout === 'wild';
  const trivia = (mayNL, must) => {
    if (layout === 'min') return must ? ' ' : '';
    if (layout === 'space') return ' ';
    if (layout === 'lines') return mayNL && rng.bool(0.15) ? '\n' + ' '.repeat(rng.int(6)) : ' ';
    let o = '';
    for (let i = rng.weighted([[3, 0], [4, 1], [2, 2], [1, 3]]); i > 0; i--) {
      const k = rng.int(10);
      if (k < 4) o += ' '; else if (k === 4) o += '\t'; else if (k === 5) o += rng.pick(['/**/', '/* c */', '/* "x" */', '/* // */', '/***/', '/* * / **/', '/*/*/', opts.unicode ? '/* é😀 */' : '/*`${*/']);
      else if (mayNL && k === 6) o += rng.pick(['\n', '\r\n', '\n\n', opts.cr ? '\r' : '\n', opts.cr ? rng.pick(['\u2028', '\u2029']) : '\n']); else if (mayNL && k === 7) o += rng.pick(['// c', '//', '///* "', "//'`*/"]) + rng.pick(['\n', '\n', '\r\n', opts.cr ? rng.pick(['\r', '\u2028', '\u2029']) : '\n']); else if (mayNL && k === 8) o += '/* a' + rng.pick(['\n', '\n', '\r\n', opts.cr ? rng.pick(['\r', '\u2028', '\u2029']) : '\n']) + ' b */';
      else if (k === 9) o += rng.pick(['\u00a0', '\v', '\f', '  ', opts.unicode ? rng.pick(['\u3000', '\u1680', '\u2000', '\u200a', '\u202f', '\u205f']) : ' ', opts.bom ? '\ufeff' : ' ']);
    }
    if (must && !o) o = ' ';
    return o;
  };
  for (let i = 0; i < toks.length; i++) {
    const tk = toks[i];
    if (tk === NONL || tk.nonl) { nonl = true; continue; }
    if (tk === GLUE || tk.glue) { glue = true; continue; }
    if (tk === SEMI || tk.semi) {
      let j = i + 1; const nx = toks[j];
      if (opts.asi && rng.bool(0.6)) {
        const next = typeof nx === 'string' ? nx : (nx && nx.semi ? ';' : undefined);
        if (next === undefined || next === '}') { continue; }
        if (prev !== ')' || true) if (typeof next === 'string' && next !== ';' && !ASI_BAD.test(next) && !(prev === ')' && opts.noParenAsi)) { s += wild ? rng.pick(['\n', '\n', '\r\n', '\n ', '//c\n', '/*\n*/', ' /* a */ \n', '\n/**/', opts.cr ? rng.pick(['\r', '\u2028', '\u2029', '//\u2028', '/*\u2029*/']) : '\n']) : '\n'; prev = ''; nonl = false; continue; }
      }
      s += ';'; prev = ';'; nonl = false; continue;
    }
    const must = needSpace(prev, tk);
    if (!glue && prev !== '' ) s += trivia(!nonl, must); else if (must && !glue) s += ' ';
    s += tk; prev = tk; nonl = false; glue = false;
  }
  return s;
}
module.exports = { Gen, render, NONL, SEMI, GLUE };
