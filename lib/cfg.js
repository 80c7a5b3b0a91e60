'use strict';
// programs made of markers `$(n)`, run for real, and the check of their traces against control flow graphs
const { Rng } = require('./rng');
function gen(seed, i, opt = {}) {
  const r = new Rng(seed + '|' + i); let n = 0, lab = 0; let budget = 4 + r.int(r.pick([6, 14, 30])); const K = new Set(opt.without || []);
  const m = () => `$(${++n})`;
  const ex = d => { const k = d > 2 ? 0 : r.int(K.has('more') ? 14 : K.has('forms') ? 28 : 38); switch (k) { case 28: return `(${m()},w${r.pick(['||', '&&', '??'])}=${ex(d + 1)})`; case 29: return `(o[${ex(d + 1)}]${r.pick(['||', '&&', '??', '+', ''])}=${ex(d + 1)})`; case 30: return `(class extends o(${ex(d + 1)}){})`; case 31: return `(class{[${ex(d + 1)}](){}static [${ex(d + 1)}]=${m()}})`; case 32: return `(delete o[${ex(d + 1)}])`; case 33: return `o[${ex(d + 1)}]++`; case 34: return 'o`a${' + ex(d + 1) + '}`'; case 35: return `o?.(${ex(d + 1)})`; case 36: return `({...[${ex(d + 1)}],a(){${m()}},get b(){return ${m()}}})`; case 37: return `(${ex(d + 1)} instanceof o)`; case 7: return `(${ex(d + 1)}&&${ex(d + 1)})`; case 8: return `(${ex(d + 1)}||${ex(d + 1)})`; case 9: return `(${ex(d + 1)}?${ex(d + 1)}:${ex(d + 1)})`; case 10: return `!${m()}`; case 11: return `(${ex(d + 1)},${ex(d + 1)})`; case 14: return `[${ex(d + 1)},${ex(d + 1)}]`; case 15: return `({a:${ex(d + 1)},[${ex(d + 1)}]:${ex(d + 1)}})`; case 16: return '`a${' + ex(d + 1) + '}b${' + ex(d + 1) + '}`'; case 17: return `(w=${ex(d + 1)})`; case 18: return `(${ex(d + 1)}??${ex(d + 1)})`; case 19: return `(${ex(d + 1)}${r.pick(['+', '<', '===', '*', '|'])}${ex(d + 1)})`; case 20: return `(typeof ${m()})`; case 21: return `o(${ex(d + 1)},...[${ex(d + 1)}])`; case 22: return `new o(${ex(d + 1)})`; case 23: return `o[${ex(d + 1)}]`; case 24: return `(${m()},function(){${list({ labels: [], fn: true })}})`; case 26: return `${m()}?.[${ex(d + 1)}]`; case 27: return `${m()}?.a?.b`; case 25: return `(${m()},()=>${m()})`; default: return m(); } };
  const e = () => K.has('expr') ? m() : ex(0);
  // c: {loop, brk, labels:[{l,loop}], fn}
  const block = c => '{' + list(c) + '}';
  const list = c => { let o = ''; const k = 1 + r.int(3); for (let j = 0; j < k; j++) o += stmt(c); return o; };
  const body = c => { const k = r.int(13); return k < 7 ? block(c) : k < 10 ? m() + ';' : k === 10 ? (K.has('empty') ? '{}' : r.pick([';', '{}', 'debugger;'])) : k === 11 ? stmt(c) || '{}' : `{${stmt(c)}}`; };
  function stmt(c) {
    budget--; if (budget < 0) return m() + ';';
    const loop = l => ({ ...c, loop: true, brk: true, labels: c.labels.concat(l ? [{ l, loop: true }] : []) });
    const pre = () => r.int(4) === 0 && !K.has('label') ? `L${++lab}` : '';
    const k = r.int(K.has('more') ? 19 : 25);
    switch (k) {
      case 0: case 1: case 2: return e() + ';';
      case 3: return `if(${e()})${body(c)}`;
      case 4: return `if(${e()})${body(c)}else ${body(c)}`;
      case 5: { const l = pre(); return `${l && l + ':'}while(${e()})${body(loop(l))}`; }
      case 6: { const l = pre(); return `${l && l + ':'}do ${body(loop(l))} while(${e()});`; }
      case 7: { const l = pre(); const t = r.int(4); return `${l && l + ':'}for(${r.bool() ? e() : ''};${t ? e() : ''};${!t || r.bool() ? e() : ''})${body(loop(l))}`; }
      case 8: { const l = pre(); return `${l && l + ':'}for(${r.pick(['var x', 'let y', 'const z', 'w', '[w]', 'var [x]'])} of it(${++n}))${body(loop(l))}`; }
      case 9: { const l = pre(); return `${l && l + ':'}for(${r.pick(['var x', 'let y', 'w'])} in it(${++n}))${body(loop(l))}`; }
      case 10: { if (K.has('switch')) return ''; let o = ''; const q = r.int(4); const d = r.int(5); for (let j = 0; j < q; j++) { if (d === j) o += `default:${r.int(4) ? list({ ...c, brk: true }) : ''}`; o += `case ${m()}:${r.int(4) ? list({ ...c, brk: true }) : ''}`; if (r.bool()) o += 'break;'; } if (d === q) o += `default:${list({ ...c, brk: true })}`; return `switch(${e()}){${o}}`; }
      case 11: if (K.has('try')) return ''; return `try${block(c)}${r.int(4) ? 'catch(q)' : 'catch'}${block(c)}`;
      case 12: if (K.has('try') || K.has('finally')) return ''; return `try${block(c)}${r.bool() ? `catch(q)${block(c)}` : ''}finally${block(c)}`;
      case 13: if (K.has('throw')) return ''; return `throw ${e()};`;
      case 14: return c.brk ? 'break;' : '';
      case 15: return c.loop ? 'continue;' : '';
      case 16: { if (!c.labels.length) return ''; const l = r.pick(c.labels); return l.loop && r.bool() ? `continue ${l.l};` : `break ${l.l};`; }
      case 17: return c.fn ? r.bool() ? 'return;' : `return ${e()};` : block(c);
      case 19: return `var x${++lab}=${e()}${r.bool() ? `,y${lab}=${e()}` : ''};`;
      case 20: return `var {a:x${++lab}}=o(${e()});`;
      case 21: return `with(o)${body(c)}`;
      case 22: if (K.has('label')) return ''; { const l = `L${++lab}`, l2 = `L${++lab}`; const lp = r.bool(); return `${l}:${l2}:${lp ? `while(${e()})${body({ ...c, loop: true, brk: true, labels: c.labels.concat([{ l, loop: true }, { l: l2, loop: true }]) })}` : `if(${e()})${body({ ...c, labels: c.labels.concat([{ l, loop: false }, { l: l2, loop: false }]) })}`}`; }
      case 23: { const l = pre(), t = r.pick(['true', '"a"', '[]', '({})', '/a/']); const b = `{${m()};${list(loop(l))}}`; return `${l && l + ':'}` + r.pick([`while(${t})${b}`, `do${b}while(${t});`, `for(;${t};)${b}`, `for(;;)${b}`]); }
      case 24: { const l = pre(), t = r.pick(['false', '""', 'null']); return `${l && l + ':'}` + r.pick([`while(${t})${body(loop(l))}`, `do ${body(loop(l))} while(${t});`, `for(;${t};)${body(loop(l))}`]); }
      case 18: { if (K.has('label')) return ''; const l = `L${++lab}`; return `${l}:${block({ ...c, labels: c.labels.concat([{ l, loop: false }]) })}`; }
    }
  }
  const fn = r.bool(); const top = list({ labels: [], fn });
  if (fn && opt.forms) {
    const [a, b, call] = r.pick([['function f(){', '}', ';f()'], ['var f=function(){', '}', ';f()'], ['var f=()=>{', '}', ';f()'], ['var f=({m(){', '}}).m', ';f()'], ['var f={get m(){', '}}', ';f.m'], ['function* f(){', '}', ';[...f()]'], ['class f{static m(){', '}}', ';f.m()'], ['class f{constructor(){', '}}', ';new f']]);
    return { src: a + (a.includes('*') ? top.replace(/\$\((\d+)\);/g, (t, k) => k % 3 ? t : `yield $(${k});`) : top) + b, fn: call };
  }
  return { src: fn ? `function f(){${top}}` : top, fn };
}
let last, lastf;
function compile(src, fn) { if (last !== src) { lastf = new Function('$', 'it', 'w', 'o', '$f', src.replace(/ in it\(/g, ' of it(').replace(/(while\(|for\([^;]*;)(true|"a"|\[\]|\(\{\}\)|\/a\/)(?=[;)])/g, '$1$f($2)').replace(/for\(([^;]*);;/g, 'for($1;$f(1);') + (fn ? typeof fn === 'string' ? fn : ';f()' : '')); last = src; } return lastf; }
// one execution: the markers in the order they were evaluated, with the answers chosen by the seed; [marker, threw]
function run(src, fn, seed, faults) {
  const r = new Rng(seed); const trace = []; let fuel = 60, end = false; const p = r.pick([0.3, 0.5, 0.7]), pt = faults ? r.pick([0.03, 0.1, 0.25]) : 0;
  const $ = k => { if (end || fuel-- <= 0) { end = true; throw 'fuel'; } const t = pt && r.bool(pt); trace.push([k, t]); if (t) throw 'fault'; return (r.bool(p) ? [true, 1, o][r.int(3)] : [false, 0, null, undefined][r.int(4)]); };
  const burn = v => { if (end || fuel-- <= 0) { end = true; throw 'fuel'; } return v; };
  const o = function () { return o; };
  // the graphs have the loop of for-in/of at its right side: it is passed at every test for the next value
  const it = function* (n) { const k = r.int(3); for (let j = 0; ; j++) { $(n); if (end || j === k) return; yield [j]; } };
  let threw = false;
  try { compile(src, fn)($, it, 0, o, burn); } catch (x) { if (x === 'fuel') end = true; else if (x instanceof SyntaxError) return { syntax: true }; else if (x instanceof Error) return { odd: x.name + ': ' + x.message, trace }; else threw = true; }
  return { trace, full: !end && !threw, threw };
}
const CUT = 1, EXC = 2;
// from every marker: which markers may come next along the edges of the graph, end: -1; exc: the same after an exception
function succ(g) {
  const out = new Map(), exo = new Map(); const add = (m, s, d) => { if (!m.has(s)) m.set(s, []); m.get(s).push(d); };
  for (const [s, d, , t] of g.edges) { if (t & CUT) continue; add(t & EXC ? exo : out, s, d); }
  const ms = id => g.blocks[id].m.map(x => +x[0]);
  const reach = from => { const seen = new Set(), res = new Set(), todo = [...from]; while (todo.length) { const b = todo.pop(); if (b === -1) { res.add(-1); continue; } if (seen.has(b)) continue; seen.add(b); const q = ms(b); if (q.length) { res.add(q[0]); continue; } for (const d of out.get(b) || []) todo.push(d); if (!(out.get(b) || []).length) res.add(-1); } return res; };
  const next = new Map(), exc = new Map(); next.set(0, reach([g.head]));
  for (const id in g.blocks) { const q = ms(id); q.forEach((x, j) => { const s = next.get(x) || new Set(); if (j + 1 < q.length) s.add(q[j + 1]); else { const o = out.get(+id) || []; if (o.length) for (const y of reach(o)) s.add(y); else s.add(-1); } next.set(x, s); const z = exc.get(x) || new Set(); for (const y of reach(exo.get(+id) || [])) z.add(y); exc.set(x, z); }); }
  return { next, exc };
}
module.exports = { gen, run, succ };
// smaller programs which are still wrong: statements are dropped or replaced by their parts, expressions by one of their markers
async function reduce(c, still) {
  const acorn = require('/opt/veriftools/node/node_modules/acorn');
  let src = c.src, budget = 600;
  for (let again = true; again && budget > 0;) {
    again = false; let ast; try { ast = acorn.parse(src, { ecmaVersion: 'latest' }); } catch { return src; }
    const cand = [];
    (function walk(n, p, key) {
      if (Array.isArray(n)) return n.forEach(x => walk(x, p, key)); if (!n || typeof n.type !== 'string') return;
      const put = t => cand.push([n.start, n.end, t]); const text = x => src.slice(x.start, x.end);
      if (/Statement$|VariableDeclaration$/.test(n.type) && !(p && /^For(In|Of)?Statement$/.test(p.type) && key !== 'body')) {
        const inList = p && (p.type === 'BlockStatement' || p.type === 'Program' || p.type === 'SwitchCase');
        if (!(p && /^(Function|Try|Catch)/.test(p.type))) {
          put(inList ? '' : '{}'); for (const k of ['body', 'consequent', 'alternate', 'block']) if (n[k] && n[k].type) put(text(n[k])); if (n.type === 'BlockStatement' && inList) put(n.body.map(text).join('')); if (n.handler) put(text(n.handler.body)); if (n.finalizer) put(text(n.finalizer));
        } else if (n.type === 'BlockStatement' && n.body.length) put('{}');
      } else if (n.type === 'SwitchCase') put('');
      else if (/Expression$|Literal$/.test(n.type) && n.type !== 'CallExpression' && p && p.type !== 'Property' && !/^(FunctionDecl)/.test(n.type)) { const m = /\$\(\d+\)/.exec(text(n)); if (m && m[0] !== text(n)) put(m[0]); }
      for (const k in n) if (k !== 'type') walk(n[k], n, k);
    })(ast, null, '');
    cand.sort((a, b) => (b[1] - b[0] - b[2].length) - (a[1] - a[0] - a[2].length));
    for (const [a, b, t] of cand) { if (t.length >= b - a) continue; if (budget-- <= 0) break; const s = src.slice(0, a) + t + src.slice(b); if (await still(s)) { src = s; again = true; break; } }
  }
  return src;
}
module.exports.reduce = reduce;
// the markers which control may reach when every test may go both ways, apart from the truthy literals of endless loops
function live(src, fn) {
  const acorn = require('/opt/veriftools/node/node_modules/acorn'); let ast = acorn.parse(src, { ecmaVersion: 'latest', preserveParens: true }); if (fn) ast = ast.body[0].body;
  const res = new Set();
  const mark = n => { if (!n || typeof n !== 'object') return; if (Array.isArray(n)) return n.forEach(mark); if (/Function/.test(n.type)) return; if (n.type === 'Literal' && typeof n.value === 'number') res.add(n.value); for (const k in n) if (k !== 'type') mark(n[k]); };
  const endless = t => !t || t.type === 'Literal' && !!t.value || t.type === 'ArrayExpression' || t.type === 'ObjectExpression';
  // returns the jumps which leave the statement: 'n' normal, 'b:label', 'c:label', 'x' return or throw
  const seq = (list, out) => { let on = true; for (const s of list) { if (!on) break; const j = st(s, []); on = j.has('n'); j.delete('n'); for (const x of j) out.add(x); } if (on) out.add('n'); return out; };
  function loop(n, labels, test, first) {
    const out = new Set(); let exit = !first && !endless(test);
    if (!first) mark(test);
    const j = st(n.body, []); const again = j.has('n') || j.has('c:') || labels.some(l => j.has('c:' + l));
    if (first && again) { mark(test); if (!endless(test)) exit = true; }
    if (again && n.update) mark(n.update);
    if (j.has('b:') || labels.some(l => j.has('b:' + l))) exit = true;
    for (const x of j) if (x !== 'n' && x !== 'c:' && x !== 'b:' && !labels.some(l => x === 'c:' + l || x === 'b:' + l)) out.add(x);
    if (exit) out.add('n'); return out;
  }
  function st(n, labels) {
    switch (n.type) {
      case 'BlockStatement': case 'Program': { const o = seq(n.body, new Set()); return own(o, labels); }
      case 'IfStatement': { mark(n.test); const o = st(n.consequent, []); for (const x of n.alternate ? st(n.alternate, []) : ['n']) o.add(x); return own(o, labels); }
      case 'WhileStatement': return loop(n, labels, n.test, false);
      case 'DoWhileStatement': return loop(n, labels, n.test, true);
      case 'ForStatement': mark(n.init); return loop(n, labels, n.test, false);
      case 'ForOfStatement': case 'ForInStatement': mark(n.left); mark(n.right); return loop({ body: n.body }, labels, { type: 'x' }, false);
      case 'LabeledStatement': return st(n.body, labels.concat(n.label.name));
      case 'SwitchStatement': {
        mark(n.discriminant); const o = new Set(); for (const c of n.cases) mark(c.test);
        let brk = !n.cases.some(c => !c.test) || !n.cases.length, last = true;
        n.cases.forEach(c => { const j = seq(c.consequent, new Set()); last = j.delete('n'); if (j.delete('b:')) brk = true; for (const x of j) o.add(x); });
        if (last || brk) o.add('n'); return own(o, labels);
      }
      case 'TryStatement': { const o = st(n.block, []); if (n.handler) for (const x of st(n.handler.body, [])) o.add(x); return own(o, labels); }
      case 'WithStatement': mark(n.object); return own(st(n.body, []), labels);
      case 'ThrowStatement': case 'ReturnStatement': mark(n.argument); return new Set(['x']);
      case 'BreakStatement': return new Set(['b:' + (n.label ? n.label.name : '')]);
      case 'ContinueStatement': return new Set(['c:' + (n.label ? n.label.name : '')]);
      default: mark(n); return new Set(['n']);
    }
  }
  const own = (o, labels) => { for (const l of labels) if (o.delete('b:' + l)) o.add('n'); return o; };
  st(ast, []); return res;
}
// the markers which the graph has as reachable
function reachable(g) {
  const out = new Map(); for (const [s, d, , t] of g.edges) { if (t & CUT) continue; if (!out.has(s)) out.set(s, []); out.get(s).push(d); }
  const seen = new Set(), todo = [g.head], res = new Set(); while (todo.length) { const b = todo.pop(); if (b === -1 || seen.has(b)) continue; seen.add(b); for (const [m] of g.blocks[b].m) res.add(+m); todo.push(...out.get(b) || []); } return res;
}
Object.assign(module.exports, { live, reachable });
