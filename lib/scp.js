'use strict';
// programs dense in declarations and references of few names, to stress scoping
const { Rng } = require('./rng');
function gen(seed, i, opt = {}) {
  const r = new Rng(seed + '|' + i); let n = 0; const NAMES = r.pick([['a', 'b'], ['a', 'b', 'c'], ['a', 'b', 'c', 'd', 'e']]); let budget = 10 + r.int(r.pick([12, 40, 90]));
  const nm = () => r.pick(NAMES);
  // s: {lex:Set, var:Set(fn), up, fn}
  const mk = (up, fn, noLex) => ({ up, fn: fn || !up, lex: new Set(), vars: new Set(), params: new Set() });
  const declLex = s => { const c = NAMES.filter(x => !s.lex.has(x) && !s.vars.has(x) && !s.params.has(x)); if (!c.length) return null; const x = r.pick(c); s.lex.add(x); return x; };
  const declVar = s => { const c = NAMES.filter(x => { for (let t = s; t; t = t.up) { if (t.lex.has(x) || t.noVar && t.noVar.has(x)) return false; if (t.fn) return true; } return true; }); if (!c.length) return null; const x = r.pick(c); for (let t = s; t; t = t.up) { t.vars.add(x); if (t.fn) break; } return x; };
  const lexPat = (s, d = 0) => { const k = r.int(d > 1 ? 1 : 6); if (k < 3) return declLex(s); const a = lexPat(s, d + 1); if (!a) return null; const b = lexPat(s, d + 1); if (k === 3) return `{k:${a}${b ? `,[${expr(s)}]:${b}=${expr(s)}` : ''}}`; if (k === 4) return `[${a}${b ? ',...' + b : ''}]`; return `[${a}=${expr(s)}]`; };
  const varPat = (s, d = 0) => { const k = r.int(d > 1 ? 1 : 6); if (k < 3) return declVar(s); const a = varPat(s, d + 1); if (!a) return null; const b = varPat(s, d + 1); if (k === 3) return `{k:${a}${b ? `,[${expr(s)}]:${b}=${expr(s)}` : ''}}`; if (k === 4) return `[${a}${b ? ',...' + b : ''}]`; return `[${a}=${expr(s)}]`; };
  const params = s => { const out = []; const m = r.int(4); const used = []; const one = (d) => { const c = NAMES.filter(x => !s.params.has(x)); if (!c.length) return null; const x = r.pick(c); s.params.add(x); const k = r.int(d ? 1 : 6); if (k < 3) return x; if (k === 3) return `${x}=${expr(s, 1)}`; if (k === 4) return r.bool() ? `{${x}}` : `{${x}=${expr(s, 1)}}`; const y = one(1); return `{k:${x},[${expr(s, 1)}]:[${y || ''}]}`; }; for (let j = 0; j < m; j++) { const p = one(0); if (p) out.push(p); } if (r.int(6) === 0) { const c = NAMES.filter(x => !s.params.has(x)); if (c.length) { const x = r.pick(c); s.params.add(x); out.push('...' + x); } } return out.join(','); };
  const body = s => { const b = mk(s, true); s.params.forEach(x => b.params.add(x)); return '{' + stmts(b) + '}'; };
  const fnSig = (up, nameIn) => { const s = mk(up, true); const p = params(s); return `(${p})${body(s)}`; };
  function expr(s, nodecl) {
    budget--; if (budget < 0) return r.int(4) ? nm() : '0';
    const k = r.int(24);
    switch (k) {
      case 0: case 1: case 2: case 3: case 4: return nm();
      case 5: return `${nm()}=${expr(s)}`.replace(/^/, '(') + ')';
      case 6: return `(${nm()}++)`;
      case 7: return `f(${expr(s)},...${nm()})`;
      case 8: return `({${nm()},${nm()}:${expr(s)},[${expr(s)}]:${nm()}})`;
      case 9: return `${nm()}.${nm()}`;
      case 10: { const t = mk(s, true); const p = params(t); const b = r.bool() ? body(t) : expr(t); return `((${p})=>${b[0] === '{' && r.bool() ? b : b[0] === '{' ? b : '(' + b + ')'})`; }
      case 11: { const t = mk(s, true); const x = r.pick(NAMES); t.params.add(x); return `(${x}=>(${expr(t)}))`; }
      case 12: return `(function ${r.bool() ? nm() : ''}${fnSig(s)})`;
      case 13: return `(class ${r.bool() ? nm() : ''}${cls(s)})`;
      case 14: return `({m${fnSig(s)},get g()${body(mk(s, true))},set s(${NAMES[0]})${(() => { const t = mk(s, true); t.params.add(NAMES[0]); return body(t); })()}})`;
      case 15: return '`${' + expr(s) + '}${' + nm() + '}`';
      case 16: return `([{k:${nm()}},${nm()}=${expr(s)},...${nm()}]=${expr(s)})`;
      case 17: return `({k:${nm()},[${expr(s)}]:${nm()}=${expr(s)},...${nm()}}=${expr(s)})`;
      case 18: return `(${expr(s)},${expr(s)})`;
      case 19: return `(${nm()}?${expr(s)}:${expr(s)})`;
      case 20: return `(typeof ${nm()}+${nm()}[${expr(s)}])`;
      case 21: return `(function*${fnSig(s)})`;
      case 22: return `(async(${nm()},${expr(s)}))`;
      default: { const t = mk(s, true); const p = params(t); return `(async(${p})=>(${expr(t)}))`; }
    }
  }
  function cls(s) { let o = r.int(3) === 0 ? ` extends (${expr(s)})` : ''; o += '{'; const m = r.int(4); for (let j = 0; j < m; j++) { switch (r.int(6)) { case 0: o += `m${j}${fnSig(s)};`; break; case 1: o += `[${expr(s)}](){};`; break; case 2: o += `p${j}=${expr(s)};`; break; case 3: o += `static{${stmts(mk(s, true))}};`; break; case 4: o += `static [${expr(s)}]=${expr(s)};`; break; case 5: o += `#q${j}=${nm()};static async*h${j}${fnSig(s)};`; break; } } return o + '}'; }
  function stmts(s) { let o = ''; const m = 1 + r.int(4); for (let j = 0; j < m; j++) o += stmt(s); return o; }
  const blk = (s, t) => { t = t || mk(s); return '{' + stmts(t) + '}'; };
  function stmt(s) {
    budget--; if (budget < 0) return nm() + ';';
    const k = r.int(26);
    switch (k) {
      case 0: case 1: { const p = lexPat(s); return p ? `let ${p}=${expr(s)};` : ''; }
      case 2: { const p = declLex(s); return p ? `const ${p}=${expr(s)};` : ''; }
      case 3: case 4: { const p = varPat(s); return p ? `var ${p}=${expr(s)};` : ''; }
      case 5: { const x = declLex(s); return x ? `${r.bool() ? 'function ' : 'async function '}${x}${fnSig(s)}` : ''; }
      case 6: { const x = declLex(s); return x ? `class ${x}${cls(s)}` : ''; }
      case 7: case 8: case 9: return expr(s).replace(/^(?=\{|function|class|async function)/, '0,') + ';';
      case 10: return blk(s);
      case 11: return `if(${expr(s)})${r.bool() ? blk(s) : nm() + ';'}else ${r.bool() ? blk(s) : nm() + ';'}`;
      case 12: { const t = mk(s); const p = lexPat(t); return p ? `for(let ${p}=${expr(t)};${expr(t)};${expr(t)})${inner(t)}` : ''; }
      case 13: { const p = varPat(s); return p ? `for(var ${p}=${expr(s)};${expr(s)};)${inner(s)}` : ''; }
      case 14: { const t = mk(s); const p = lexPat(t); return p ? `for(${r.pick(['let', 'const'])} ${p} ${r.pick(['of', 'in'])} ${expr(t)})${inner(t)}` : ''; }
      case 15: { const p = varPat(s); return p ? `for(var ${p} ${r.pick(['of', 'in'])} ${expr(s)})${inner(s)}` : ''; }
      case 16: return `for(${r.pick([nm(), `[${nm()},{k:${nm()}}]`, `{k:${nm()}=${expr(s)}}`])} ${r.pick(['of', 'in'])} ${expr(s)})${inner(s)}`;
      case 17: return `for(${expr(s)};${expr(s)};${expr(s)})${inner(s)}`;
      case 18: return `while(${expr(s)})${inner(s)}`;
      case 19: return `do ${inner(s)} while(${expr(s)});`;
      case 20: { const t = mk(s); let o = ''; const m = r.int(4); for (let j = 0; j < m; j++) o += `case ${expr(t)}:${stmts(t)}`; return `switch(${expr(s)}){${o}${r.bool() ? 'default:' + stmts(t) : ''}}`; }
      case 21: { const t = mk(s); const p = r.int(4) ? lexPat(t) : null; t.noVar = new Set(t.lex); t.params = new Set(t.lex); return `try${blk(s)}catch${p ? `(${p})` : ''}${blk(t, t)}${r.bool() ? 'finally' + blk(s) : ''}`; }
      case 22: return `L${++n}:${r.bool() ? blk(s) : `for(;;){${stmts(mk(s))}break L${n}}`}`;
      case 23: return `try${blk(s)}finally${blk(s)}`;
      case 24: return opt.with ? `with(${expr(s)})${blk(s)}` : '';
      default: return `throw ${expr(s)};`;
    }
  }
  const inner = s => r.int(3) ? blk(s) : nm() + ';';
  const root = mk(null, true); let o = '';
  if (opt.module) { const m = r.int(4); for (let j = 0; j < m; j++) { const x = declLex(root); if (!x) break; o += r.pick([`import ${x} from'm';`, `import*as ${x} from'm';`, `import{k as ${x}}from'm';`, `import{${x}}from'm';`, `export class ${x}${cls(root)}`, `export function ${x}${fnSig(root)}`, `export let ${x}=${expr(root)};`, `export default function ${x}${fnSig(root)}`].slice(0, o.includes('export default') ? 7 : 8)); } }
  o += stmts(root); if (opt.module && r.bool()) { const x = [...root.lex, ...root.vars]; if (x.length) o += `export{${r.pick(x)} as zz};`; }
  return { src: o, mode: opt.module ? 'module' : 'script' };
}
module.exports = { gen };
