'use strict';
// which declaration every reference of a program resolves to, by eslint-scope (the reference for scoping)
const R = require('./ref'); const ES = require(R.NM + 'eslint-scope');
// scopes from the innermost one of the reference to the global one
const up = function* (s) { for (; s; s = s.upper) yield s; };
function why(r, name, sw, ca) {
  if (ca.some(s => s.block.param && s.block.param.start <= r.identifier.start && r.identifier.end <= s.block.param.end && s.childScopes.some(b => b.block === s.block.body && b.set.has(name)))) return 'parameter and body of catch';
  if (sw.some(s => s.block.discriminant.start <= r.identifier.start && r.identifier.end <= s.block.discriminant.end && s.set.has(name))) return 'head of switch';
  // lookups not claimed: by name only, mole has one scope for the parameters and the body, for the head and the cases of switch, and
  // the heritage of a class is outside of the class
  for (const s of up(r.from)) {
    const v = s.set.get(name); if (!v || !v.defs.length) { if (s.type === 'function') continue; }
    if (s.type === 'function' && v && r.identifier.start < s.block.body.start && v.defs.some(d => d.name.start >= s.block.body.start)) return 'parameters and body';
    if (s.type === 'class' && s.block.id && s.block.id.name === name && s.block.superClass && r.identifier.start >= s.block.superClass.start && r.identifier.start < s.block.body.start) return 'heritage';
    if (s.type === 'catch' && v && s.childScopes.length && varIn(s.block.body, name)) return 'var in catch';
    if (v && v.defs.length) break;
  }
  return null;
}
function varIn(n, name) {
  let hit = false; const w = x => { if (!x || typeof x !== 'object' || hit) return; if (Array.isArray(x)) return x.forEach(w); if (x.type === 'VariableDeclaration' && x.kind === 'var') { pat(x.declarations.map(d => d.id)); } if (/^(Function|Arrow|Class)/.test(x.type)) return; for (const k in x) if (k !== 'range') w(x[k]); };
  const pat = x => { if (!x || typeof x !== 'object') return; if (Array.isArray(x)) return x.forEach(pat); if (x.type === 'Identifier' && x.name === name) hit = true; for (const k in x) if (k !== 'range') pat(x[k]); };
  w(n); return hit;
}
function refs(src, mode) {
  const ast = R.acorn.parse(src, { ecmaVersion: 13, sourceType: mode, ranges: true }); const L = R.locator(src);
  const sm = ES.analyze(ast, { ecmaVersion: 2022, sourceType: mode, optimistic: true }); const sw = sm.scopes.filter(s => s.type === 'switch'); const ca = sm.scopes.filter(s => s.type === 'catch'); const out = []; const g = sm.globalScope;
  for (const sc of sm.scopes) for (const r of sc.references) {
    const name = r.identifier.name; let v = r.resolved; if (!v) { const x = g.set.get(name); if (x && x.defs.length) v = x; }
    out.push({ lo: L.byte(r.identifier.start), name, defs: v ? v.defs.map(d => L.byte(d.name.start)) : null, builtin: v && !v.defs.length, skip: why(r, name, sw, ca) });
  }
  return out;
}
// o: the answer of the driver's scope op
function judge(src, mode, o) {
  let rs; try { rs = refs(src, mode); } catch { return { skip: 'reference rejects' }; }
  if (!o.ok) return { skip: 'rejected' };
  if (o.val.bad.length) return { bad: o.val.bad[0], cls: 'no scope' };
  const m = new Map(); for (const e of o.val.ids) if (e[3] !== 'Key' || !m.has(e[0])) m.set(e[0], e);
  const st = { n: 0, bound: 0, free: 0, skip: {} };
  for (const r of rs) {
    const e = m.get(r.lo); if (!e) return { bad: `the reference ${r.name}@${r.lo} was not met by the walk`, cls: 'not met' };
    if (r.builtin) continue; if (r.skip) { st.skip[r.skip] = (st.skip[r.skip] || 0) + 1; continue; }
    st.n++; const at = `${r.name}@${r.lo} (${e[4]}.${e[3]})`; const k = e[4] + '.' + e[3].replace(/\d+/, '');
    if (!r.defs) { if (e[6] >= 0) return { bad: `${at} is bound to the declaration @${e[6]} and is not declared in a scope around it`, cls: 'free ' }; st.free++; }
    else if (e[6] < 0) return { bad: `${at} is not bound; it is declared @${r.defs}`, cls: 'unbound ' };
    else if (!r.defs.includes(e[6])) return { bad: `${at} is bound to the declaration @${e[6]} rather than @${r.defs}`, cls: 'other ' };
    else st.bound++;
  }
  return st;
}
module.exports = { refs, judge };
