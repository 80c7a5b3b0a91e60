'use strict';
// the judges of control flow graphs, shared by C13 and C14
const C = require('./cfg'), R = require('./ref'), F = require('./fid');
const arg = c => ({ op: 'cfg', src: c.src, ...R.MODES[c.mode || 'script'] });
const graphOf = (c, o) => c.fn ? o.val.find(g => g.lo >= 0) : o.val[0];
function trouble(c, o) {
  const x = F.died(o); if (x) return { bad: x, cls: 'died ' + x.slice(0, 60) };
  if (!o.ok) return { skip: 'rejected' };
  if (c.fn && !graphOf(c, o)) return { bad: 'the function has no graph', cls: 'NOGRAPH' };
}
// the number literals of the program are markers and nothing else
const proper = src => !/\$(?![({])/.test(src) && !/(\$|it)\([^0-9]/.test(src) && !/\$\(\d+\)\s*[(.[`]/.test(src.replace(/\$\(\d+\)\?\.\[/g, ''));
const onlyMarkers = (c, g) => Object.values(g.blocks).every(b => b.m.every(([, lo]) => /(\$|it)\($/.test(c.src.slice(0, lo))));
function paths(c, o, runs) {
  const t = trouble(c, o); if (t) return t;
  const g = graphOf(c, o); if (!proper(c.src) || !onlyMarkers(c, g)) return { skip: 'not a program of markers' };
  const s = C.succ(g), kinds = new Set(); let n = 0, ex = 0, ends = 0;
  for (let k = 0; k < runs; k++) {
    const tr = C.run(c.src, c.fn, 'r' + k, k % 3 === 2); if (tr.syntax || tr.odd) return { skip: 'not run: ' + (tr.odd || 'syntax') };
    let prev = 0, th = false;
    for (const [m, x] of tr.trace) {
      const S = th ? s.exc : s.next; const to = S.get(prev);
      if (!to || !to.has(m)) return { cls: th ? 'EXC' : 'PATH', bad: `an execution went from ${prev ? 'marker ' + prev : 'the start'} to marker ${m}${th ? ' by an exception' : ''}, the graph allows only ${[...to || []].map(x => x < 0 ? 'the end' : x)}; trace ${tr.trace.map(x => x[0] + (x[1] ? '!' : ''))}` };
      kinds.add((th ? 'x' : '') + prev + '>' + m); prev = m; th = x; if (x) ex++; n++;
    }
    if (tr.full && !th) { ends++; const to = s.next.get(prev); if (!to || !to.has(-1)) return { cls: 'END', bad: `an execution ended after ${prev ? 'marker ' + prev : 'the start'}, the graph allows only ${[...to || []]}` }; }
  }
  return { n, ex, ends, kinds: kinds.size };
}
function dead(c, o) {
  const t = trouble(c, o); if (t) return t;
  const g = graphOf(c, o); if (!proper(c.src) || !onlyMarkers(c, g)) return { skip: 'not a program of markers' };
  let lv; try { lv = C.live(c.src, c.fn); } catch { return { skip: 'reference rejects' }; }
  let n = 0; for (const m of C.reachable(g)) { if (!lv.has(m)) return { cls: 'DEAD', bad: `marker ${m} is dead code, the graph has it reachable` }; n++; }
  const all = new Set((c.src.match(/(\$|it)\(\d+/g) || []).map(x => +x.replace(/\D/g, ''))); let dd = 0; for (const m of all) if (!lv.has(m)) dd++;
  return { n, dead: dd };
}
// what two analyses of the same program have in common: blocks and edges, and which of them are live; the marks of edges between dead blocks are left out
function canon(g) {
  const out = new Map(); for (const e of g.edges) { if (e[3] & 1) continue; if (!out.has(e[0])) out.set(e[0], []); out.get(e[0]).push(e); }
  const seen = new Set(), todo = [g.head], live = []; while (todo.length) { const b = todo.pop(); if (b === -1 || seen.has(b)) continue; seen.add(b); for (const e of out.get(b) || []) { live.push(e.join()); todo.push(e[1]); } }
  return [...new Set(g.dot.split('\n').map(l => l.replace(/,color="\w+"/, '')))].sort().join('\n') + [...new Set(live)].sort().join(' ');
}
// every edge is where its block is, ids are unique, nodes are looked up in the block which has them; the same graph every time
function form(c, o, o2) {
  const t = trouble(c, o); if (t) return t;
  for (const g of o.val) if (g.bad.length) return { cls: 'FORM ' + g.bad[0].replace(/\d+/g, ''), bad: g.bad[0] };
  if (o2) { const i = o.val.findIndex((g, i) => !o2.val || !o2.val[i] || canon(o2.val[i]) !== canon(g)); if (i >= 0 || o2.val.length !== o.val.length) return { cls: 'REPEAT', bad: `two analyses of the same program differ in graph ${i}` }; }
  return { n: o.val.length, look: o.val.reduce((a, g) => a + (g.look || 0), 0), blocks: o.val.reduce((a, g) => a + Object.keys(g.blocks).length, 0) };
}
module.exports = { arg, paths, dead, form, C };
