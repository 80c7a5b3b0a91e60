'use strict';
// Workloads shared by the parser checks: generated programs, snippets, real
// files, mutations. All of them are functions of (seed, index) only.
const fs = require('fs'), path = require('path');
const R = require('./ref'), { Gen, render } = require('./gen'), { Rng } = require('./rng');
const NM = R.NM;
let _snips;
const snips = () => _snips || (_snips = fs.readFileSync(path.join(__dirname, '..', 'corpus', 'snippets.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l)));
// real-world files: sorted list of the installed packages' sources
let _files;
function realFiles(maxSize = 60000) {
  if (_files) return _files;
  const out = [];
  const walk = (d, depth) => {
    let es; try { es = fs.readdirSync(d, { withFileTypes: true }); } catch { return; }
    es.sort((a, b) => a.name < b.name ? -1 : 1);
    for (const e of es) {
      const p = d + '/' + e.name;
      if (e.isSymbolicLink()) continue;
      if (e.isDirectory()) { if (depth < 7) walk(p, depth + 1); } else if (/\.(js|cjs|mjs)$/.test(e.name)) { let st; try { st = fs.statSync(p); } catch { continue; } if (st.size > 40 && st.size < maxSize) out.push(p); }
    }
  };
  walk(NM.replace(/\/$/, ''), 0);
  return _files = out;
}
function genProgram(seed, i, o = {}) {
  const r = new Rng(seed + '|l|' + i);
  const mode = o.mode || (i % 2 ? 'script' : 'module');
  const g = new Gen(seed + '|' + i, { mode, depth: o.depth || r.range(2, 5), stmts: o.stmts || 4, unicode: r.bool(0.25), escid: r.bool(0.2), ...o.gen });
  const toks = g.program();
  const layout = o.layout || r.pick(['min', 'space', 'lines', 'wild', 'wild']);
  const src = render(toks, layout, r, { asi: r.bool(), cr: true, unicode: r.bool(0.3), bom: r.bool(0.2), ...o.render });
  return { src, mode, toks, stats: g.stats, rng: r };
}
const EXTRA = '( ) [ ] { } , ; : . ?. ... => = += == + ++ ! ? ?? * ** async await yield let const var function class static get set new super this in of for if else return break continue delete typeof import export default 0 a "s" `t` #p /r/ label: eval arguments \n'.split(' ');
// token-level mutation of a program; null when the text does not tokenise
function mutate(src, r, mode, n) {
  let toks; try { toks = [...R.acorn.tokenizer(src, { ecmaVersion: 13, sourceType: mode })].map(t => src.slice(t.start, t.end)); } catch { return null; }
  if (!toks.length || toks.length > 200) return null;
  for (let k = 0; k < n; k++) {
    const j = r.int(toks.length);
    switch (r.int(5)) {
      case 0: toks.splice(j, 1); break;
      case 1: toks.splice(j, 0, r.pick(EXTRA)); break;
      case 2: toks[j] = r.pick(EXTRA); break;
      case 3: { const q = r.int(toks.length); [toks[j], toks[q]] = [toks[q], toks[j]]; break; }
      case 4: toks.splice(j, 0, toks[j]);
    }
  }
  return toks.join(' ');
}
module.exports = { snips, realFiles, genProgram, mutate, Rng, Gen, render };
