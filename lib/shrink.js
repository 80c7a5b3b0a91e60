'use strict';
// ddmin over lines, then tokens/characters; pred(src) -> Promise<bool>
async function shrink(src, pred, budget = 1500) {
  let n = 0; const test = async s => { if (n++ > budget) return false; return pred(s); };
  for (const split of [/(?<=\n)/, /(?<=[;{}(),\[\]`])/, /(?<=\W)|(?=\W)/, '']) {
    let parts = src.split(split);
    let chunk = Math.ceil(parts.length / 2);
    while (chunk >= 1) {
      let changed = false;
      for (let i = 0; i < parts.length;) {
        const cand = parts.slice(0, i).concat(parts.slice(i + chunk));
        if (cand.length < parts.length && await test(cand.join(''))) { parts = cand; changed = true; } else i += chunk;
        if (n > budget) break;
      }
      if (n > budget) break;
      if (chunk === 1 && !changed) break;
      if (!changed || chunk > 1) chunk = Math.floor(chunk / 2) || (changed ? 1 : 0);
    }
    src = parts.join('');
  }
  return src;
}
module.exports = { shrink };
