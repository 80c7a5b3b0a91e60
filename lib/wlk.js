'use strict';
// Oracle for the AST walker: the tree spelled out by the nested before/after
// events of one walk against the tree of the reference parser.
const R = require('./ref');
const KIND = {
  Program: 'Prog', ExpressionStatement: 'ExprStmt', VariableDeclaration: 'VarDecStmt', VariableDeclarator: 'VarDec', FunctionDeclaration: 'FnDec', FunctionExpression: 'FnDec',
  BlockStatement: 'BlockStmt', DoWhileStatement: 'DoWhileStmt', WhileStatement: 'WhileStmt', ForStatement: 'ForStmt', ForInStatement: 'ForInOfStmt', ForOfStatement: 'ForInOfStmt',
  IfStatement: 'IfStmt', SwitchStatement: 'SwitchStmt', SwitchCase: 'SwitchCase', BreakStatement: 'BrkStmt', ContinueStatement: 'ContStmt', LabeledStatement: 'LabelStmt', ReturnStatement: 'RetStmt',
  ThrowStatement: 'ThrowStmt', TryStatement: 'TryStmt', CatchClause: 'Catch', DebuggerStatement: 'DebugStmt', WithStatement: 'WithStmt', ClassDeclaration: 'ClassDec', ClassExpression: 'ClassDec',
  ImportDeclaration: 'ImportDec', ExportNamedDeclaration: 'ExportDec', ExportDefaultDeclaration: 'ExportDec', ExportAllDeclaration: 'ExportDec', ImportSpecifier: 'ImportSpec', ImportDefaultSpecifier: 'ImportSpec', ImportNamespaceSpecifier: 'ImportSpec', ExportSpecifier: 'ExportSpec',
  ArrayExpression: 'ArrLit', ObjectExpression: 'ObjLit', NewExpression: 'NewExpr', MemberExpression: 'MemberExpr', CallExpression: 'CallExpr', BinaryExpression: 'BinExpr', LogicalExpression: 'BinExpr',
  UnaryExpression: 'UnaryExpr', AwaitExpression: 'UnaryExpr', UpdateExpression: 'UpdateExpr', ConditionalExpression: 'CondExpr', AssignmentExpression: 'AssignExpr', ThisExpression: 'ThisExpr', ParenthesizedExpression: 'ParenExpr',
  ArrowFunctionExpression: 'ArrowFn', SequenceExpression: 'SeqExpr', TemplateLiteral: 'TplExpr', TemplateElement: 'StrLit', YieldExpression: 'YieldExpr', ChainExpression: 'ChainExpr', Identifier: 'Ident', PrivateIdentifier: 'Ident',
  ImportExpression: 'ImportCall', MetaProperty: 'MetaProp', SpreadElement: 'Spread', RestElement: 'RestPat', ArrayPattern: 'ArrPat', AssignmentPattern: 'AssignPat', ObjectPattern: 'ObjPat', Property: 'Prop',
  ClassBody: 'ClassBody', StaticBlock: 'StaticBlock', MethodDefinition: 'Method', PropertyDefinition: 'Field', Super: 'Super',
  JSXIdentifier: 'JsxIdent', JSXMemberExpression: 'JsxMember', JSXNamespacedName: 'JsxNsName', JSXSpreadAttribute: 'JsxSpreadAttr', JSXOpeningElement: 'JsxOpen', JSXClosingElement: 'JsxClose', JSXOpeningFragment: 'JsxOpen', JSXClosingFragment: 'JsxClose',
  JSXEmptyExpression: 'JsxEmpty', JSXExpressionContainer: 'JsxExprSpan', JSXText: 'JsxText', JSXAttribute: 'JsxAttr', JSXElement: 'JsxElem', JSXFragment: 'JsxElem',
};
function kindOf(n) {
  if (n.type === 'Literal') return n.regex ? 'RegLit' : n.raw === 'null' ? 'NullLit' : typeof n.value === 'boolean' ? 'BoolLit' : typeof n.value === 'string' ? 'StrLit' : 'NumLit';
  return KIND[n.type] || '?' + n.type;
}
// reference tree -> {k, lo, hi, ch}
function expected(ast, src) {
  const L = R.locator(src);
  const pos = (n, k) => ({ k, lo: L.byte(n.start), hi: L.byte(n.end), ch: [], n });
  function kids(n, out) {
    for (const key of Object.keys(n)) {
      if (key === 'loc') continue; const v = n[key];
      for (const c of Array.isArray(v) ? v : [v]) if (c && typeof c === 'object' && typeof c.type === 'string') go(c, out);
    }
  }
  function go(n, out) {
    if (n.type === 'EmptyStatement') return;
    if (n.type === 'JSXNamespacedName') { out.push(pos(n, 'JsxNsName')); return; } // an atom in mole
    if (n.type === 'JSXMemberExpression') { const e = pos(n, 'JsxMember'); out.push(e); go(n.object, e.ch); e.ch.push(pos(n.property, 'Ident')); return; }
    if (n.type === 'TaggedTemplateExpression') { const e = pos(n, 'TplExpr'); out.push(e); go(n.tag, e.ch); kids(n.quasi, e.ch); return; }
    if (n.type === 'ParenthesizedExpression') { kids(n, out); return; } // parentheses are not part of the claim
    const e = pos(n, kindOf(n)); out.push(e); kids(n, e.ch);
    if (n.type === 'ImportDefaultSpecifier') go(n.local, e.ch); // mole: local and id
  }
  const out = []; go(ast, out); return out[0];
}
// events -> tree; or {bad}
const [PH, , TYPE, LO, HI, KEY, SCOPE, PT, PLO, PHI] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
function observed(evs) {
  const st = []; let root = null;
  for (const e of evs) {
    if (e[PH] === 'b') {
      const x = { k: e[TYPE], lo: e[LO], hi: e[HI], key: e[KEY], sc: e[SCOPE], ch: [], path: e[10] };
      const p = st[st.length - 1];
      if (!p) { if (root) return { bad: 'a second root ' + e[TYPE], cls: 'root' }; root = x; }
      else {
        if (e[PT] !== p.k || e[PLO] !== p.lo || e[PHI] !== p.hi) return { bad: `node ${e[TYPE]}@${e[LO]} is entered inside ${p.k}@${p.lo} but reports the parent ${e[PT]}@${e[PLO]}`, cls: 'parent ' + e[TYPE] };
        const m = /^(.*)\[(\d+)\]$/.exec(x.key);
        if (m) { const q = p.ch[p.ch.length - 1]; const w = q && /^(.*)\[(\d+)\]$/.exec(q.key); if (w && w[1] === m[1] && (+w[2] >= +m[2] || q.lo > x.lo)) return { bad: `list order: ${q.key}@${q.lo} before ${x.key}@${x.lo}`, cls: 'order ' + m[1] }; }
        if (p.ch.some(c => c.key === x.key)) return { bad: `${p.k}@${p.lo} visits ${x.key} twice`, cls: 'twice ' + p.k + x.key };
        p.ch.push(x);
      }
      st.push(x);
    } else {
      const p = st.pop();
      if (!p || p.k !== e[TYPE] || p.lo !== e[LO] || p.hi !== e[HI]) return { bad: `after ${e[TYPE]}@${e[LO]} without its before (open: ${p && p.k})`, cls: 'nesting ' + e[TYPE] };
      if (p.sc !== e[SCOPE]) return { bad: `scope of ${p.k}@${p.lo} is ${p.sc} before and ${e[SCOPE]} after`, cls: 'scope balance ' + p.k };
    }
  }
  if (st.length) return { bad: st.length + ' nodes left open', cls: 'open' };
  return { root };
}
const cmp = (a, b) => a.lo - b.lo || a.hi - b.hi || (a.k < b.k ? -1 : a.k > b.k ? 1 : 0);
const unparen = (c, p) => c.k === 'ParenExpr' || c.k === 'Spread' && p === 'JsxSpreadAttr' ? c.ch.flatMap(x => unparen(x, c.k)) : [c];
function treeDiff(a, b, p = '') { // a reference, b observed
  if (a.k !== b.k) return `${p}: kind ref ${a.k}@${a.lo}-${a.hi} walker ${b.k}@${b.lo}-${b.hi}`;
  if (a.lo !== b.lo || a.hi !== b.hi) return `${p}: range of ${a.k} ref ${a.lo}-${a.hi} walker ${b.lo}-${b.hi}`;
  let bc = b.ch.flatMap(c => unparen(c, b.k));
  if (a.n && a.n.type === 'ExportAllDeclaration') bc = bc.flatMap(c => c.k === 'ExportSpec' ? c.ch : [c]);
  const x = [...a.ch].sort(cmp), y = [...bc].sort(cmp);
  const key = c => c.k + ' ' + c.lo + '-' + c.hi;
  for (let i = 0; i < Math.max(x.length, y.length); i++) {
    if (!x[i] || !y[i] || key(x[i]) !== key(y[i])) {
      const xs = x.map(key), ys = y.map(key); const ys2 = [...ys], miss = [];
      for (const s of xs) { const j = ys2.indexOf(s); if (j < 0) miss.push(s); else ys2.splice(j, 1); }
      return `${p}/${a.k}@${a.lo}: not visited [${miss}] visited without cause [${ys2}]`;
    }
  }
  for (let i = 0; i < x.length; i++) { const d = treeDiff(x[i], y[i], p + '/' + a.k); if (d) return d; }
  return null;
}
function parse(src, mode, more) {
  const P = mode.startsWith('jsx') ? R.acorn.Parser.extend(require(R.NM + 'acorn-jsx')()) : R.acorn.Parser;
  return P.parse(src, { ecmaVersion: 13, sourceType: mode.endsWith('module') ? 'module' : 'script', allowHashBang: false, ...more });
}
module.exports = { expected, observed, treeDiff, parse, KIND };
