// dump.cjs SRCDIR OUT.json: the type-checked syntax of the TypeScript package as JSON (test files left out).
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs'), path = require('path');
const dir = path.resolve(process.argv[2]), out = process.argv[3];
const files = [];
(function walk(d) {
  for (const f of fs.readdirSync(d).sort()) {
    const p = path.join(d, f);
    if (f === 'node_modules' || f === 'pkg' || f === 'dist') continue;
    if (fs.statSync(p).isDirectory()) walk(p);
    else if (/\.ts$/.test(f) && !/\.(test|spec)\.ts$|\.d\.ts$/.test(f)) files.push(p);
  }
})(dir);
const prog = ts.createProgram(files, { noEmit: true, strict: true, target: ts.ScriptTarget.ESNext, module: ts.ModuleKind.ESNext,
  moduleResolution: ts.ModuleResolutionKind.Bundler, lib: ['lib.esnext.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'], skipLibCheck: true, types: [], allowJs: false });
const ck = prog.getTypeChecker();
const SK = ts.SyntaxKind, TF = ts.NodeBuilderFlags;
const mine = new Set(files);
const rel = f => path.relative(dir, f);
const key = d => rel(d.getSourceFile().fileName) + ':' + d.getStart();
function ty(n) {
  try {
    let t = ck.getTypeAtLocation(n);
    let s = ck.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation);
    return s.length > 200 ? s.slice(0, 200) : s;
  } catch (e) { return 'any'; }
}
const ln = n => n.getSourceFile().getLineAndCharacterOfPosition(n.getStart()).line + 1;
const OP = k => ts.tokenToString(k);
function ident(n) {
  let s = n.parent && ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n ? ck.getShorthandAssignmentValueSymbol(n.parent) : ck.getSymbolAtLocation(n);
  if (n.text === 'undefined') return { k: 'undef' };
  if (!s) return { k: 'glob', name: n.text };
  return symref(s, n.text);
}
function symref(s, name) {
  const seen = new Set();
  while (s.flags & ts.SymbolFlags.Alias) {
    const d = s.declarations && s.declarations[0];
    let t = ck.getAliasedSymbol(s);
    if (!t || t.escapedName === 'unknown' || seen.has(t)) {
      let x = d; while (x && !ts.isImportDeclaration(x)) x = x.parent;
      const nm = d && d.propertyName ? d.propertyName.text : d && ts.isImportClause(d) ? 'default' : d && ts.isNamespaceImport(d) ? '*' : d && d.name ? d.name.text : name;
      return { k: 'ext', mod: x ? x.moduleSpecifier.text : '?', name: nm };
    }
    seen.add(t); s = t;
  }
  const d = s.valueDeclaration || (s.declarations && s.declarations[0]);
  if (!d) return { k: 'glob', name };
  if (ts.isSourceFile(d)) return { k: 'module', file: rel(d.fileName) };
  if (!mine.has(d.getSourceFile().fileName)) return { k: 'glob', name: s.name };
  return { k: 'id', name, d: key(d) };
}
function pname(n) {
  if (ts.isIdentifier(n) || ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isPrivateIdentifier(n)) return { s: n.text };
  return { e: E(n.expression) };
}
function pat(n) {
  if (ts.isIdentifier(n)) return { k: 'pid', name: n.text, d: key(n.parent && (ts.isVariableDeclaration(n.parent) || ts.isParameter(n.parent) || ts.isBindingElement(n.parent)) ? n.parent : n) };
  if (ts.isObjectBindingPattern(n)) return { k: 'pobj', els: n.elements.map(e => ({ rest: !!e.dotDotDotToken, name: e.propertyName ? pname(e.propertyName) : { s: e.name.text }, pat: pat(e.name), def: e.initializer ? E(e.initializer) : null })) };
  if (ts.isArrayBindingPattern(n)) return { k: 'parr', els: n.elements.map(e => ts.isOmittedExpression(e) ? null : ({ rest: !!e.dotDotDotToken, pat: pat(e.name), def: e.initializer ? E(e.initializer) : null })) };
  return { k: 'p?', t: SK[n.kind] };
}
function params(ps) { return ps.filter(p => !(ts.isIdentifier(p.name) && p.name.text === 'this')).map(p => ({ pat: pat(p.name), def: p.initializer ? E(p.initializer) : null, rest: !!p.dotDotDotToken, ty: ty(p), prop: ts.getCombinedModifierFlags(p) & ts.ModifierFlags.ParameterPropertyModifier ? true : false })); }
const has = (n, k) => !!(n.modifiers && n.modifiers.some(m => m.kind === k));
function fn(n) {
  const body = n.body ? (ts.isBlock(n.body) ? B(n.body) : { k: 'return', e: E(n.body), sp: ln(n) }) : null;
  return { k: 'fn', d: key(n), name: n.name && n.name.text || '', params: params(n.parameters), body, async: has(n, SK.AsyncKeyword), gen: !!n.asteriskToken, arrow: ts.isArrowFunction(n), sp: ln(n), ret: rty(n) };
}
function rty(n) { try { return ck.typeToString(ck.getReturnTypeOfSignature(ck.getSignatureFromDeclaration(n)), undefined, ts.TypeFormatFlags.NoTruncation).slice(0, 200); } catch (e) { return ''; } }
function cls(n) {
  const c = { k: 'class', d: key(n), name: n.name ? n.name.text : '', ctor: null, methods: {}, statics: {}, fields: [], getters: {}, ext: n.heritageClauses ? true : false, sp: ln(n) };
  for (const m of n.members) {
    if (ts.isConstructorDeclaration(m)) { if (m.body) c.ctor = fn(m); }
    else if (ts.isMethodDeclaration(m)) { if (m.body) (has(m, SK.StaticKeyword) ? c.statics : c.methods)[m.name.text || m.name.getText()] = fn(m); }
    else if (ts.isGetAccessor(m)) c.getters[m.name.text] = fn(m);
    else if (ts.isPropertyDeclaration(m)) c.fields.push({ name: m.name.text, init: m.initializer ? E(m.initializer) : null, static: has(m, SK.StaticKeyword) });
  }
  return c;
}
function E(n) {
  const r = E0(n);
  r.sp = ln(n);
  if (!r.ty && !['num', 'str', 'bool', 'fn'].includes(r.k)) r.ty = ty(n);
  return r;
}
function E0(n) {
  switch (n.kind) {
    case SK.NumericLiteral: return { k: 'num', v: String(Number(n.text)), int: Number.isInteger(Number(n.text)) ? BigInt(Number(n.text)).toString() : null };
    case SK.BigIntLiteral: return { k: 'num', big: true, int: BigInt(n.text.replace(/n$/, '').replace(/_/g, '')).toString() };
    case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return { k: 'str', v: n.text };
    case SK.TemplateExpression: { const ps = [{ k: 'str', v: n.head.text }]; for (const s of n.templateSpans) { ps.push(E(s.expression)); ps.push({ k: 'str', v: s.literal.text }); } return { k: 'tmpl', ps: ps.filter(p => !(p.k === 'str' && p.v === '')) }; }
    case SK.TrueKeyword: return { k: 'bool', v: true };
    case SK.FalseKeyword: return { k: 'bool', v: false };
    case SK.NullKeyword: return { k: 'null' };
    case SK.ThisKeyword: return { k: 'this' };
    case SK.SuperKeyword: return { k: 'super' };
    case SK.RegularExpressionLiteral: return { k: 'regex', v: n.text };
    case SK.Identifier: return ident(n);
    case SK.ParenthesizedExpression: case SK.AsExpression: case SK.NonNullExpression: case SK.SatisfiesExpression: case SK.TypeAssertionExpression: return E0(n.expression);
    case SK.ArrayLiteralExpression: return { k: 'arr', es: n.elements.map(e => ts.isSpreadElement(e) ? { spread: E(e.expression) } : E(e)) };
    case SK.ObjectLiteralExpression: return { k: 'obj', ps: n.properties.map(p => {
      if (ts.isPropertyAssignment(p)) return { name: pname(p.name), e: E(p.initializer) };
      if (ts.isShorthandPropertyAssignment(p)) return { name: { s: p.name.text }, e: E(p.name) };
      if (ts.isSpreadAssignment(p)) return { spread: E(p.expression) };
      if (ts.isMethodDeclaration(p)) return { name: pname(p.name), e: fn(p) };
      return { bad: SK[p.kind] }; }) };
    case SK.FunctionExpression: case SK.ArrowFunction: return fn(n);
    case SK.ClassExpression: return cls(n);
    case SK.CallExpression:
      if (n.expression.kind === SK.ImportKeyword) return { k: 'import', e: E(n.arguments[0]), file: impfile(n) };
      return { k: 'call', f: E(n.expression), args: args(n.arguments), opt: !!n.questionDotToken };
    case SK.NewExpression: return { k: 'new', f: E(n.expression), args: args(n.arguments || []) };
    case SK.PropertyAccessExpression: {
      const s = ck.getSymbolAtLocation(n.name); let c = null;
      return { k: 'mem', o: E(n.expression), name: n.name.text, opt: !!n.questionDotToken };
    }
    case SK.ElementAccessExpression: return { k: 'idx', o: E(n.expression), i: E(n.argumentExpression), opt: !!n.questionDotToken };
    case SK.PrefixUnaryExpression: if (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) return { k: 'upd', op: OP(n.operator)[0], pre: true, a: E(n.operand) }; return { k: 'un', op: OP(n.operator), a: E(n.operand) };
    case SK.PostfixUnaryExpression: return { k: 'upd', op: OP(n.operator)[0], pre: false, a: E(n.operand) };
    case SK.BinaryExpression: { const o = OP(n.operatorToken.kind);
      if (/^(=|[^=!<>]+=|<<=|>>=|>>>=)$/.test(o) && o !== '==' && o !== '===') {
        if (o === '=' && (ts.isObjectLiteralExpression(n.left) || ts.isArrayLiteralExpression(n.left))) return { k: 'dasg', pat: apat(n.left), e: E(n.right) };
        return { k: 'asg', op: o.slice(0, -1), a: E(n.left), e: E(n.right) };
      }
      return { k: 'bin', op: o, a: E(n.left), b: E(n.right) }; }
    case SK.ConditionalExpression: return { k: 'cond', c: E(n.condition), a: E(n.whenTrue), b: E(n.whenFalse) };
    case SK.AwaitExpression: return { k: 'await', e: E(n.expression) };
    case SK.TypeOfExpression: return { k: 'typeof', e: E(n.expression) };
    case SK.VoidExpression: return { k: 'void', e: E(n.expression) };
    case SK.DeleteExpression: return { k: 'delete', e: E(n.expression) };
    default: return { k: '?', t: SK[n.kind] };
  }
}
function apat(n) {
  if (ts.isObjectLiteralExpression(n)) return { k: 'pobj', els: n.properties.map(p => ts.isShorthandPropertyAssignment(p) ? { name: { s: p.name.text }, pat: { k: 'pexp', e: E(p.name) }, def: null } : { name: pname(p.name), pat: apat(p.initializer), def: null }) };
  if (ts.isArrayLiteralExpression(n)) return { k: 'parr', els: n.elements.map(e => ts.isOmittedExpression(e) ? null : { pat: apat(e), def: null }) };
  return { k: 'pexp', e: E(n) };
}
function impfile(n) {
  const a = n.arguments[0]; if (!ts.isStringLiteral(a)) return null;
  const s = ck.getSymbolAtLocation(a);
  return s && s.valueDeclaration && ts.isSourceFile(s.valueDeclaration) ? rel(s.valueDeclaration.fileName) : null;
}
function args(as) { return as.map(a => ts.isSpreadElement(a) ? { spread: E(a.expression) } : E(a)); }
function B(n) { return { k: 'block', ss: n.statements.map(S), sp: ln(n) }; }
function decls(l) { return { k: 'var', kind: l.flags & ts.NodeFlags.Const ? 'const' : l.flags & ts.NodeFlags.Let ? 'let' : 'var', ds: l.declarations.map(d => ({ pat: pat(d.name), init: d.initializer ? E(d.initializer) : null, ty: ty(d.name) })) }; }
function S(n) { const r = S0(n); r.sp = ln(n); return r; }
function S0(n) {
  switch (n.kind) {
    case SK.Block: return B(n);
    case SK.EmptyStatement: return { k: 'empty' };
    case SK.VariableStatement: return decls(n.declarationList);
    case SK.ExpressionStatement: return { k: 'expr', e: E(n.expression) };
    case SK.IfStatement: return { k: 'if', c: E(n.expression), a: S(n.thenStatement), b: n.elseStatement ? S(n.elseStatement) : null };
    case SK.ForStatement: return { k: 'for', init: n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? decls(n.initializer) : { k: 'expr', e: E(n.initializer) }) : null, c: n.condition ? E(n.condition) : null, u: n.incrementor ? E(n.incrementor) : null, body: S(n.statement) };
    case SK.ForOfStatement: case SK.ForInStatement: return { k: n.kind === SK.ForOfStatement ? 'forof' : 'forin', pat: ts.isVariableDeclarationList(n.initializer) ? pat(n.initializer.declarations[0].name) : apat(n.initializer), e: E(n.expression), body: S(n.statement), aw: !!n.awaitModifier };
    case SK.WhileStatement: return { k: 'while', c: E(n.expression), body: S(n.statement) };
    case SK.DoStatement: return { k: 'do', c: E(n.expression), body: S(n.statement) };
    case SK.ReturnStatement: return { k: 'return', e: n.expression ? E(n.expression) : null };
    case SK.ThrowStatement: return { k: 'throw', e: E(n.expression) };
    case SK.TryStatement: return { k: 'try', body: B(n.tryBlock), param: n.catchClause && n.catchClause.variableDeclaration ? pat(n.catchClause.variableDeclaration.name) : null, h: n.catchClause ? B(n.catchClause.block) : null, fin: n.finallyBlock ? B(n.finallyBlock) : null };
    case SK.SwitchStatement: return { k: 'switch', e: E(n.expression), cs: n.caseBlock.clauses.map(c => ({ e: ts.isCaseClause(c) ? E(c.expression) : null, ss: c.statements.map(S) })) };
    case SK.BreakStatement: return { k: 'break', label: n.label ? n.label.text : null };
    case SK.ContinueStatement: return { k: 'continue', label: n.label ? n.label.text : null };
    case SK.LabeledStatement: return { k: 'label', label: n.label.text, body: S(n.statement) };
    case SK.FunctionDeclaration: return n.body ? { k: 'fndecl', f: fn(n) } : { k: 'empty' };
    case SK.ClassDeclaration: return { k: 'classdecl', c: cls(n) };
    case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: case SK.ImportDeclaration: case SK.ExportDeclaration: case SK.ModuleDeclaration: return { k: 'empty', t: SK[n.kind] };
    case SK.EnumDeclaration: return { k: 'enum', d: key(n), name: n.name.text, ms: n.members.map(m => ({ name: m.name.text, v: ck.getConstantValue(m) })) };
    case SK.ExportAssignment: return { k: 'expr', e: E(n.expression) };
    default: return { k: 's?', t: SK[n.kind] };
  }
}
const res = { files: {}, diags: [] };
for (const f of files) {
  const sf = prog.getSourceFile(f);
  const ex = {}; const ms = ck.getSymbolAtLocation(sf);
  if (ms) for (const s of ck.getExportsOfModule(ms)) { try { const r = symref(s, s.name); if (r.d || r.k === 'ext') ex[s.name] = r; } catch (e) {} }
  res.files[rel(f)] = { ss: sf.statements.map(S), exports: ex };
  for (const d of prog.getSyntacticDiagnostics(sf)) res.diags.push(rel(f) + ': ' + ts.flattenDiagnosticMessageText(d.messageText, '\n'));
}
fs.writeFileSync(out, JSON.stringify(res));
