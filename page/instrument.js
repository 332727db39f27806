// Compiles TypeScript of /repo/src (from the current sources, on every run) to JavaScript in which every operation that may
// meet a symbolic value goes through the engine ($), and loads it. plain = true compiles the same files without that.
"use strict";
const fs = require("fs"), path = require("path");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const f = ts.factory, K = ts.SyntaxKind;
const BIN = new Map([[K.PlusToken, "+"], [K.MinusToken, "-"], [K.AsteriskToken, "*"], [K.SlashToken, "/"], [K.PercentToken, "%"], [K.AsteriskAsteriskToken, "**"],
  [K.LessThanToken, "<"], [K.LessThanEqualsToken, "<="], [K.GreaterThanToken, ">"], [K.GreaterThanEqualsToken, ">="],
  [K.EqualsEqualsToken, "=="], [K.EqualsEqualsEqualsToken, "==="], [K.ExclamationEqualsToken, "!="], [K.ExclamationEqualsEqualsToken, "!=="],
  [K.AmpersandToken, "&"], [K.BarToken, "|"], [K.CaretToken, "^"], [K.LessThanLessThanToken, "<<"], [K.GreaterThanGreaterThanToken, ">>"], [K.GreaterThanGreaterThanGreaterThanToken, ">>>"]]);
const ASSIGN = new Map([[K.PlusEqualsToken, "+"], [K.MinusEqualsToken, "-"], [K.AsteriskEqualsToken, "*"], [K.SlashEqualsToken, "/"], [K.PercentEqualsToken, "%"], [K.AsteriskAsteriskEqualsToken, "**"],
  [K.AmpersandEqualsToken, "&"], [K.BarEqualsToken, "|"]]);
const GLOBALS = new Set(["window", "document", "globalThis", "process", "Intl", "ResizeObserver"]);

function call(name, ...args) { return f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier("$"), name), undefined, args); }
function strip(e) { while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e)) e = e.expression; return e; }
/** Whether it waits or yields, itself. */
function waits(n) { return ts.isAwaitExpression(n) || ts.isYieldExpression(n) || (!ts.isFunctionLike(n) && !!ts.forEachChild(n, (k) => waits(k) || undefined)); }
/** Whether evaluating it does nothing. */
function still(e) {
  e = strip(e);
  if (ts.isIdentifier(e) || ts.isNumericLiteral(e) || e.kind === K.ThisKeyword) return true;
  if (ts.isPropertyAccessExpression(e)) return still(e.expression);
  if (ts.isBinaryExpression(e)) return [K.PlusToken, K.MinusToken].includes(e.operatorToken.kind) && still(e.left) && still(e.right);
  if (ts.isPrefixUnaryExpression(e)) return e.operator === K.MinusToken && still(e.operand);
  return ts.isConditionalExpression(e) && still(e.whenTrue) && still(e.whenFalse) && ts.isBinaryExpression(e.condition) &&
    [K.LessThanToken, K.LessThanEqualsToken, K.GreaterThanToken, K.GreaterThanEqualsToken].includes(e.condition.operatorToken.kind) && still(e.condition.left) && still(e.condition.right);
}
/** The assignment to a variable that is all the statement does. */
function onlySets(s) {
  while (ts.isBlock(s) && s.statements.length === 1) s = s.statements[0];
  const e = ts.isExpressionStatement(s) ? s.expression : null;
  return e && ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken && ts.isIdentifier(e.left) && still(e.right) ? e : null;
}
function nameOf(n) {
  const own = n.name ? n.name.getText() : "";
  let p = n.parent, more = [];
  if (!own && p && (ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p) || ts.isPropertyDeclaration(p))) more.push(p.name.getText());
  else more.push(own || (ts.isConstructorDeclaration(n) ? "constructor" : "=>"));
  for (; p; p = p.parent) {
    if ((ts.isClassDeclaration(p) || ts.isFunctionDeclaration(p) || ts.isMethodDeclaration(p)) && p.name) more.unshift(p.name.getText());
  }
  return more.join(".");
}
function transformer(file, plain) {
  const base = path.relative("/repo", file);
  return (ctx) => (sf) => {
    let depth = 0;
    const cond = (e) => call("t", ts.visitNode(e, visit));
    const later = (e) => f.createArrowFunction(undefined, undefined, [], undefined, undefined, f.createParenthesizedExpression(ts.visitNode(e, visit)));
    /** The object and the key of a place that is assigned to, if it has them. */
    function place(t) {
      t = strip(t);
      if (ts.isPropertyAccessExpression(t) && !ts.isPrivateIdentifier(t.name) && t.expression.kind !== K.SuperKeyword) return [ts.visitNode(t.expression, visit), f.createStringLiteral(t.name.text)];
      if (ts.isElementAccessExpression(t) && t.expression.kind !== K.SuperKeyword) return [ts.visitNode(t.expression, visit), call("key", ts.visitNode(t.argumentExpression, visit))];
      return null;
    }
    function visit(n) {
      if (ts.isMetaProperty(n)) return f.createPropertyAccessExpression(f.createIdentifier("$"), "meta");
      if (ts.isAwaitExpression(n) && depth === 0) return ts.visitNode(n.expression, visit);
      if (ts.isFunctionLike(n) && n.body) {
        depth++;
        const label = plain ? "" : base + ":" + nameOf(n);
        let r = ts.visitEachChild(n, visit, ctx);
        depth--;
        if (plain) return r;
        const mark = f.createExpressionStatement(call("fn", f.createStringLiteral(label)));
        if (ts.isBlock(r.body)) {
          let st = r.body.statements, at = 0;
          // super() has to stay first
          const body = f.updateBlock(r.body, ts.setTextRange(f.createNodeArray([...st.slice(0, at), mark, ...st.slice(at)]), st));
          if (ts.isArrowFunction(r)) return f.updateArrowFunction(r, r.modifiers, r.typeParameters, r.parameters, r.type, r.equalsGreaterThanToken, body);
          if (ts.isFunctionDeclaration(r)) return f.updateFunctionDeclaration(r, r.modifiers, r.asteriskToken, r.name, r.typeParameters, r.parameters, r.type, body);
          if (ts.isFunctionExpression(r)) return f.updateFunctionExpression(r, r.modifiers, r.asteriskToken, r.name, r.typeParameters, r.parameters, r.type, body);
          if (ts.isMethodDeclaration(r)) return f.updateMethodDeclaration(r, r.modifiers, r.asteriskToken, r.name, r.questionToken, r.typeParameters, r.parameters, r.type, body);
          if (ts.isGetAccessor(r)) return f.updateGetAccessorDeclaration(r, r.modifiers, r.name, r.parameters, r.type, body);
          if (ts.isSetAccessor(r)) return f.updateSetAccessorDeclaration(r, r.modifiers, r.name, r.parameters, body);
          if (ts.isConstructorDeclaration(r)) return f.updateConstructorDeclaration(r, r.modifiers, r.parameters, body);
        } else if (ts.isArrowFunction(r)) {
          return f.updateArrowFunction(r, r.modifiers, r.typeParameters, r.parameters, r.type, r.equalsGreaterThanToken,
            f.createParenthesizedExpression(f.createBinaryExpression(call("fn", f.createStringLiteral(label)), K.CommaToken, r.body)));
        }
        return r;
      }
      if (plain) return ts.visitEachChild(n, visit, ctx);
      if (ts.isTypeNode(n)) return n;
      if (ts.isBinaryExpression(n)) {
        const op = n.operatorToken.kind;
        if (BIN.has(op)) return call("b", f.createStringLiteral(BIN.get(op)), ts.visitNode(n.left, visit), ts.visitNode(n.right, visit));
        if (op === K.InKeyword && !ts.isPrivateIdentifier(n.left)) return f.updateBinaryExpression(n, call("key", ts.visitNode(n.left, visit)), n.operatorToken, ts.visitNode(n.right, visit));
        if ((op === K.AmpersandAmpersandToken || op === K.BarBarToken) && waits(n.right)) {
          const right = f.createParenthesizedExpression(f.createBinaryExpression(call("pop"), K.CommaToken, ts.visitNode(n.right, visit))), [yes, no] = op === K.BarBarToken ? [call("pop"), right] : [right, call("pop")];
          return f.createParenthesizedExpression(f.createConditionalExpression(call("push", ts.visitNode(n.left, visit)), undefined, yes, undefined, no));
        }
        if (op === K.AmpersandAmpersandEqualsToken || op === K.BarBarEqualsToken) {
          const t = ts.visitNode(n.left, visit);
          return f.createParenthesizedExpression(f.createBinaryExpression(t, K.EqualsToken, call(op === K.BarBarEqualsToken ? "or" : "and", t,
            f.createArrowFunction(undefined, undefined, [], undefined, undefined, f.createParenthesizedExpression(ts.visitNode(n.right, visit))))));
        }
        if (op === K.AmpersandAmpersandToken || op === K.BarBarToken)
          return call(op === K.BarBarToken ? "or" : "and", ts.visitNode(n.left, visit),
            f.createArrowFunction(undefined, undefined, [], undefined, undefined, f.createParenthesizedExpression(ts.visitNode(n.right, visit))));
        if (ASSIGN.has(op) && place(n.left) && !waits(n.right))
          return call("upd", ...place(n.left), f.createStringLiteral(ASSIGN.get(op)), f.createArrowFunction(undefined, undefined, [], undefined, undefined, f.createParenthesizedExpression(ts.visitNode(n.right, visit))));
        if (ASSIGN.has(op)) {
          const t = ts.visitNode(n.left, visit);
          return f.createBinaryExpression(t, K.EqualsToken, call("b", f.createStringLiteral(ASSIGN.get(op)), t, ts.visitNode(n.right, visit)));
        }
      }
      if (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) {
        const op = n.operator;
        if ((op === K.PlusPlusToken || op === K.MinusMinusToken) && place(n.operand)) {
          const sign = f.createStringLiteral(op === K.PlusPlusToken ? "+" : "-");
          return ts.isPrefixUnaryExpression(n) ? call("upd", ...place(n.operand), sign, f.createArrowFunction(undefined, undefined, [], undefined, undefined, f.createNumericLiteral(1))) : call("post", ...place(n.operand), sign);
        }
        if (op === K.PlusPlusToken || op === K.MinusMinusToken) {
          const t = ts.visitNode(n.operand, visit), one = f.createNumericLiteral(1);
          const [d, u] = op === K.PlusPlusToken ? ["+", "-"] : ["-", "+"];
          const set = f.createParenthesizedExpression(f.createBinaryExpression(t, K.EqualsToken, call("b", f.createStringLiteral(d), t, one)));
          return ts.isPrefixUnaryExpression(n) || ts.isExpressionStatement(n.parent) || (ts.isForStatement(n.parent) && n.parent.incrementor === n) ? set : call("b", f.createStringLiteral(u), set, one);
        }
        if (op === K.ExclamationToken) return call("not", ts.visitNode(n.operand, visit));
        if (op === K.MinusToken && !ts.isNumericLiteral(n.operand)) return call("neg", ts.visitNode(n.operand, visit));
        if (op === K.PlusToken) return call("num", ts.visitNode(n.operand, visit));
      }
      if (ts.isConditionalExpression(n) && still(n.whenTrue) && still(n.whenFalse)) return call("sel", ts.visitNode(n.condition, visit), later(n.whenTrue), later(n.whenFalse));
      if (ts.isIfStatement(n) && !n.elseStatement && onlySets(n.thenStatement)) {
        const set = onlySets(n.thenStatement);
        return f.createExpressionStatement(f.createBinaryExpression(set.left, K.EqualsToken, call("sel", ts.visitNode(n.expression, visit), later(set.right), later(set.left))));
      }
      if (ts.isConditionalExpression(n)) return f.updateConditionalExpression(n, cond(n.condition), n.questionToken, ts.visitNode(n.whenTrue, visit), n.colonToken, ts.visitNode(n.whenFalse, visit));
      if (ts.isIfStatement(n)) return f.updateIfStatement(n, cond(n.expression), ts.visitNode(n.thenStatement, visit), ts.visitNode(n.elseStatement, visit));
      if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, cond(n.expression), ts.visitNode(n.statement, visit));
      if (ts.isDoStatement(n)) return f.updateDoStatement(n, ts.visitNode(n.statement, visit), cond(n.expression));
      if (ts.isForStatement(n)) return f.updateForStatement(n, ts.visitNode(n.initializer, visit), n.condition && cond(n.condition), ts.visitNode(n.incrementor, visit), ts.visitNode(n.statement, visit));
      if (ts.isElementAccessExpression(n) && !ts.isNumericLiteral(n.argumentExpression) && !ts.isStringLiteral(n.argumentExpression)) {
        const e = ts.visitNode(n.expression, visit), a = call("key", ts.visitNode(n.argumentExpression, visit));
        return n.questionDotToken ? f.updateElementAccessChain(n, e, n.questionDotToken, a) : f.updateElementAccessExpression(n, e, a);
      }
      if (ts.isComputedPropertyName(n)) return f.updateComputedPropertyName(n, call("key", ts.visitNode(n.expression, visit)));
      if (ts.isTypeOfExpression(n) && !(ts.isIdentifier(n.expression) && GLOBALS.has(n.expression.text))) return call("typeof", ts.visitNode(n.expression, visit));
      if (ts.isSwitchStatement(n)) return f.updateSwitchStatement(n, call("key", ts.visitNode(n.expression, visit)), ts.visitNode(n.caseBlock, visit));
      if (ts.isCaseClause(n)) return f.updateCaseClause(n, call("key", ts.visitNode(n.expression, visit)), ts.visitNodes(n.statements, visit));
      if (ts.isTaggedTemplateExpression(n) && ts.isTemplateExpression(n.template))
        return f.updateTaggedTemplateExpression(n, ts.visitNode(n.tag, visit), undefined, f.updateTemplateExpression(n.template, n.template.head, n.template.templateSpans.map((s) => f.updateTemplateSpan(s, ts.visitNode(s.expression, visit), s.literal))));
      if (ts.isTemplateExpression(n)) {
        const parts = [f.createStringLiteral(n.head.text)];
        for (const s of n.templateSpans) { parts.push(ts.visitNode(s.expression, visit)); parts.push(f.createStringLiteral(s.literal.text)); }
        return call("str", ...parts);
      }
      return ts.visitEachChild(n, visit, ctx);
    }
    return ts.visitNode(sf, visit);
  };
}
/** Loads modules; $ is the engine (or its plain counterpart), globals what the browser would provide. */
function loader($, globals, plain) {
  const cache = new Map(), files = [];
  function resolve(from, spec) {
    const p = path.resolve(path.dirname(from), spec);
    for (const c of [p, p + ".ts", p + ".js", path.join(p, "index.ts")]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
    throw new Error("cannot find " + spec + " from " + from);
  }
  function load(file) {
    if (cache.has(file)) return cache.get(file).exports;
    const m = { exports: {} };
    cache.set(file, m);
    const out = ts.transpileModule(fs.readFileSync(file, "utf8"), {
      fileName: file, reportDiagnostics: true, transformers: { before: [transformer(file, plain)] },
      compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true, isolatedModules: true },
    });
    const bad = (out.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
    if (bad.length) throw new Error(file + ": " + ts.flattenDiagnosticMessageText(bad[0].messageText, "\n"));
    files.push(file);
    const names = Object.keys(globals);
    const fn = new Function("exports", "require", "module", "$", ...names, out.outputText);
    fn(m.exports, (spec) => {
      if (/(^|\/)aftermath-core\/pkg$/.test(spec)) return globals.$pkg;
      if (/\.css(\?inline)?$/.test(spec)) return { __esModule: true, default: "" };
      return load(resolve(file, spec));
    }, m, $, ...names.map((n) => globals[n]));
    return m.exports;
  }
  return { load, files };
}
module.exports = { loader };
