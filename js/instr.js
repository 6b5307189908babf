"use strict";
/* Rewrites a script so that every operator, branch and table lookup that may meet a symbolic value goes through the runtime `$`. */
const { execSync } = require("child_process");
let ts;
for (const d of ["/opt/veriftools/node/node_modules", ...(process.env.NODE_PATH || "").split(":")]) { try { ts = require(d + "/typescript"); break; } catch (e) {} }
if (!ts) ts = require("typescript");
const F = ts.factory, K = ts.SyntaxKind;
const ARITH = { [K.PlusToken]: "+", [K.MinusToken]: "-", [K.AsteriskToken]: "*", [K.SlashToken]: "/", [K.PercentToken]: "%", [K.AmpersandToken]: "&", [K.BarToken]: "|", [K.CaretToken]: "^", [K.LessThanLessThanToken]: "<<", [K.GreaterThanGreaterThanToken]: ">>",
  [K.EqualsEqualsToken]: "==", [K.EqualsEqualsEqualsToken]: "===", [K.ExclamationEqualsToken]: "!=", [K.ExclamationEqualsEqualsToken]: "!==", [K.LessThanToken]: "<", [K.LessThanEqualsToken]: "<=", [K.GreaterThanToken]: ">", [K.GreaterThanEqualsToken]: ">=" };
const COMPOUND = { [K.PlusEqualsToken]: "+", [K.MinusEqualsToken]: "-", [K.AsteriskEqualsToken]: "*", [K.BarEqualsToken]: "|", [K.AmpersandEqualsToken]: "&" };
function transform(text, name) {
  const counts = { branches: 0, operators: 0, functions: [] };
  const $ = (m, ...a) => F.createCallExpression(F.createPropertyAccessExpression(F.createIdentifier("$"), m), undefined, a);
  const str = (s) => F.createStringLiteral(s);
  let uid = 0;
  const tr = (ctx) => {
    const test = (n) => { counts.branches++; return $("t", v(n)); };
    const plainCallee = (n) => n.kind === K.SuperKeyword || n.kind === K.ImportKeyword;
    // a?.b, a?.[k], a?.f(x): the rest of the chain is the other branch
    const prop = (b, e) => ts.isPropertyAccessExpression(e) ? (ts.isIdentifier(e.name) ? F.createPropertyAccessExpression(b, e.name) : F.createPropertyAccessExpression(b, e.name)) : $("idx", b, v(e.argumentExpression));
    const opt = (q, b, k) => q ? (counts.branches++, F.createParenthesizedExpression(F.createConditionalExpression($("n", b), undefined, F.createVoidZero(), undefined, k($("r"))))) : k(b);
    const chain = (n, k) => {
      if (!ts.isOptionalChain(n)) return k(v(n));
      if (ts.isCallExpression(n)) {
        const e = n.expression, args = () => F.createArrayLiteralExpression(n.arguments.map(v));
        if (!n.questionDotToken && (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e))) return chain(e.expression, (b) => opt(e.questionDotToken, b, (x) => k($("call", x, ts.isPropertyAccessExpression(e) ? str(e.name.text) : v(e.argumentExpression), args()))));
        if (n.questionDotToken && ts.isPropertyAccessExpression(e)) return chain(e.expression, (b) => opt(e.questionDotToken, b, (x) => k($("callopt", x, str(e.name.text), F.createArrowFunction(undefined, undefined, [], undefined, undefined, args())))));
        return chain(e, (b) => opt(n.questionDotToken, b, (x) => k(F.createCallExpression(x, undefined, n.arguments.map(v)))));
      }
      if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) return chain(n.expression, (b) => opt(n.questionDotToken, b, (x) => k(prop(x, n))));
      return k(v(n.expression));
    };
    function v(n) {
      if (!n) return n;
      if (ts.isOptionalChain(n) && (ts.isCallExpression(n) || ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) && !(n.parent && ts.isDeleteExpression(n.parent))) return chain(n, (x) => x);
      if (ts.isFunctionLike(n) && n.body) counts.functions.push(n.name && n.name.getText ? n.name.text : (n.parent && n.parent.name && n.parent.name.text) || "{closure}");
      if (ts.isIfStatement(n)) return F.updateIfStatement(n, test(n.expression), v(n.thenStatement), v(n.elseStatement));
      if (ts.isWhileStatement(n)) return F.updateWhileStatement(n, test(n.expression), v(n.statement));
      if (ts.isDoStatement(n)) return F.updateDoStatement(n, v(n.statement), test(n.expression));
      if (ts.isForStatement(n)) return F.updateForStatement(n, v(n.initializer), n.condition && test(n.condition), v(n.incrementor), v(n.statement));
      if (ts.isConditionalExpression(n)) return F.updateConditionalExpression(n, test(n.condition), n.questionToken, v(n.whenTrue), n.colonToken, v(n.whenFalse));
      if (ts.isSwitchStatement(n)) {
        const id = "$s" + uid++;
        const clauses = n.caseBlock.clauses.map((c) => ts.isCaseClause(c)
          ? F.updateCaseClause(c, (counts.branches++, $("t", $("bin", str("==="), F.createIdentifier(id), v(c.expression)))), c.statements.map(v))
          : F.updateDefaultClause(c, c.statements.map(v)));
        return F.createBlock([
          F.createVariableStatement(undefined, F.createVariableDeclarationList([F.createVariableDeclaration(id, undefined, undefined, v(n.expression))], ts.NodeFlags.Const)),
          F.createSwitchStatement(F.createTrue(), F.createCaseBlock(clauses))], true);
      }
      if (ts.isBinaryExpression(n)) {
        const op = n.operatorToken.kind;
        if (ARITH[op]) { counts.operators++; return $("bin", str(ARITH[op]), v(n.left), v(n.right)); }
        if (op === K.AmpersandAmpersandToken) return F.createParenthesizedExpression(F.createConditionalExpression($("l", v(n.left)), undefined, v(n.right), undefined, $("r")));
        if (op === K.BarBarToken) return F.createParenthesizedExpression(F.createConditionalExpression($("l", v(n.left)), undefined, $("r"), undefined, v(n.right)));
        if (op === K.QuestionQuestionToken) return F.createParenthesizedExpression(F.createConditionalExpression($("n", v(n.left)), undefined, v(n.right), undefined, $("r")));
        if (op === K.InKeyword) return $("has", v(n.left), v(n.right));
        if (COMPOUND[op]) {
          if (ts.isIdentifier(n.left)) return F.createParenthesizedExpression(F.createAssignment(n.left, $("bin", str(COMPOUND[op]), n.left, v(n.right))));
          if (ts.isPropertyAccessExpression(n.left)) return $("asg", v(n.left.expression), str(n.left.name.text), str(COMPOUND[op]), v(n.right));
        }
        if (op === K.BarBarEqualsToken && ts.isIdentifier(n.left)) return F.createParenthesizedExpression(F.createAssignment(n.left, F.createConditionalExpression($("l", n.left), undefined, $("r"), undefined, v(n.right))));
        if (op === K.QuestionQuestionEqualsToken && ts.isIdentifier(n.left)) return F.createParenthesizedExpression(F.createAssignment(n.left, F.createConditionalExpression($("n", n.left), undefined, v(n.right), undefined, $("r"))));
        if (op === K.EqualsToken && ts.isElementAccessExpression(n.left)) return F.createAssignment(F.createElementAccessExpression(v(n.left.expression), $("key", v(n.left.argumentExpression))), v(n.right));
      }
      if (ts.isPrefixUnaryExpression(n)) {
        if (n.operator === K.ExclamationToken) { counts.operators++; return $("not", v(n.operand)); }
        if (n.operator === K.MinusToken) return $("bin", str("-"), F.createNumericLiteral(0), v(n.operand));
        if (n.operator === K.PlusToken) return $("num", v(n.operand));
      }
      if (ts.isTypeOfExpression(n) && !ts.isIdentifier(n.expression)) return $("typeof", v(n.expression));
      if (ts.isTypeOfExpression(n)) return F.createConditionalExpression(F.createBinaryExpression(F.createTypeOfExpression(n.expression), K.EqualsEqualsEqualsToken, str("undefined")), undefined, str("undefined"), undefined, $("typeof", n.expression));
      if (ts.isTemplateExpression(n)) return $("tpl", F.createArrayLiteralExpression([n.head.text, ...n.templateSpans.map((s) => s.literal.text)].map(str)), F.createArrayLiteralExpression(n.templateSpans.map((s) => v(s.expression))));
      if (ts.isCallExpression(n) && !n.questionDotToken && !plainCallee(n.expression)) {
        if (ts.isPropertyAccessExpression(n.expression) && !n.expression.questionDotToken && n.expression.expression.kind !== K.SuperKeyword && !(n.flags & ts.NodeFlags.OptionalChain))
          return $("call", v(n.expression.expression), str(n.expression.name.text), F.createArrayLiteralExpression(n.arguments.map(v)));
        if (ts.isElementAccessExpression(n.expression) && !n.expression.questionDotToken && !(n.flags & ts.NodeFlags.OptionalChain))
          return $("call", v(n.expression.expression), v(n.expression.argumentExpression), F.createArrayLiteralExpression(n.arguments.map(v)));
      }
      if (ts.isElementAccessExpression(n) && !n.questionDotToken && !(n.flags & ts.NodeFlags.OptionalChain)) {
        const p = n.parent;
        const target = p && ((ts.isPrefixUnaryExpression(p) || ts.isPostfixUnaryExpression(p)) && (p.operator === K.PlusPlusToken || p.operator === K.MinusMinusToken) || ts.isDeleteExpression(p) || ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind >= K.FirstAssignment && p.operatorToken.kind <= K.LastAssignment);
        if (!target) return $("idx", v(n.expression), v(n.argumentExpression));
      }
      if (ts.isComputedPropertyName(n)) return F.updateComputedPropertyName(n, $("key", v(n.expression)));
      return ts.visitEachChild(n, v, ctx);
    }
    return (sf) => ts.visitNode(sf, v);
  };
  const sf = ts.createSourceFile(name, text.replace(/^#![^\n]*/, ""), ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
  const r = ts.transform(sf, [tr]);
  return { code: ts.createPrinter().printFile(r.transformed[0]), counts };
}
module.exports = { transform };
