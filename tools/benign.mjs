// usage: [JOBS=6] [VERIF_SCALE=0.2] node tools/benign.mjs [mode,...|all] [check,...]
// Applies meaning-preserving rewrites to every source file (in memory, at bundling time) and runs the checks:
// each must stay quiet. Development aid; no check uses it.
import fs from "node:fs"; import path from "node:path"; import { fork } from "node:child_process"; import { createRequire } from "node:module";
const ts = createRequire("/opt/veriftools/node/")("typescript");
const VERIF = process.env.VERIF ?? "/verif";
const { buildCheck, REPO } = await import(VERIF + "/harness/build.mjs");
const f = ts.factory;
let uid = 0; const id = (p) => f.createIdentifier(`__${p}${uid++}`);
const has = (n, pred) => { let r = false; const v = (x) => { if (r) return; if (pred(x)) { r = true; return; } ts.forEachChild(x, v); }; v(n); return r; };
const hasOwn = (n, pred) => { let r = false; const v = (x) => { if (r) return; if (pred(x)) { r = true; return; } if (ts.isFunctionLike(x) && !ts.isArrowFunction(x)) return; ts.forEachChild(x, v); }; ts.forEachChild(n, v); return r; };
const suspends = (n) => has(n, (x) => ts.isAwaitExpression(x) || ts.isYieldExpression(x));
const usesArgs = (n) => hasOwn(n, (x) => ts.isIdentifier(x) && x.text === "arguments");
const isAsync = (fn) => !!fn.modifiers?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword);
const arrow = (params, body) => f.createParenthesizedExpression(f.createArrowFunction(undefined, undefined, params.map((p) => f.createParameterDeclaration(undefined, undefined, p)), undefined, undefined, body));
const call = (fn, ...a) => f.createCallExpression(fn, undefined, a);
const paren = (e) => f.createParenthesizedExpression(e);
const enclosing = (n) => { let p = n.parent; while (p && !ts.isFunctionLike(p)) p = p.parent; return p; };
const inTry = (n) => { let p = n.parent; while (p && !ts.isFunctionLike(p)) { if (ts.isTryStatement(p)) return true; p = p.parent; } return false; };
const simple = (e) => ts.isIdentifier(e) || ts.isStringLiteral(e) || ts.isNumericLiteral(e) || e.kind === ts.SyntaxKind.TrueKeyword || e.kind === ts.SyntaxKind.FalseKeyword || e.kind === ts.SyntaxKind.NullKeyword || (ts.isPropertyAccessExpression(e) && simple(e.expression)) || e.kind === ts.SyntaxKind.ThisKeyword;
const inType = (n) => { let p = n; while (p) { if (ts.isTypeNode(p)) return true; p = p.parent; } return false; };
const MODES = {
  retawait: (n, o) => ts.isReturnStatement(o) && o.expression && enclosing(o) && isAsync(enclosing(o)) && !enclosing(o).asteriskToken && !inTry(o) ? f.createReturnStatement(f.createAwaitExpression(paren(n.expression))) : n,
  ticks: (n, o) => ts.isAwaitExpression(o) ? f.createAwaitExpression(paren(f.createAwaitExpression(n.expression))) : n,
  cond: (n, o) => { if (!ts.isIfStatement(o)) return n; const c = id("c"); return f.createBlock([f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(c, undefined, undefined, f.createLogicalNot(f.createLogicalNot(paren(n.expression))))], ts.NodeFlags.Const)), f.updateIfStatement(n, c, n.thenStatement, n.elseStatement)], true); },
  invert: (n, o) => ts.isIfStatement(o) && n.elseStatement ? f.updateIfStatement(n, f.createLogicalNot(paren(n.expression)), ts.isBlock(n.elseStatement) ? n.elseStatement : f.createBlock([n.elseStatement]), ts.isBlock(n.thenStatement) ? n.thenStatement : f.createBlock([n.thenStatement])) : n,
  tern: (n, o) => ts.isConditionalExpression(o) && !suspends(o) && !usesArgs(o) ? call(arrow([], f.createBlock([f.createIfStatement(n.condition, f.createReturnStatement(n.whenTrue)), f.createReturnStatement(n.whenFalse)], true))) : n,
  nullish: (n, o) => { if (!ts.isBinaryExpression(o) || o.operatorToken.kind !== ts.SyntaxKind.QuestionQuestionToken || suspends(o.right) || usesArgs(o)) return n; const t = id("t"); return call(arrow([t], f.createConditionalExpression(f.createLogicalAnd(f.createStrictInequality(t, f.createNull()), f.createStrictInequality(t, f.createVoidZero())), undefined, t, undefined, paren(n.right))), n.left); },
  and: (n, o) => { if (!ts.isBinaryExpression(o) || o.operatorToken.kind !== ts.SyntaxKind.AmpersandAmpersandToken || suspends(o.right) || usesArgs(o)) return n; const t = id("t"); return call(arrow([t], f.createConditionalExpression(t, undefined, paren(n.right), undefined, t)), n.left); },
  assign: (n, o) => ts.isObjectLiteralExpression(o) && o.properties.some(ts.isSpreadAssignment) && o.properties.every((p) => ts.isSpreadAssignment(p) || ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) && !(ts.isBinaryExpression(o.parent) && o.parent.left === o) ? call(f.createPropertyAccessExpression(f.createIdentifier("Object"), "assign"), f.createObjectLiteralExpression(), ...n.properties.map((p) => ts.isSpreadAssignment(p) ? p.expression : f.createObjectLiteralExpression([p]))) : n,
  arrowbody: (n, o) => ts.isArrowFunction(o) && !ts.isBlock(o.body) ? f.updateArrowFunction(n, n.modifiers, n.typeParameters, n.parameters, n.type, n.equalsGreaterThanToken, f.createBlock([f.createReturnStatement(n.body)], true)) : n,
  forof: (n, o) => ts.isForOfStatement(o) && !o.awaitModifier ? f.updateForOfStatement(n, n.awaitModifier, n.initializer, f.createArrayLiteralExpression([f.createSpreadElement(paren(n.expression))]), n.statement) : n,
  concat: (n, o) => ts.isTemplateExpression(o) && !ts.isTaggedTemplateExpression(o.parent) && !inType(o) ? call(f.createPropertyAccessExpression(f.createStringLiteral(n.head.text), "concat"), ...n.templateSpans.flatMap((s) => [s.expression, f.createStringLiteral(s.literal.text)])) : n,
  keyorder: (n, o) => { if (!ts.isObjectLiteralExpression(o)) return n; const out = []; let run = []; const flush = () => { out.push(...run.reverse()); run = []; }; o.properties.forEach((p, i) => { const ok = (ts.isPropertyAssignment(p) && !ts.isComputedPropertyName(p.name) && simple(p.initializer)) || ts.isShorthandPropertyAssignment(p); if (ok) run.push(n.properties[i]); else { flush(); out.push(n.properties[i]); } }); flush(); return f.updateObjectLiteralExpression(n, out); },
  inner: (n, o) => { if (!(ts.isMethodDeclaration(o) || ts.isFunctionDeclaration(o)) || !o.body || o.asteriskToken || usesArgs(o.body) || has(o.body, (x) => x.kind === ts.SyntaxKind.SuperKeyword)) return n; const as = isAsync(o); const fn = f.createParenthesizedExpression(f.createArrowFunction(as ? [f.createModifier(ts.SyntaxKind.AsyncKeyword)] : undefined, undefined, [], undefined, undefined, n.body)); const body = f.createBlock([f.createReturnStatement(call(fn))], true); return ts.isMethodDeclaration(o) ? f.updateMethodDeclaration(n, n.modifiers, n.asteriskToken, n.name, n.questionToken, n.typeParameters, n.parameters, n.type, body) : f.updateFunctionDeclaration(n, n.modifiers, n.asteriskToken, n.name, n.typeParameters, n.parameters, n.type, body); },
  // not a pure rewrite: what is logged, and at which level, is not part of any property but C34
  nologs: (n, o) => ts.isExpressionStatement(o) && ts.isCallExpression(o.expression) && ts.isPropertyAccessExpression(o.expression.expression) && /^(debug|info|warn|error)$/.test(o.expression.expression.name.text) && /ogger/.test(o.expression.expression.expression.getText()) ? f.createEmptyStatement() : n,
  maploop: (n, o) => { // x.map(fn) on array literals/any array-like with Array.isArray guard
    if (!ts.isCallExpression(o) || !ts.isPropertyAccessExpression(o.expression) || o.expression.questionDotToken || o.expression.name.text !== "map" || o.arguments.length !== 1 || !ts.isArrowFunction(o.arguments[0]) || o.arguments[0].parameters.length !== 1 || suspends(o.expression)) return n;
    const a = id("a"), fn = id("f"), r = id("r"), x = id("x");
    return call(arrow([a, fn], f.createBlock([f.createIfStatement(f.createLogicalNot(call(f.createPropertyAccessExpression(f.createIdentifier("Array"), "isArray"), a)), f.createReturnStatement(call(f.createPropertyAccessExpression(a, "map"), fn))), f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(r, undefined, undefined, f.createArrayLiteralExpression())], ts.NodeFlags.Const)), f.createForOfStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(x)], ts.NodeFlags.Const), a, f.createExpressionStatement(call(f.createPropertyAccessExpression(r, "push"), call(fn, x)))), f.createReturnStatement(r)], true)), n.expression.expression, n.arguments[0]); },
};
function rewrite(file, mode) {
  const text = fs.readFileSync(file, "utf8");
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
  const out = ts.transform(sf, [(ctx) => (root) => { const visit = (o) => { if (ts.isTypeNode(o) || ts.isDecorator(o)) return o; const n = ts.visitEachChild(o, visit, ctx); return MODES[mode](n, o); }; return ts.visitNode(root, visit); }]);
  return ts.createPrinter().printFile(out.transformed[0]);
}
const modes = !process.argv[2] || process.argv[2] === "all" ? Object.keys(MODES) : process.argv[2].split(",");
const checks = process.argv[3] ? process.argv[3].split(",") : Array.from({ length: 38 }, (_, i) => "C" + String(i + 1).padStart(2, "0"));
const skip = (process.env.SKIPFILES ?? "").split(",").filter(Boolean);
const onlyf = (process.env.ONLYFILES ?? "").split(",").filter(Boolean);
const jobs = modes.flatMap((m) => checks.map((c) => [m, c]));
let i = 0, bad = 0;
await Promise.all(Array.from({ length: Number(process.env.JOBS ?? 6) }, async (_, w) => {
  const root = `/tmp/benign/w${w}`; fs.mkdirSync(root + "/b", { recursive: true });
  fs.copyFileSync(VERIF + "/known-findings.json", root + "/known-findings.json");
  while (i < jobs.length) {
    const [mode, idc] = jobs[i++];
    const cache = new Map();
    const plugin = { name: "benign", setup(b) { b.onLoad({ filter: /\.ts$/ }, (x) => { if (!x.path.startsWith(REPO + "/packages/") || !x.path.includes("/src/")) return; const rel = x.path.slice(REPO.length + 10); if (skip.some((s) => rel.includes(s)) || (onlyf.length && !onlyf.some((s) => rel.includes(s)))) return; if (!cache.has(x.path)) cache.set(x.path, rewrite(x.path, mode)); return { contents: cache.get(x.path), loader: "ts" }; }); } };
    let bundle; try { bundle = await buildCheck(idc, root + "/b", [plugin]); } catch (e) { console.log("BUILD", mode, idc, String(e.message).slice(0, 400)); bad++; continue; }
    const r = await new Promise((ok) => {
      const c = fork(bundle, [], { env: { ...process.env, VERIF_CHECK_ID: idc, VERIF_ROOT: root, TZ: "UTC", VERIF_SEED: process.env.VERIF_SEED ?? "1", VERIF_TIER: "quick", ...(process.env.SHRINK ? {} : { VERIF_NOSHRINK: "1" }) }, execArgv: ["--max-old-space-size=3000", "--stack-size=2000", "--unhandled-rejections=strict"], stdio: ["ignore", "pipe", "pipe", "ipc"] });
      let out = ""; c.stdout.on("data", (d) => (out += d)); c.stderr.on("data", (d) => (out += d)); c.on("message", (x) => { if (x?.result?.violation) out += x.result.violation.sub + "\n" + x.result.violation.error.slice(0, 600) + "\n" + x.result.violation.counterexample.slice(0, 600); });
      const to = setTimeout(() => { c.kill("SIGKILL"); ok({ code: "timeout", out }); }, 300000);
      c.on("exit", (code) => { clearTimeout(to); ok({ code, out }); });
    });
    if (r.code !== 0) { bad++; console.log(`** ${mode} ${idc} ${r.code}\n${r.out.slice(0, 1500)}`); }
  }
}));
console.log(`${jobs.length} runs, ${bad} not quiet`);
process.exit(0);
