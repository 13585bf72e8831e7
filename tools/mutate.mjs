// Mutation testing of the checks: node mutate.mjs FILE... ; results to $OUT (jsonl). Not a registered check.
import { createRequire } from "node:module";
import { fork } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import os from "node:os";
const VT = "/opt/veriftools/node/node_modules";
const require = createRequire(VT + "/x.js");
const ts = require("typescript");
const { buildCheck, REPO } = await import((process.env.VERIF ??= "/verif") + "/harness/build.mjs");
const OUT = process.env.OUT ?? "/tmp/mut/out.jsonl";
const JOBS = Number(process.env.JOBS ?? 7);
const SAMPLE = Number(process.env.SAMPLE ?? 0);
const MAP = JSON.parse(fs.readFileSync(process.env.MAP ?? new URL("./mutate-map.json", import.meta.url).pathname, "utf8"));

function mutants(file) {
  const text = fs.readFileSync(file, "utf8");
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
  const out = [];
  const add = (node, rep, kind) => { const s = node.getStart(sf), e = node.getEnd(); const old = text.slice(s, e); if (old === rep) return; out.push({ s, e, rep, kind, line: sf.getLineAndCharacterOfPosition(s).line + 1, old: old.slice(0, 160) }); };
  const isLog = (t) => /^(await |void )?(this\.)?(logger|getGlobalLogger\(\)|console)\b/.test(t.trim());
  const K = ts.SyntaxKind;
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return;
    if (ts.isFunctionDeclaration(n) && !n.body) return;
    if (ts.isMethodDeclaration(n) && !n.body) return;
    const src = n.getText(sf);
    if (ts.isExpressionStatement(n)) {
      if (isLog(src)) return;
      if (!/^super\(/.test(src)) add(n, ";", "del-stmt");
    }
    if (ts.isIfStatement(n)) { add(n.expression, "true", "if-true"); add(n.expression, "false", "if-false"); }
    if (ts.isWhileStatement(n)) add(n.expression, "false", "while-false");
    if (ts.isConditionalExpression(n)) { add(n, `(${n.whenTrue.getText(sf)})`, "cond-true"); add(n, `(${n.whenFalse.getText(sf)})`, "cond-false"); }
    if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) { if (!ts.isCaseClause(n.parent)) add(n, ";", "del-jump"); }
    if (ts.isReturnStatement(n) && n.expression && !["undefined","null"].includes(n.expression.getText(sf))) add(n, "return undefined as any;", "ret-undef");
    if (ts.isAwaitExpression(n)) add(n, `(${n.expression.getText(sf)} as any)`, "no-await");
    if (ts.isBinaryExpression(n)) {
      const l = n.left.getText(sf), r = n.right.getText(sf);
      const b = (op, k) => add(n, `((${l}) ${op} (${r}))`, k);
      switch (n.operatorToken.kind) {
        case K.AmpersandAmpersandToken: add(n, `(${l})`, "and-left"); add(n, `(${r})`, "and-right"); break;
        case K.BarBarToken: add(n, `(${l})`, "or-left"); add(n, `(${r})`, "or-right"); break;
        case K.QuestionQuestionToken: add(n, `(${l})`, "nn-left"); add(n, `(${r})`, "nn-right"); b("||", "nn-or"); break;
        case K.EqualsEqualsEqualsToken: case K.EqualsEqualsToken: b("!==", "eq"); break;
        case K.ExclamationEqualsEqualsToken: case K.ExclamationEqualsToken: b("===", "neq"); if (r === "undefined") b("!=", "loose"); break;
        case K.LessThanToken: b("<=", "lt"); break;
        case K.LessThanEqualsToken: b("<", "le"); break;
        case K.GreaterThanToken: b(">=", "gt"); break;
        case K.GreaterThanEqualsToken: b(">", "ge"); break;
        case K.PlusToken: if (!/["'`]/.test(l + r)) b("-", "plus"); else { add(n, `(${l})`, "plus-left"); } break;
        case K.MinusToken: b("+", "minus"); break;
        case K.AsteriskToken: b("/", "mul"); break;
      }
    }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, `(${n.operand.getText(sf)})`, "not");
    if (ts.isNumericLiteral(n) && !ts.isEnumMember(n.parent)) { add(n, String(Number(src) + 1), "num+1"); }
    if (n.kind === K.TrueKeyword) add(n, "false", "true");
    if (n.kind === K.FalseKeyword) add(n, "true", "false");
    if ((ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) && src.length > 2 && !ts.isEnumMember(n.parent)) add(n, '("MUT" as any)', "str");
    if (ts.isRegularExpressionLiteral(n)) { if (/\/\w*g\w*$/.test(src)) add(n, src.replace(/g(\w*)$/, "$1"), "regex-g"); }
    if (ts.isObjectLiteralExpression(n)) for (const p of n.properties) { if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p) || ts.isSpreadAssignment(p)) add(p, ts.isSpreadAssignment(p) ? "...{}" : `["_x" + "y"]: 0 as any`, "del-prop"); }
    if (ts.isArrayLiteralExpression(n)) for (const p of n.elements) add(p, "...[]", "del-elem");
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken) add(n, `${n.expression.getText(sf)}!.${n.name.getText(sf)}`, "opt-chain");
    if (ts.isCallExpression(n)) {
      if (ts.isPropertyAccessExpression(n.expression) && ["filter", "map", "flat", "slice", "trim", "toLowerCase", "catch", "finally", "reverse", "sort"].includes(n.expression.name.text)) add(n, `(${n.expression.expression.getText(sf)} as any)`, "del-call-" + n.expression.name.text);
      if (n.arguments.length > 1 && !isLog(src)) add(n, `(${n.expression.getText(sf)} as any)(${n.arguments.slice(0, -1).map((a) => a.getText(sf)).join(", ")})`, "drop-arg");
      if (isLog(src)) return;
    }
    if (ts.isCatchClause(n)) { /* body visited */ }
    if (ts.isNewExpression(n) && /Error$/.test(n.expression.getText(sf))) return;
    ts.forEachChild(n, visit);
  };
  visit(sf);
  const seen = new Set();
  return out.filter((m) => { const k = m.s + ":" + m.e + ":" + m.rep; if (seen.has(k)) return false; seen.add(k); return true; }).map((m) => ({ ...m, file, mutated: text.slice(0, m.s) + m.rep + text.slice(m.e) }));
}
let rnd = 12345; const rand = () => ((rnd = (Math.imul(rnd, 1103515245) + 12345) & 0x7fffffff) / 0x7fffffff);
let all = [];
for (const f of process.argv.slice(2)) { let ms = mutants(path.resolve(f)); if (process.env.LINES) { const [a, b] = process.env.LINES.split("-").map(Number); ms = ms.filter((m) => m.line >= a && m.line <= b); } all.push(...ms); }
if (SAMPLE && all.length > SAMPLE) { for (let i = all.length - 1; i > 0; i--) { const j = Math.floor(rand() * (i + 1)); [all[i], all[j]] = [all[j], all[i]]; } all = all.slice(0, SAMPLE); }
if (process.env.COUNT) { console.log(all.length); process.exit(0); }
const done = new Set(fs.existsSync(OUT) ? fs.readFileSync(OUT, "utf8").split("\n").filter(Boolean).map((l) => { const o = JSON.parse(l); return o.file + o.s + ":" + o.e + o.rep; }) : []);
all = all.filter((m) => !done.has(m.file.replace(REPO + "/", "") + m.s + ":" + m.e + m.rep));
console.log(`${all.length} mutants`);
function checksFor(file) { const rel = file.replace(REPO + "/", ""); for (const [p, c] of MAP) if (new RegExp(p).test(rel)) return c; return []; }
async function runOne(m, w) {
  const root = `/tmp/mut/w${w}`; fs.mkdirSync(root, { recursive: true });
  fs.copyFileSync(process.env.VERIF + "/known-findings.json", root + "/known-findings.json");
  const plugin = { name: "mut", setup(b) { b.onLoad({ filter: new RegExp(m.file.replace(/[.*+?^${}()|[\]\\/]/g, "\\$&") + "$") }, () => ({ contents: m.mutated, loader: "ts" })); } };
  for (const id of checksFor(m.file)) {
    let bundle;
    try { bundle = await buildCheck(id, root + "/b", [plugin]); } catch (e) { return { res: "build-error", by: String(e.message).slice(0, 200) }; }
    const t0 = Date.now();
    const r = await new Promise((res) => {
      const env = { ...process.env, VERIF_CHECK_ID: id, VERIF_ROOT: root, TZ: "UTC", VERIF_SEED: "1", VERIF_TIER: "quick", VERIF_NOSHRINK: "1" };
      let out = "";
      const c = fork(bundle, [], { env, execArgv: ["--max-old-space-size=3000", "--stack-size=2000", "--unhandled-rejections=strict"], stdio: ["ignore", "pipe", "pipe", "ipc"] });
      c.stdout.on("data", (d) => (out = (out + d).slice(-4000))); c.stderr.on("data", () => {});
      const to = setTimeout(() => { c.kill("SIGKILL"); res({ code: "timeout" }); }, 150_000);
      c.on("exit", (code) => { clearTimeout(to); res({ code, out }); });
    });
    if (r.code !== 0) return { res: r.code === 1 ? "killed" : String(r.code), by: id, ms: Date.now() - t0 };
  }
  return { res: "SURVIVED", by: checksFor(m.file).join(",") };
}
let i = 0, surv = 0;
await Promise.all(Array.from({ length: JOBS }, async (_, w) => {
  while (i < all.length) {
    const m = all[i++];
    const r = await runOne(m, w);
    if (r.res === "SURVIVED") surv++;
    fs.appendFileSync(OUT, JSON.stringify({ file: m.file.replace(REPO + "/", ""), line: m.line, kind: m.kind, s: m.s, e: m.e, old: m.old, rep: m.rep, ...r }) + "\n");
    if (i % 50 === 0) console.log(i, "of", all.length, "survivors", surv);
  }
}));
console.log("done", all.length, "survived", surv);
process.exit(0);
