// Writes harness/data/endpoints.json: the table of documented API endpoints (method, path, path arguments, query parameters, body),
// read once from the generated clients at the pinned commit. The checks use the committed table as their reference, not the code under test.
import { createRequire } from "node:module";
import fs from "node:fs";
const require = createRequire("/opt/veriftools/node/node_modules/x.js");
const { Project, SyntaxKind } = require("ts-morph");
const REPO = process.argv[2] || "/repo";
const root = `${REPO}/packages/core/src/api`;
const project = new Project({ skipAddingFilesFromTsConfig: true, compilerOptions: { strict: true, target: 99, module: 99, moduleResolution: 100 } });
project.addSourceFilesAtPaths(`${root}/**/*.ts`);
const out = [];
for (const f of project.getSourceFiles()) {
  const m = f.getFilePath().match(/api\/api\/resources\/(.*)\/client\/Client\.ts$/);
  if (!m) continue;
  const res = m[1].split("/").filter((x) => x !== "resources");
  for (const c of f.getClasses()) for (const meth of c.getMethods()) {
    const name = meth.getName();
    if (!name.startsWith("__")) continue;
    const call = meth.getDescendantsOfKind(SyntaxKind.CallExpression).find((x) => x.getExpression().getText() === "core.fetcher");
    if (!call) continue;
    const o = call.getArguments()[0];
    const prop = (n) => o.getProperty(n)?.getInitializer?.();
    const url = prop("url").getArguments()[1];
    let path = url.getText().slice(1, -1).replace(/\$\{encodeURIComponent\((\w+)\)\}/g, "{$1}");
    const params = meth.getParameters().map((p) => ({ name: p.getName(), type: p.getTypeNode()?.getText(), optional: p.isOptional() || p.hasInitializer() })).filter((p) => p.name !== "requestOptions");
    const ptype = (p) => meth.getParameter(p)?.getType().getText();
    const bind = {}; // variable -> key of the request object
    for (const b of meth.getDescendantsOfKind(SyntaxKind.ObjectBindingPattern)) for (const e of b.getElements()) bind[e.getName()] = { key: e.getPropertyNameNode()?.getText().replace(/"/g, "") ?? e.getName(), type: e.getType().getText(), rest: !!e.getDotDotDotToken() };
    const query = {};
    for (const b of meth.getDescendantsOfKind(SyntaxKind.BinaryExpression)) {
      const l = b.getLeft();
      if (b.getOperatorToken().getText() !== "=" || l.getKind() !== SyntaxKind.ElementAccessExpression || l.getExpression().getText() !== "_queryParams") continue;
      const k = l.getArgumentExpression().getText().slice(1, -1);
      const v = b.getRight().getText();
      const variable = v.match(/^\w+/)[0];
      (query[k] ??= { from: bind[variable]?.key ?? variable, type: bind[variable]?.type, forms: [] }).forms.push(v.replace(variable, "v"));
    }
    const errs = {};
    for (const cc of meth.getDescendantsOfKind(SyntaxKind.CaseClause)) {
      const st = cc.getExpression().getText();
      const ne = cc.getDescendantsOfKind(SyntaxKind.NewExpression)[0];
      if (/^\d+$/.test(st) && !(st in errs)) errs[st] = ne.getExpression().getText().replace("LangfuseAPI.", "");
    }
    const body = prop("body")?.getText();
    out.push({ client: res.join("."), name: name.slice(2), method: prop("method").getText().slice(1, -1), path, params, pathTypes: Object.fromEntries([...path.matchAll(/\{(\w+)\}/g)].map((x) => [x[1], { type: bind[x[1]] && !params.some((p) => p.name === x[1]) ? bind[x[1]].type : ptype(x[1]), inRequest: !params.some((p) => p.name === x[1]), key: bind[x[1]]?.key }])), query, errs, nothing: /data: undefined/.test(meth.getText()), body: body ?? null, bindings: bind });
  }
}
if (process.argv[3] === "-") console.log(JSON.stringify(out, null, 1));
else {
  const slim = out.map((e) => ({ client: e.client, name: e.name, method: e.method, path: e.path, params: e.params.map((p) => p.name), pathTypes: Object.fromEntries(Object.entries(e.pathTypes).map(([k, v]) => [k, v.type])), query: Object.fromEntries(Object.entries(e.query).map(([k, v]) => [k, { from: v.from, type: v.type.replace(/import\([^)]*\)\./g, ""), list: v.forms.some((f) => f.includes("map")) }])), body: e.body !== null, errors: e.errs, nothing: e.nothing }));
  slim.sort((a, b) => (a.client + a.name < b.client + b.name ? -1 : 1));
  fs.writeFileSync(new URL("../harness/data/endpoints.json", import.meta.url), "[\n" + slim.map((x) => JSON.stringify(x)).join(",\n") + "\n]\n");
}
