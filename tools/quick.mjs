// Quick trial of hand-written defects: node quick.mjs SPEC.mjs [id-substring]. SPEC exports default [{id, checks, edits: [[file, old, new], ...]}]. Not a registered check.
import fs from "node:fs"; import path from "node:path"; import { fork } from "node:child_process";
const VERIF = (process.env.VERIF ??= "/verif");
const { buildCheck, REPO } = await import(VERIF + "/harness/build.mjs");
const spec = (await import(path.resolve(process.argv[2]))).default.filter((s) => !process.argv[3] || s.id.includes(process.argv[3]));
const JOBS = Number(process.env.JOBS ?? 4);
async function one(m, w) {
  const root = `/tmp/quick/w${w}`; fs.mkdirSync(root, { recursive: true });
  fs.copyFileSync(VERIF + "/known-findings.json", root + "/known-findings.json");
  const content = new Map();
  for (const [f, a, b] of m.edits) {
    const p = path.join(REPO, "packages", f);
    const t = content.get(p) ?? fs.readFileSync(p, "utf8");
    const n = t.split(a).length - 1;
    if (n < 1 || (n > 1 && !m.first)) return `SPEC ERROR: ${n} matches for ${JSON.stringify(a.slice(0, 60))}`;
    content.set(p, t.replace(a, () => b));
  }
  const plugin = { name: "q", setup(b) { b.onLoad({ filter: /\.ts$/ }, (x) => (content.has(x.path) ? { contents: content.get(x.path), loader: "ts" } : undefined)); } };
  const res = [];
  for (const id of m.checks) {
    let bundle; try { bundle = await buildCheck(id, root + "/b", [plugin]); } catch (e) { return "BUILD ERROR " + e.message.slice(0, 300); }
    const r = await new Promise((ok) => {
      const c = fork(bundle, [], { env: { ...process.env, VERIF_CHECK_ID: id, VERIF_ROOT: root, TZ: "UTC", VERIF_SEED: process.env.VERIF_SEED ?? "1", VERIF_TIER: "quick", VERIF_NOSHRINK: "1" }, execArgv: ["--max-old-space-size=3000", "--stack-size=2000", "--unhandled-rejections=strict"], stdio: ["ignore", "pipe", "pipe", "ipc"] });
      let out = ""; c.stdout.on("data", (d) => (out += d)); c.stderr.on("data", (d) => (out += d)); c.on("message", (x) => { if (x?.result?.violation) out += x.result.violation.error; });
      const to = setTimeout(() => { c.kill("SIGKILL"); ok({ code: "timeout", out }); }, 200000);
      c.on("exit", (code) => { clearTimeout(to); ok({ code, out }); });
    });
    res.push(`${id}:${r.code === 1 ? "caught" : r.code === 0 ? "MISSED" : r.code}` + (process.env.SHOW && r.code ? "\n    " + r.out.split("\n").filter((l) => /fail|violat|expected|:/i.test(l)).slice(0, 3).join("\n    ").slice(0, 500) : ""));
  }
  return res.join(" ");
}
let i = 0;
await Promise.all(Array.from({ length: JOBS }, async (_, w) => { while (i < spec.length) { const m = spec[i++]; const r = await one(m, w); console.log(`${r.includes("MISSED") || r.includes("ERROR") ? "** " : "   "}${m.id}  ${r}`); } }));
process.exit(0);
