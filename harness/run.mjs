// usage: node harness/run.mjs <ID> [--replay FILE]
// Builds the check from /repo's working tree, runs it in a child process and supervises it.
import { buildCheck, ROOT } from "./build.mjs";
import { fork } from "node:child_process";
import fs from "node:fs";
import path from "node:path";

const id = process.argv[2];
const replayIdx = process.argv.indexOf("--replay");
const HANG_MS = 240_000;

let bundle;
try {
  bundle = await buildCheck(id);
} catch (e) {
  console.error(`BUILD-ERROR ${id}: ${e?.message ?? e}`);
  process.exit(2);
}
const env = { ...process.env };
for (const k of Object.keys(env)) if (k.startsWith("LANGFUSE_") || k.startsWith("OTEL_")) delete env[k];
env.VERIF_CHECK_ID = id;
env.VERIF_ROOT = ROOT;
env.TZ = "UTC";
if (replayIdx > 0) env.VERIF_REPLAY = path.resolve(process.argv[replayIdx + 1]);
// Several searches run side by side, each drawing its own cases from the seed; the number is fixed
// so that a run explores the same cases on every machine.
const shards = replayIdx > 0 ? 1 : Math.max(1, Number(process.env.VERIF_SHARDS ?? 6) | 0);
const tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const t0 = Date.now();

const children = [];
const results = [];
let violated = null;
let broken = null;
let ended = 0;

function merged() {
  const perSub = {};
  const samples = [];
  const known = {};
  const problems = new Set();
  const all = {};
  let evaluations = 0;
  for (const r of results) {
    evaluations += r.evaluations;
    for (const [name, p] of Object.entries(r.perSub)) {
      const m = (perSub[name] ??= { cases: 0, distinct_nontrivial: 0, labels: {}, rule: p.rule, wall_s: 0 });
      m.cases += p.cases;
      m.wall_s = Math.max(m.wall_s, p.wall_s);
      for (const [l, n] of Object.entries(p.labels)) m.labels[l] = (m.labels[l] ?? 0) + n;
      const set = (all[name] ??= new Set());
      for (const h of r.subDistinct[name] ?? []) set.add(h);
    }
    for (const s of r.samples) if (samples.filter((x) => x.sub === s.sub).length < 4) samples.push(s);
    for (const k of r.known) known[k.key] = { ...k, hits: (known[k.key]?.hits ?? 0) + k.hits };
    for (const p of r.problems) problems.add(p);
  }
  let distinct = 0;
  for (const [name, set] of Object.entries(all)) {
    perSub[name].distinct_nontrivial = set.size;
    distinct += set.size;
  }
  return { evaluations, distinct, perSub, samples, known, problems: [...problems] };
}

function finish() {
  clearInterval(timer);
  for (const c of children) if (c.exitCode === null) c.kill("SIGKILL");
  const wall = Math.round((Date.now() - t0) / 100) / 10;
  results.sort((a, b) => a.shard - b.shard);
  const m = merged();
  const seed = Number(process.env.VERIF_SEED ?? 1) | 0;
  const first = results[0];
  if (first && !first.partial) {
    const ev = {
      property: id,
      tier,
      seed,
      level: first.level,
      coverage: {
        evaluations: m.evaluations,
        distinct_nontrivial: m.distinct,
        rule: first.rule,
        samples: m.samples,
        parallel_searches: results.length,
        per_sub: m.perSub,
        known_findings: Object.fromEntries(Object.values(m.known).map((k) => [k.key, k.hits])),
        generator_warnings: m.problems,
      },
      assumptions: first.assumptions,
      wall_s: wall,
      violations: violated ? 1 : 0,
    };
    fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(ROOT, "evidence", `${id}.json`), JSON.stringify(ev, null, 1));
  }
  if (process.env.VERIF_VERBOSE) for (const [name, p] of Object.entries(m.perSub)) console.log(name, JSON.stringify(p));
  for (const k of Object.values(m.known)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  for (const p of m.problems) console.log(`GENERATOR-WARNING ${p}`);
  if (violated) {
    if (violated.sub) {
      console.log(`sub-check: ${violated.sub}`);
      console.log(`counterexample (after ${violated.numShrinks} shrinks): ${violated.counterexample.slice(0, 3000)}`);
    }
    console.log(violated.error.slice(0, 3000));
    console.log(`VIOLATION property=${id} replay=${violated.replayPath}`);
    process.exit(1);
  }
  if (broken) {
    console.error(broken);
    process.exit(2);
  }
  console.log(`${id} held: ${m.evaluations} cases, ${m.distinct} distinct non-trivial, ${wall}s (tier ${tier}, seed ${seed})`);
  process.exit(0);
}

for (let k = 0; k < shards; k++) {
  const child = fork(bundle, [], {
    env: { ...env, VERIF_SHARD: String(k) },
    execArgv: ["--enable-source-maps", "--max-old-space-size=4000", "--stack-size=2000", "--unhandled-rejections=strict"],
    stdio: ["ignore", "inherit", "inherit", "ipc"],
  });
  children.push(child);
  child.last = Date.now();
  child.on("message", (msg) => {
    child.last = Date.now();
    if (msg?.hb) child.where = msg.hb;
    if (msg?.result) {
      child.done = true;
      results.push(msg.result);
      if (msg.result.violation && !violated) {
        violated = msg.result.violation;
        finish();
      }
    }
  });
  // a child is over when it has exited and its channel is drained
  const exited = new Promise((r) => child.on("exit", (code, sig) => r([code, sig])));
  const drained = new Promise((r) => child.on("disconnect", r));
  Promise.all([exited, drained]).then(([[code, sig]]) => {
    if (!child.done) broken ??= `check ${id} ended without a verdict (search ${k}, code ${code}, signal ${sig})`;
    if (++ended === shards) finish();
  });
}
const timer = setInterval(() => {
  const hung = children.find((c) => !c.done && c.exitCode === null && c.signalCode === null && Date.now() - c.last > HANG_MS);
  if (!hung) return;
  const dir = path.join(ROOT, "replays");
  fs.mkdirSync(dir, { recursive: true });
  const f = path.join(dir, `${id}-hang.json`);
  fs.writeFileSync(f, JSON.stringify({ property: id, kind: "hang", near: hung.where, search: children.indexOf(hung), seed: Number(process.env.VERIF_SEED ?? 1) }, null, 1));
  violated = { error: `one generated case of ${id} kept the process busy for ${HANG_MS / 1000}s without finishing: ${JSON.stringify(hung.where)}`, replayPath: f };
  finish();
}, 1000);
