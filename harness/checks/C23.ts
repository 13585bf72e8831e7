import fc from "fast-check";
import { main, ensure, same, show, fail, deepEqual } from "../lib/runner";
import { expArb, runExperiment, togetherArb, runTogether, okItems, evalsOf, type Trace } from "../lib/experiment";
import { createEvaluatorFromAutoevals } from "@langfuse/client";
import { jsonValue } from "../lib/arbs";

function results(t: Trace) {
  const c = t.c;
  const ok: number[] = okItems(c);
  const r = t.result;
  // task calls: exactly once per item with an input, no others
  const calls = new Map<number, number>();
  for (const k of t.taskCalls) calls.set(k.item, (calls.get(k.item) ?? 0) + 1);
  c.items.forEach((it: any, i: number) => same(calls.get(i) ?? 0, it.input === undefined ? 0 : 1, `task calls for item ${i}`));
  ensure(t.maxActive <= (c.maxConcurrency ?? 50), `${t.maxActive} tasks ran at once, limit ${c.maxConcurrency ?? 50}`);
  same(r.itemResults.length, ok.length, "number of item results");
  // evaluations are recomputed per item; equal items may have swapped evaluator scripts, so go by what each evaluator call was assigned
  const byData = (i: number) => c.items.filter((_: any, j: number) => ok.includes(j) && deepEqual([c.items[j].input, c.items[j].expected, c.items[j].meta, c.items[j].task.res.ok], [c.items[i].input, c.items[i].expected, c.items[i].meta, c.items[i].task.res.ok])).length;
  ok.forEach((i, pos) => {
    const ir = r.itemResults[pos];
    if (c.via !== "dataset") ensure(ir.item === t.data[i], `result ${pos} does not carry item ${i}`);
    else same(ir.item?.id, `item-${i}`, `result ${pos} item`);
    same(ir.output, c.items[i].task.res.ok, `output of item ${i}`);
    if (byData(i) === 1) {
      const want = c.items[i].evals.slice(0, c.nEval).flatMap(evalsOf);
      same(ir.evaluations, want, `evaluations of item ${i}`);
    }
    const call = t.taskCalls.find((k) => k.item === i)!;
    same(ir.traceId, call.traceId, `trace of item ${i}`);
  });
  same(t.evalCalls.length, ok.length * c.nEval, "evaluator calls");
  same(t.runEvalCalls.length, c.runEvals.length, "run evaluator calls");
  for (const k of t.runEvalCalls) { same(k.itemResults.length, r.itemResults.length, "results given to run evaluators"); k.itemResults.forEach((x: any, i: number) => ensure(x === r.itemResults[i] || deepEqual(x, r.itemResults[i]), "run evaluator saw other results")); }
  same(r.runEvaluations, c.runEvals.flatMap(evalsOf), "run evaluations");
  if (c.runName !== undefined) same(r.runName, c.runName, "run name");
  else {
    // name and start time, to the millisecond: runs started at different times never share a default name
    const pre = `${c.name ?? "exp"} - `;
    ensure(typeof r.runName === "string" && r.runName.startsWith(pre), () => `default run name ${show(r.runName)}`);
    const at = Date.parse(r.runName.slice(pre.length));
    ensure(at >= t.startedAt && at <= t.clock.now, () => `default run name ${show(r.runName)} does not carry the start time ${new Date(t.startedAt).toISOString()}`);
  }
  return ok;
}
async function run(c: any) {
  const t = await runExperiment(c);
  const ok = results(t);
  const order = t.taskCalls.map((k) => k.item).join();
  return { nontrivial: c.items.length > 1, labels: [c.items.some((it: any) => it.odd) && c.via !== "dataset" && "value JSON cannot carry", ok.length < c.items.length && "failing item", t.maxActive > 1 && "concurrent", c.via, t.hosted && "hosted", c.items.some((it: any) => it.evals.slice(0, c.nEval).some((e: any) => e.out.k === "reject" || e.out.k === "throw")) && "failing evaluator", c.runEvals.some((e: any) => e.out.k === "reject" || e.out.k === "throw") && "failing run evaluator"] };
}

// ---- formatted summary
const fmtItem = fc.record({ ok: fc.constantFrom(true, true, true, false), noInput: fc.constantFrom(false, false, false, false, true), odd: fc.option(fc.record({ where: fc.constantFrom("input", "expected", "output"), kind: fc.constantFrom("bigint", "cycle", "tojson", "bare bigint") }), { nil: undefined, freq: 6 }), falsy: fc.option(fc.constantFrom<any>(0, "", false, undefined, null), { nil: "none", freq: 4 }), obj: fc.boolean(), long: fc.constantFrom(0, 0, 49, 50, 51, 60, 400), lat: fc.constantFrom(0, 1, 5), hasExp: fc.boolean(), evals: fc.array(fc.record({ name: fc.constantFrom("acc", "len", "sty"), value: fc.oneof(fc.constantFrom(0, 1, 0.5, 0.25, -3, 12.3456), fc.constantFrom("good", "bad"), fc.boolean()), c: fc.boolean() }), { maxLength: 4 }) });
const fmtArb = fc.record({ items: fc.array(fmtItem, { maxLength: 7 }), runEvals: fc.array(fc.record({ name: fc.constantFrom("avg", "max"), value: fc.constantFrom<any>(0, 1, 0.3333, "ok", true, false), c: fc.boolean() }), { maxLength: 2 }), hosted: fc.boolean(), include: fc.constantFrom(undefined, true, true, true, false), conc: fc.constantFrom(undefined, 1, 3), desc: fc.boolean() });
const enc = (v: any) => (typeof v === "string" ? (v.length > 50 ? v.slice(0, 47) + "..." : v) : JSON.stringify(v));
const plain = (v: any) => { try { JSON.stringify(v); return true; } catch { return false; } }; // how a value JSON cannot carry is shown is not claimed
const num = (v: any) => (typeof v === "number" ? v.toFixed(3) : String(v));
async function runFmt(c: any) {
  const pad = (s: string, long: number) => (long ? s + "-".repeat(long - s.length) : s);
  const items = c.items.map((it: any, i: number) => ({
    input: it.noInput ? undefined : it.obj ? { q: `in-${i}` } : pad(`in-${i}`, it.long), odd: it.odd, expected: it.hasExp ? it.falsy !== "none" && it.falsy !== undefined && it.falsy !== null ? it.falsy : (it.obj ? { e: `exp-${i}` } : pad(`exp-${i}`, it.long)) : undefined, meta: undefined,
    task: { lat: it.lat, steps: 0, child: false, sync: false, res: it.ok ? { ok: it.falsy !== "none" ? it.falsy : it.obj ? { o: `out-${i}` } : pad(`out-${i}`, it.long) } : { err: "error" } },
    evals: [{ lat: 0, out: { k: "many", es: it.evals.map((e: any, j: number) => ({ name: e.name, value: e.value, ...(e.c ? { comment: `why-${i}-${j}` } : {}) })) } }],
    linkFault: "", linkLat: 0,
  }));
  const t = await runExperiment({ items, hosted: c.hosted, via: "run", nEval: 1, runEvals: c.runEvals.length ? [{ lat: 0, out: { k: "many", es: c.runEvals.map((e: any, j: number) => ({ name: e.name, value: e.value, ...(e.c ? { comment: `because-${j}` } : {}) })) } }] : [], maxConcurrency: c.conc, runName: "the-run", desc: c.desc ? "the-desc" : undefined, meta: undefined, version: undefined, ingest: [], ingestLat: 0, projectFault: "", outer: false });
  const text: string = await t.clock.drive(t.result.format(c.include === undefined ? undefined : { includeItemResults: c.include }));
  ensure(typeof text === "string", "format() returns text");
  const ok: number[] = okItems(t.c);
  if (ok.length === 0) { ensure(!/Item 1:/.test(text), "empty experiment lists an item"); return { nontrivial: false }; }
  const [head, tail] = split(text);
  const lines = (s: string) => s.split("\n").map((x) => x.trim());
  if (c.include) {
    const sections = head.split(/\n\d+\. Item \d+:\n/).slice(1);
    same(sections.length, ok.length, "item sections");
    ok.forEach((i, pos) => {
      const L = lines(sections[pos]);
      const field = (name: string) => L.filter((x) => x.startsWith(name + ":")).map((x) => x.slice(name.length + 1).trim());
      const line = (name: string, v: any, none?: string) => {
        same(field(name).length, 1, `${name} lines of result ${pos}`);
        if (plain(v)) same(field(name)[0], v === undefined ? none ?? "undefined" : enc(v), `${name} line of result ${pos}`);
      };
      const it = t.c.items[i]; // with the values JSON cannot carry in place
      line("Input", it.input);
      line("Expected", it.expected, "null");
      line("Actual", it.task.res.ok);
      const es = items[i].evals[0].out.es;
      same(L.filter((x) => x.startsWith("• ")), es.map((e: any) => `• ${e.name}: ${num(e.value)}`), `score lines of result ${pos}`);
      same(L.filter((x) => x.includes("why-")).map((x) => x.slice(x.indexOf("why-"))), es.filter((e: any) => e.comment).map((e: any) => e.comment), `comments of result ${pos}`);
      ensure(sections[pos].includes(`/traces/${t.result.itemResults[pos].traceId}`), `trace link of result ${pos}`);
      if (c.hosted) ensure(new RegExp(`/datasets/ds-1/items/item-${i}\\b`).test(sections[pos]), `dataset item link of result ${pos}: ${sections[pos]}`);
    });
  } else ensure(!/in-\d|out-\d/.test(text), "item data shown although not asked for");
  ensure(new RegExp(`(^|\\D)${ok.length} items`).test(tail), () => `item count in summary: ${tail}`);
  ensure(tail.includes("exp") && tail.includes("the-run") && (!c.desc || tail.includes("the-desc")), "names in summary");
  const all = ok.flatMap((i) => items[i].evals[0].out.es);
  const names = [...new Set(all.map((e: any) => e.name))] as string[];
  const avgBlock = tail.includes("Average Scores:") ? lines(tail.split("Average Scores:")[1].split("Run Evaluations:")[0]).filter((x) => x.startsWith("• ")) : [];
  const wantAvg = names.map((n) => { const v = all.filter((e: any) => e.name === n && typeof e.value === "number").map((e: any) => e.value); return v.length ? `• ${n}: ${(v.reduce((a: number, b: number) => a + b, 0) / v.length).toFixed(3)}` : null; }).filter(Boolean);
  same([...avgBlock].sort(), [...wantAvg].sort(), "average scores");
  const runBlock = tail.includes("Run Evaluations:") ? lines(tail.split("Run Evaluations:")[1]).filter((x) => x.startsWith("• ")) : [];
  same(runBlock, c.runEvals.map((e: any) => `• ${e.name}: ${num(e.value)}`), "run evaluations in summary");
  same(lines(tail).filter((x) => x.includes("because-")).map((x) => x.slice(x.indexOf("because-"))), c.runEvals.flatMap((e: any, j: number) => (e.c ? [`because-${j}`] : [])), "run evaluation comments in summary");
  if (c.hosted) ensure(tail.includes("/datasets/ds-1/runs/run-1"), () => `link to the dataset run in summary: ${tail}`);
  return { nontrivial: ok.length > 0 && all.length > 0, labels: [ok.length < items.length && "failing item", c.include && "with items", c.hosted && "hosted"] };
}
function split(text: string): [string, string] {
  const i = text.indexOf("🧪");
  return i < 0 ? [text, text] : [text.slice(0, i), text.slice(i)];
}

// ---- many items: limits and order at scale
const bulkArb = fc.record({ n: fc.integer({ min: 40, max: 130 }), conc: fc.constantFrom(undefined, undefined, 7, 49, 50, 51, 100), lats: fc.array(fc.constantFrom(0, 1, 2, 3, 7, 20), { minLength: 3, maxLength: 11 }), failEvery: fc.constantFrom(0, 2, 3, 10), hosted: fc.boolean() });
async function runBulk(c: any) {
  const items = Array.from({ length: c.n }, (_, i) => ({ input: `in-${i}`, expected: i, meta: undefined, task: { lat: c.lats[i % c.lats.length], steps: 0, child: false, sync: false, res: c.failEvery && i % c.failEvery === 1 ? { err: "error" } : { ok: `out-${i}` } }, evals: [{ lat: c.lats[(i * 3) % c.lats.length], out: { k: "one", e: { name: "acc", value: i } } }], linkFault: "", linkLat: c.lats[(i + 1) % c.lats.length] }));
  const t = await runExperiment({ items, hosted: c.hosted, via: "run", nEval: 1, runEvals: [], maxConcurrency: c.conc, runName: "r", desc: undefined, meta: undefined, version: undefined, ingest: [], ingestLat: 3, projectFault: "", outer: false });
  results(t);
  same(t.scoresAtResolve, okItems(t.c).length, "scores sent when the experiment resolved");
  return { nontrivial: t.maxActive > 5, labels: [`conc:${c.conc ?? "default"}`, t.maxActive >= 49 && "near limit"] };
}

// ---- several experiments on one client
async function runSeveral(c: any) {
  const t = await runTogether(c);
  c.exps.forEach((x: any, e: number) => {
    if (!t.ran[e]) return;
    const r = t.results[e];
    const ok = t.ok(e);
    same(t.taskCalls.filter((k) => k.e === e).map((k) => k.i).sort((a, b) => a - b), x.items.map((_: any, i: number) => i), `task calls of experiment ${e}`);
    same(r.itemResults.map((q: any) => q.output), ok.map((i) => `out-${e}-${i}`), `outputs of experiment ${e}`);
    same(r.itemResults.map((q: any) => q.evaluations), ok.map((i) => [{ name: "match", value: 1, comment: `for in-${e}-${i}` }]), `evaluations of experiment ${e}`);
    same(r.runEvaluations, x.runEval ? [{ name: "count", value: ok.length, comment: `run of ${e}` }] : [], `run evaluations of experiment ${e}`);
    same(r.runName, `run name ${e}`, `run name of experiment ${e}`);
  });
  return { nontrivial: t.overlapped, labels: [c.exps.some((x: any, e: number) => e && x.nestedIn !== undefined && t.ran[e]) && "nested"] };
}

// ---- autoevals adapter
const autoArb = fc.record({ input: jsonValue(1), output: jsonValue(1), expected: jsonValue(1), score: fc.constantFrom(0, 1, 0.5, null, undefined), name: fc.constantFrom("Levenshtein", "x"), meta: fc.option(fc.record({ a: fc.nat() }), { nil: undefined }), params: fc.option(fc.record({ model: fc.constantFrom("m"), input: fc.constantFrom("SHADOW") }, { requiredKeys: [] }), { nil: undefined }), fails: fc.constantFrom(false, false, false, true) });
async function runAuto(c: any) {
  const seen: any[] = [];
  const ev: any = createEvaluatorFromAutoevals((async (a: any) => { seen.push(a); if (c.fails) throw new Error("x"); return { name: c.name, score: c.score, metadata: c.meta }; }) as any, c.params);
  let r: any, err: any;
  try { r = await ev({ input: c.input, output: c.output, expectedOutput: c.expected, metadata: { z: 1 } }); } catch (e) { err = e; }
  same(seen.length, 1, "scorer calls");
  same({ i: seen[0].input, o: seen[0].output, e: seen[0].expected }, { i: c.input, o: c.output, e: c.expected }, "scorer arguments");
  if (c.params?.model) same(seen[0].model, c.params.model, "extra parameter");
  if (c.fails) return void ensure(err, "scorer failure swallowed");
  same([r.name, r.value, r.metadata], [c.name, c.score ?? 0, c.meta], "adapted evaluation");
  return { nontrivial: true };
}

main({
  assumptions: ["tasks and evaluators are asynchronous functions with virtual latencies; synchronous throws are included", "evaluators identify their item by its data; when two successful items have identical data their evaluations are not told apart"],
  subs: [
    { name: "run", arb: expArb, run, quick: 3600, thorough: 30000, rule: "more than one item" },
    { name: "format", arb: fmtArb, run: runFmt, quick: 3600, thorough: 20000, rule: "at least one successful item with an evaluation" },
    { name: "many items", arb: bulkArb, run: runBulk, quick: 90, thorough: 1500, rule: "more than five tasks at once" },
    { name: "several experiments", arb: togetherArb, run: runSeveral, quick: 800, thorough: 8000, rule: "two experiments of one client under way at once" },
    { name: "autoevals", arb: autoArb, run: runAuto, quick: 600, thorough: 2000, rule: "always" },
  ],
});
