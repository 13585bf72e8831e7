import fc from "fast-check";
import nodeCrypto from "node:crypto";
import { main, ensure, same, show, fail, deepEqual } from "../lib/runner";
import { expArb, runExperiment, togetherArb, runTogether, okItems, evalsOf, type Trace } from "../lib/experiment";

const enc = (v: any) => (typeof v === "string" ? v : JSON.stringify(v));
const plain = (v: any) => { try { JSON.stringify(v); return true; } catch { return false; } }; // what an attribute shows for a value JSON cannot carry is not claimed
const A = "langfuse.";
function linkage(t: Trace) {
  const c = t.c;
  const ok: number[] = okItems(c);
  const r = t.result;
  const roots = t.spans.filter((s) => s.name === "experiment-item-run" || s.attributes["langfuse.experiment.item.root_observation_id"] === s.spanId);
  // --- one observation per task call; the task ran inside it
  const ids = new Set<string>();
  const unlinkedIds = new Set<string>();
  for (const k of t.taskCalls) {
    const s = t.spans.find((x) => x.spanId === k.spanId);
    ensure(s, `observation of item ${k.item} was not exported`);
    ensure(!ids.has(s.spanId), `two items share observation ${s.spanId}`);
    ids.add(s.spanId);
    same(s.traceId, k.traceId, "trace of the item's observation");
    if (t.outerIds) same([s.traceId, s.parentId], [t.outerIds.traceId, t.outerIds.id], "observation of an experiment run inside another observation");
    else { same(s.parentId, undefined, "parent of an item's observation"); same(t.taskCalls.filter((x) => x.traceId === k.traceId).length, 1, "items in one trace"); }
    const it = c.items[k.item];
    same(s.attributes["langfuse.environment"], "sdk-experiment", "experiment environment");
    if (ok.includes(k.item)) {
      if (it.input !== null && plain(it.input)) same(s.attributes[A + "observation.input"], enc(it.input), `input on the observation of item ${k.item}`);
      if (plain(it.task.res.ok)) same(s.attributes[A + "observation.output"], it.task.res.ok === undefined || it.task.res.ok === null ? s.attributes[A + "observation.output"] : enc(it.task.res.ok), `output on the observation of item ${k.item}`);
      same(s.attributes[A + "observation.metadata.experiment_run_name"], r.runName, "run name on the observation");
      same(s.attributes[A + "observation.metadata.experiment_name"], c.name, "experiment name on the observation");
      if (t.hosted) same([s.attributes[A + "observation.metadata.dataset_item_id"], s.attributes[A + "observation.metadata.dataset_id"]], [`item-${k.item}`, "ds-1"], "dataset item on the observation");
      for (const [kk, v] of Object.entries({ ...(it.meta ?? {}), ...(c.meta ?? {}) })) if (v !== null && plain(v) && !kk.startsWith("experiment_") && !kk.startsWith("dataset_")) same(s.attributes[`${A}observation.metadata.${kk}`], enc(v), `metadata ${kk} on the observation of item ${k.item}`);
    }
    const linked = t.hosted && it.linkFault === "";
    same(s.attributes[A + "experiment.item.root_observation_id"], s.spanId, "root observation id");
    if (t.hosted || (it.input !== null && plain(it.input))) same(s.attributes[A + "experiment.item.id"], t.hosted ? `item-${k.item}` : nodeCrypto.createHash("sha256").update(enc(it.input)).digest("hex").slice(0, 16), `item id on the observation of item ${k.item}`);
    same(s.attributes[A + "experiment.name"], r.runName, "experiment name");
    if (linked) same(s.attributes[A + "experiment.id"], "run-1", "experiment id of a linked item");
    else { const v: any = s.attributes[A + "experiment.id"]; ensure(typeof v === "string" && v !== "", "experiment id"); unlinkedIds.add(v); }
    if (t.hosted) same(s.attributes[A + "experiment.dataset.id"], "ds-1", "dataset of the experiment");
    if (c.meta !== undefined && enc(c.meta).length <= 200) same(s.attributes[A + "experiment.metadata"], enc(c.meta), "experiment metadata");
    if (it.meta !== undefined && plain(it.meta) && enc(it.meta).length <= 200) same(s.attributes[A + "experiment.item.metadata"], enc(it.meta), "item metadata of the experiment");
    if (it.expected !== undefined && it.expected !== "" && it.expected !== null && plain(it.expected)) same(s.attributes[A + "experiment.item.expected_output"], enc(it.expected), "expected output");
    if (c.desc) same(s.attributes[A + "experiment.description"], c.desc, "experiment description");
    // nothing of another item or run
    if (it.expected === undefined) same(s.attributes[A + "experiment.item.expected_output"], undefined, "expected output of an item without one");
    if (it.meta === undefined) same(s.attributes[A + "experiment.item.metadata"], undefined, "item metadata of an item without any");
    if (c.meta === undefined) same(s.attributes[A + "experiment.metadata"], undefined, "experiment metadata of a run without any");
    if (c.desc === undefined) same(s.attributes[A + "experiment.description"], undefined, "description of a run without one");
    if (!t.hosted) same(s.attributes[A + "experiment.dataset.id"], undefined, "dataset of an experiment on local data");
  }
  // --- spans created inside the task
  for (const ch of t.children) {
    const call = t.taskCalls.find((k) => k.item === ch.item)!;
    const s = t.spans.find((x) => x.spanId === ch.id);
    ensure(s, "span created inside the task was not exported");
    same([s.traceId, s.parentId], [call.traceId, call.spanId], `parent of a span created by item ${ch.item}'s task`);
    same(s.attributes[A + "experiment.item.root_observation_id"], call.spanId, "experiment root on a nested span");
    const root = t.spans.find((x) => x.spanId === call.spanId)!;
    for (const k of ["experiment.item.id", "experiment.id", "experiment.name", "experiment.dataset.id", "experiment.metadata", "experiment.item.metadata", "environment"]) same(s.attributes[A + k], root.attributes[A + k], `${k} on a nested span`);
  }
  // --- run items
  const links = new Map<string, any[]>();
  for (const l of t.links) { const k = l.json.datasetItemId; (links.get(k) ?? links.set(k, []).get(k)!).push(l); }
  if (!t.hosted) same(t.links.length, 0, "link requests for local data");
  else
    c.items.forEach((it: any, i: number) => {
      const l = links.get(`item-${i}`) ?? [];
      if (it.input === undefined) return same(l.length, 0, `link requests for skipped item ${i}`);
      same(l.length, it.linkFault === "500" ? 3 : 1, `link requests for item ${i}`);
      const call = t.taskCalls.find((k) => k.item === i)!;
      const want: any = { runName: r.runName, datasetItemId: `item-${i}`, traceId: call.traceId, observationId: call.spanId };
      if (c.desc !== undefined) want.runDescription = c.desc;
      if (c.meta !== undefined) want.metadata = c.meta;
      const version = c.callVersion ?? c.version;
      if (version) want.datasetVersion = version;
      for (const x of l) same(x.json, want, `link request of item ${i}`);
    });
  ensure(unlinkedIds.size <= 1, () => `one run reported under several experiment ids ${show([...unlinkedIds])}`);
  const linkedOk = t.hosted && ok.some((i) => c.items[i].linkFault === "");
  same(r.datasetRunId, linkedOk ? "run-1" : undefined, "dataset run id");
  if (linkedOk) same(r.experimentId, "run-1", "experiment id of the result");
  else if (unlinkedIds.size) same(r.experimentId, [...unlinkedIds][0], "experiment id of the result");
  else ensure(typeof r.experimentId === "string" && r.experimentId !== "", "experiment id of the result");
  if (linkedOk && !c.projectFault) same(r.datasetRunUrl, `${c.base}/project/proj-1/datasets/ds-1/runs/run-1`, "dataset run url");
  else same(r.datasetRunUrl, undefined, "dataset run url");
  ok.forEach((i, pos) => same(r.itemResults[pos].datasetRunId, t.hosted && c.items[i].linkFault === "" ? "run-1" : undefined, `run id of result ${pos}`));
  // --- scores
  same(t.scores.length, t.scoresAtResolve, "scores sent only after the experiment resolved");
  const left = [...t.scores];
  const take = (want: any, what: string) => {
    const j = left.findIndex((s) => { const { id, environment, ...x } = s; return deepEqual(x, want); });
    ensure(j >= 0, () => `${what}: no score ${show(want)} among ${show(left)}`);
    left.splice(j, 1);
  };
  ok.forEach((i, pos) => {
    const call = t.taskCalls.find((k) => k.item === i)!;
    for (const e of r.itemResults[pos].evaluations) take({ traceId: call.traceId, observationId: call.spanId, ...e }, `evaluation of item ${i}`);
  });
  if (linkedOk) for (const e of r.runEvaluations) take({ datasetRunId: "run-1", ...e }, "run evaluation");
  same(left, [], "scores nobody produced");
  same(new Set(t.scores.map((s) => s.id)).size, t.scores.length, "distinct score ids");
  return linkedOk;
}
async function run(c: any) {
  const t = await runExperiment(c);
  const linked = linkage(t);
  // the evaluations themselves (for data that identifies its item)
  const ok: number[] = okItems(c);
  return { nontrivial: ok.length > 1 && (t.scores.length > 0 || t.hosted), labels: [t.maxActive > 1 && "concurrent", linked && "linked", c.items.some((x: any) => x.linkFault) && t.hosted && "link fault", c.ingest.some((x: string) => x !== "ok") && "ingestion fault", t.children.length > 0 && "nested spans", !!t.outerIds && "inside observation", c.projectFault && "project fault"] };
}
// several experiments on one client, side by side or nested
async function runSeveral(c: any) {
  const t = await runTogether(c);
  const ids = new Set<string>();
  const left = [...t.scores];
  const take = (want: any, what: string) => {
    const j = left.findIndex((s) => { const { id, environment, ...x } = s; return deepEqual(x, want); });
    ensure(j >= 0, () => `${what}: no score ${show(want)} among ${show(left)}`);
    left.splice(j, 1);
  };
  const ranEs = c.exps.map((_: any, e: number) => e).filter((e: number) => t.ran[e]);
  for (const e of ranEs) {
    const x = c.exps[e];
    const r = t.results[e];
    const unlinked = new Set<string>();
    let anyLinked = false;
    for (const k of t.taskCalls.filter((q) => q.e === e)) {
      const s = t.spans.find((q) => q.spanId === k.spanId);
      ensure(s, "observation of an item was not exported");
      same(s.attributes[A + "experiment.name"], `run name ${e}`, `experiment name on an observation of experiment ${e}`);
      same(s.attributes[A + "experiment.item.root_observation_id"], s.spanId, "root observation id");
      if (!x.items[k.i].fail) same(s.attributes[A + "observation.input"], `in-${e}-${k.i}`, "input on the observation");
      const linked = x.hosted && x.items[k.i].link === "ok";
      const id = s.attributes[A + "experiment.id"];
      if (linked) same(id, `run-${e}`, `experiment id of a linked item of experiment ${e}`);
      else { ensure(typeof id === "string" && id !== "", "experiment id"); unlinked.add(id); }
      if (linked && !x.items[k.i].fail) anyLinked = true;
      if (x.hosted) { const l = t.links.filter((q) => q.json.datasetItemId === `item-${e}-${k.i}`); same(l.length, 1, "link requests of an item"); same([l[0].json.runName, l[0].json.traceId, l[0].json.observationId], [`run name ${e}`, k.traceId, k.spanId], "link request"); }
      if (!x.items[k.i].fail) take({ traceId: k.traceId, observationId: k.spanId, name: "match", value: 1, comment: `for in-${e}-${k.i}` }, `evaluation of item ${k.i} of experiment ${e}`);
    }
    ensure(unlinked.size <= 1, () => `experiment ${e} reported under several ids`);
    for (const id of unlinked) { ensure(!ids.has(id), () => `two experiments share the id ${id}`); ids.add(id); }
    same(r.datasetRunId, anyLinked ? `run-${e}` : undefined, `dataset run id of experiment ${e}`);
    if (anyLinked && x.runEval) take({ datasetRunId: `run-${e}`, name: "count", value: t.ok(e).length, comment: `run of ${e}` }, `run evaluation of experiment ${e}`);
  }
  same(left, [], "scores nobody produced");
  return { nontrivial: t.overlapped, labels: [c.exps.some((x: any, e: number) => e && x.nestedIn !== undefined && t.ran[e]) && "nested"] };
}
main({
  assumptions: ["API is a scripted in-memory fetch; spans are collected from an in-memory exporter through the real span processor"],
  subs: [{ name: "linkage", arb: expArb, run, quick: 6000, thorough: 40000, rule: "at least two successful items with scores or run-item links" }, { name: "several experiments", arb: togetherArb, run: runSeveral, quick: 800, thorough: 8000, rule: "two experiments of one client under way at once" }],
});
