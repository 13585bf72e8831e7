import fc from "fast-check";
import { main, ensure, same, show, fail } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, isolated } from "../lib/otel";
import { LangfuseClient, RunnerContext, RegressionError } from "@langfuse/client";
import { jsonValue, ident, cleanString, opt, anyString } from "../lib/arbs";

const meta = fc.dictionary(fc.oneof(fc.constantFrom("a", "b", "c"), ident), jsonValue(1), { maxKeys: 4, noNullPrototype: true });
const items = fc.array(fc.record({ input: jsonValue(1), expected: opt(jsonValue(1)), out: fc.constantFrom("x", 1, null, "fail") }), { minLength: 1, maxLength: 4 });
const VERSIONS = ["2026-01-21T14:35:42Z", "2025-05-05T00:00:00.000Z"];
const ctxArb = fc.record({
  hosted: fc.boolean(), ctxData: opt(items), callData: opt(items), ctxVersion: opt(fc.constantFrom(...VERSIONS)), callVersion: opt(fc.constantFrom(...VERSIONS)),
  ctxMeta: opt(meta), callMeta: opt(meta), desc: opt(cleanString.filter((s) => s !== "")), runName: opt(cleanString.filter((s) => s !== "")), conc: opt(fc.integer({ min: 1, max: 3 })), evals: fc.nat(2), runEvals: fc.nat(1), twice: fc.boolean(),
});
async function one(c: any, viaContext: boolean) {
  const clock = useClock();
  const links: any[] = [];
  const scores: any[] = [];
  new FakeNet((r) => {
    if (r.path.endsWith("/dataset-run-items")) { links.push(r.json); return { json: { id: "ri", datasetRunId: "run1", datasetItemId: r.json.datasetItemId } }; }
    if (r.path.endsWith("/ingestion")) { for (const e of r.json.batch) scores.push(e.body); return { status: 207, json: { successes: [], errors: [] } }; }
    if (r.path.endsWith("/projects")) return { json: { data: [{ id: "p" }] } };
    return fail(`unexpected request ${r.url}`);
  }).install();
  const { exporter, processor } = makeTracing();
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const mk = (its: any[] | undefined, tag: string) => its?.map((it, i) => ({ input: it.input, expectedOutput: it.expected, ...(c.hosted ? { id: tag + i, datasetId: "ds", status: "ACTIVE" } : {}), __out: it.out }));
  const ctxData = mk(c.ctxData, "ctx"), callData = mk(c.callData, "call");
  const params: any = { name: "exp", task: async (it: any) => { if (it.__out === "fail") throw new Error("task"); return it.__out; } };
  if (c.runName !== undefined) params.runName = c.runName;
  if (c.desc !== undefined) params.description = c.desc;
  if (c.conc !== undefined) params.maxConcurrency = c.conc;
  if (c.evals) params.evaluators = Array.from({ length: c.evals }, (_, j) => async () => ({ name: "e" + j, value: j }));
  if (c.runEvals) params.runEvaluators = [async ({ itemResults }: any) => ({ name: "n", value: itemResults.length })];
  const metaBefore = JSON.stringify([c.ctxMeta, c.callMeta]);
  let res: any;
  const go = async () => {
    if (viaContext) {
      const ctx = new RunnerContext({ client, ...(ctxData ? { data: ctxData } : {}), ...(c.ctxVersion ? { datasetVersion: c.ctxVersion } : {}), ...(c.ctxMeta ? { metadata: c.ctxMeta } : {}) } as any);
      const p = { ...params, ...(callData ? { data: callData } : {}), ...(c.callVersion ? { datasetVersion: c.callVersion } : {}), ...(c.callMeta ? { metadata: c.callMeta } : {}) };
      // an earlier run with other arguments must not leave anything behind in the context
      if (c.twice && ctxData) { await ctx.runExperiment({ ...params, runEvaluators: [], evaluators: [], metadata: { earlier: 1 }, data: [] } as any); }
      return ctx.runExperiment(p);
    }
    const data = callData ?? ctxData;
    const metadata = c.ctxMeta || c.callMeta ? { ...c.ctxMeta, ...c.callMeta } : undefined;
    const version = c.callVersion ?? c.ctxVersion;
    return client.experiment.run({ ...params, data, ...(version ? { datasetVersion: version } : {}), ...(metadata ? { metadata } : {}) });
  };
  try {
    res = { ok: await clock.drive(isolated(go)) };
  } catch (e) {
    res = { err: e };
  }
  await clock.drive(Promise.all([client.flush(), processor.forceFlush()]));
  same(JSON.stringify([c.ctxMeta, c.callMeta]), metaBefore, "the given metadata was modified");
  return { res, links, scores, spans: exporter.spans };
}
async function runCtx(c: any) {
  const a = await one(c, true);
  if (!c.ctxData && !c.callData) {
    ensure(a.res.err instanceof Error, "an experiment without data must be refused");
    same(a.links.length + a.spans.length, 0, "activity of an experiment without data");
    return { nontrivial: false, labels: ["no data"] };
  }
  const b = await one(c, false);
  ensure(a.res.ok && b.res.ok, () => `experiment failed: ${show(a.res.err ?? b.res.err)}`);
  // random identifiers are replaced in order of appearance
  const norm = (x: any) => {
    const ids = new Map<string, string>();
    return (JSON.stringify(x) ?? "").replace(/[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}|\b[0-9a-f]{32}\b|\b[0-9a-f]{16}\b/g, (m) => { if (!ids.has(m)) ids.set(m, "id" + ids.size); return ids.get(m)!; });
  };
  const pickRes = (r: any) => ({ run: r.runName, items: r.itemResults, ev: r.runEvaluations, url: r.datasetRunUrl, id: r.datasetRunId });
  const pickSpans = (s: any[]) => s.map((x) => ({ name: x.name, attrs: x.attributes, status: x.status, trace: x.traceId }));
  same(norm(pickRes(a.res.ok)), norm(pickRes(b.res.ok)), "result of the run through the context");
  same(norm(a.links), norm(b.links), "run items created through the context");
  same(norm(a.scores.map((s: any) => ({ ...s, id: "" }))), norm(b.scores.map((s: any) => ({ ...s, id: "" }))), "scores of the run through the context");
  same(norm(pickSpans(a.spans)), norm(pickSpans(b.spans)), "observations of the run through the context");
  return { nontrivial: !!(c.ctxData && (c.ctxMeta || c.ctxVersion)), labels: [c.ctxData && c.callData && "data in both", c.ctxMeta && c.callMeta && "metadata in both", c.ctxVersion && c.callVersion && "version in both", c.hosted && "hosted"] };
}

// ---------- regression error
const num = fc.oneof({ weight: 2, arbitrary: fc.double() }, { weight: 1, arbitrary: fc.constantFrom(0, -0, 1, -1, 0.5, NaN, Infinity) });
const regArb = fc.record({ message: opt(anyString), metric: opt(anyString), value: opt(num), threshold: opt(num) });
function runReg(c: any) {
  const result: any = { runName: "r" };
  const p: any = { result };
  for (const k of ["message", "metric", "value", "threshold"]) if (c[k] !== undefined) p[k] = c[k];
  const e: any = new RegressionError(p);
  ensure(e instanceof RegressionError && e instanceof Error && e.name === "RegressionError", "class of the error");
  ensure(e.result === result, "result carried by the error");
  for (const k of ["metric", "value", "threshold"]) same(e[k], c[k], k);
  if (c.message !== undefined) same(e.message, c.message, "explicit message");
  else if (c.metric !== undefined && c.value !== undefined) {
    ensure(e.message.includes(c.metric) && e.message.includes(String(c.value)), () => `message ${show(e.message)} does not name the metric and its value`);
    if (c.threshold !== undefined) ensure(e.message.includes(String(c.threshold)), () => `message ${show(e.message)} does not name the threshold`);
  } else ensure(e.message.length > 0, "empty message");
  return { nontrivial: c.metric !== undefined && c.value !== undefined };
}

await main({
  subs: [
    { name: "context", arb: ctxArb, run: runCtx, quick: 4800, thorough: 20000, rule: "data and further defaults come from the context" },
    { name: "regression", arb: regArb, run: runReg, quick: 2000, thorough: 5000, rule: "a metric and its value are given" },
  ],
  assumptions: ["experiment.run itself is decided by C23 and C24"],
});
