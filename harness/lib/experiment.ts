// Generates and executes one experiment against scripted tasks, evaluators and a scripted API; records everything observable.
import fc from "fast-check";
import { fail, ensure, same, show } from "./runner";
import { useClock, Stuck, type VirtualClock } from "./env";
import { FakeNet, type Req } from "./net";
import { makeTracing, isolated, trace } from "./otel";
import { LangfuseClient, RunnerContext } from "@langfuse/client";
import { startObservation, startActiveObservation, propagateAttributes } from "@langfuse/tracing";
import { jsonValue, cleanString, ident } from "./arbs";

const lat = fc.constantFrom(0, 0, 1, 2, 5, 10, 40);
export type Ev = { name: string; value: any; comment?: string; metadata?: any; dataType?: string };
const evaluation: fc.Arbitrary<Ev> = fc.record(
  { name: fc.constantFrom("acc", "len", "style", "ü score", "a b"), value: fc.oneof({ weight: 4, arbitrary: fc.constantFrom(0, 1, 0.5, -2, 0.1234567, 100) }, { weight: 1, arbitrary: fc.constantFrom("good", "bad", "") }, { weight: 1, arbitrary: fc.boolean() }), comment: cleanString, metadata: fc.record({ m: fc.nat() }), dataType: fc.constantFrom("NUMERIC", "CATEGORICAL") },
  { requiredKeys: ["name", "value"] },
);
export type EvOut = { k: "one"; e: Ev } | { k: "many"; es: Ev[] } | { k: "reject"; err: string } | { k: "throw"; err: string };
const evOut: fc.Arbitrary<EvOut> = fc.oneof(
  { weight: 5, arbitrary: fc.record({ k: fc.constant("one" as const), e: evaluation }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("many" as const), es: fc.oneof({ weight: 12, arbitrary: fc.array(evaluation, { maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(evaluation, { minLength: 9, maxLength: 24 }) }) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("reject" as const), err: fc.constantFrom("error", "string", "undefined", "nullproto") }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("throw" as const), err: fc.constantFrom("error", "string") }) },
);
export const errOf = (k: string): any => (k === "error" ? new Error("boom") : k === "string" ? "boom text" : k === "undefined" ? undefined : k === "null" ? null : k === "nullproto" ? Object.create(null) : k === "symbol" ? Symbol("s") : { code: 7 });
const out = fc.oneof({ weight: 3, arbitrary: jsonValue(1) }, { weight: 1, arbitrary: fc.constantFrom(undefined, null, 0, "", false) });
const task = fc.record({
  lat, steps: fc.nat(2), child: fc.boolean(), sync: fc.constantFrom(false, false, false, true),
  res: fc.oneof({ weight: 5, arbitrary: fc.record({ ok: out }) }, { weight: 1, arbitrary: fc.record({ err: fc.constantFrom("error", "string", "undefined", "null", "nullproto", "symbol", "object") }) }),
});
const metaKey = fc.oneof({ weight: 1, arbitrary: ident }, { weight: 2, arbitrary: fc.constantFrom("a", "b", "model") }); // item and experiment metadata share keys
const itemArb = fc.record({
  input: fc.oneof({ weight: 8, arbitrary: jsonValue(1) }, { weight: 1, arbitrary: fc.constantFrom(undefined) }, { weight: 1, arbitrary: fc.constantFrom(null, 0, "", false) }),
  expected: fc.option(jsonValue(1), { nil: undefined }), meta: fc.option(fc.dictionary(metaKey, jsonValue(0), { maxKeys: 3, noNullPrototype: true }), { nil: undefined }),
  task, evals: fc.array(fc.record({ lat, out: evOut }), { minLength: 3, maxLength: 3 }),
  odd: fc.option(fc.record({ where: fc.constantFrom("input", "expected", "meta", "output"), kind: fc.constantFrom("bigint", "cycle", "tojson", "bare bigint") }), { nil: undefined, freq: 8 }), // a value JSON cannot carry
  linkFault: fc.constantFrom("", "", "", "", "", "", "400", "401", "403", "404", "409", "500", "net"), linkLat: lat,
});
export const expArb = fc.record({
  items: fc.array(itemArb, { maxLength: 9 }),
  hosted: fc.boolean(), via: fc.constantFrom("run" as const, "run" as const, "context" as const, "dataset" as const),
  nEval: fc.nat(3), runEvals: fc.array(fc.record({ lat, out: evOut }), { maxLength: 3 }),
  maxConcurrency: fc.constantFrom(undefined, 1, 2, 3, 4, 50),
  runName: fc.option(cleanString.filter((s) => s !== ""), { nil: undefined }), desc: fc.option(cleanString.filter((s) => s !== ""), { nil: undefined }),
  meta: fc.option(fc.dictionary(metaKey, jsonValue(0), { maxKeys: 3, noNullPrototype: true }), { nil: undefined }),
  version: fc.constantFrom(undefined, undefined, "2026-01-21T14:35:42Z"),
  ingest: fc.array(fc.constantFrom("ok", "ok", "ok", "400", "net", "500"), { maxLength: 4 }),
  ingestLat: lat, projectFault: fc.constantFrom("", "", "", "", "400", "404", "500", "net"),
  outer: fc.boolean(), scope: fc.constantFrom(undefined, undefined, undefined, { environment: "staging" }, { userId: "u-1", sessionId: "s-1" }, { environment: "staging", tags: ["t"], metadata: { m: "1" } }), procEnv: fc.constantFrom(undefined, undefined, undefined, "prod"), start: fc.nat(2500), name: fc.constantFrom("exp", "exp", "exp/1 - a", "ü exp 😀", "x"), callVersion: fc.constantFrom(undefined, undefined, undefined, "2025-03-03T03:03:03.003Z"), base: fc.constantFrom("http://lf.test", "http://lf.test", "http://lf.test/sub"),
});

export interface Trace {
  clock: VirtualClock;
  c: any;
  hosted: boolean;
  data: any[];
  result: any;
  taskCalls: { item: number; active: number; spanId?: string; traceId?: string; at: number }[];
  evalCalls: { item: number; ev: number; params: any }[];
  runEvalCalls: { i: number; itemResults: any }[];
  maxActive: number;
  links: Req[];
  scores: any[]; // score bodies in accepted or attempted order (first attempt of each event)
  scoresAtResolve: number;
  spans: any[];
  children: { item: number; id: string; traceId: string }[];
  outerIds?: { id: string; traceId: string };
  client: LangfuseClient;
  startedAt: number;
}
/** A value JSON.stringify refuses; distinct per item. */
export function oddValue(kind: string, i: number): any {
  if (kind === "bare bigint") return BigInt(1e9 + i);
  const o: any = { n: i };
  if (kind === "bigint") o.big = 10n;
  else if (kind === "cycle") o.self = o;
  else o.toJSON = () => { throw new Error("no json"); };
  return o;
}
function withOdd(c: any) {
  if (c.via === "dataset") return c;
  return { ...c, items: c.items.map((it: any, i: number) => {
    if (!it.odd) return it;
    const v = oddValue(it.odd.kind, i);
    if (it.odd.where === "input") return it.input === undefined ? it : { ...it, input: v };
    if (it.odd.where === "expected") return { ...it, expected: v };
    if (it.odd.where === "meta") return { ...it, meta: { ...(it.meta ?? {}), odd: v } };
    return "ok" in it.task.res ? { ...it, task: { ...it.task, res: { ok: v } } } : it;
  }) };
}
export async function runExperiment(c0: any): Promise<Trace> {
  const clock = useClock();
  const c = withOdd(c0);
  return isolated(async () => {
    const { exporter, processor } = makeTracing(c.procEnv ? { environment: c.procEnv } : {});
    const hosted = c.hosted || c.via === "dataset";
    const t: Trace = { clock, c, hosted, data: [], result: undefined, taskCalls: [], evalCalls: [], runEvalCalls: [], maxActive: 0, links: [], scores: [], scoresAtResolve: 0, spans: [], children: [], client: null as any, startedAt: clock.now };
    let data: any[] = c.items.map((it: any, i: number) => {
      const o: any = hosted ? { id: `item-${i}`, datasetId: "ds-1", datasetName: "d", status: "ACTIVE" } : {};
      if (it.input !== undefined) o.input = it.input;
      if (it.expected !== undefined) o.expectedOutput = it.expected;
      if (it.meta !== undefined) o.metadata = it.meta;
      return o;
    });
    const seenEvents = new Set<string>();
    let nIngest = 0;
    const prefix = new URL(c.base ?? "http://lf.test").pathname.replace(/\/$/, "");
    new FakeNet((r0) => {
      const r = { ...r0, path: r0.path.startsWith(prefix + "/") ? r0.path.slice(prefix.length) : r0.path };
      if (r.path === "/api/public/dataset-run-items") {
        t.links.push(r);
        const i = Number(String(r.json.datasetItemId).slice(5));
        const it = c.items[i];
        if (!it) fail(`link request for unknown item ${show(r.json.datasetItemId)}`);
        if (/^[45]/.test(it.linkFault)) return { status: Number(it.linkFault), json: { message: "no" }, delay: it.linkLat };
        if (it.linkFault === "net") return { networkError: new TypeError("fetch failed"), delay: it.linkLat };
        return { json: { id: `ri-${i}`, datasetRunId: "run-1", datasetRunName: r.json.runName, datasetItemId: r.json.datasetItemId, traceId: r.json.traceId, observationId: r.json.observationId }, delay: it.linkLat };
      }
      if (r.path === "/api/public/ingestion") {
        for (const e of r.json.batch) if (!seenEvents.has(e.id)) { seenEvents.add(e.id); t.scores.push(e.body); }
        const k = c.ingest[nIngest++] ?? "ok";
        if (k === "400") return { status: 400, json: {}, delay: c.ingestLat };
        if (k === "500") return { status: 500, text: "x", delay: c.ingestLat };
        if (k === "net") return { networkError: new TypeError("fetch failed"), delay: c.ingestLat };
        return { status: 207, json: { successes: r.json.batch.map((e: any) => ({ id: e.id, status: 201 })), errors: [] }, delay: c.ingestLat };
      }
      if (r.path === "/api/public/projects") {
        if (/^[45]/.test(c.projectFault)) return { status: Number(c.projectFault), json: {} };
        if (c.projectFault === "net") return { networkError: new TypeError("fetch failed") };
        return { json: { data: [{ id: "proj-1", name: "p" }] } };
      }
      if (r.path === "/api/public/v2/datasets/d") return { json: { id: "ds-1", name: "d" } };
      if (r.path === "/api/public/dataset-items") return { json: { data, meta: { page: 1, limit: 50, totalItems: data.length, totalPages: 1 } } };
      return fail(`unexpected request ${r.method} ${r.url}`);
    }).install();
    const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: c.base ?? "http://lf.test" });
    t.client = client;

    let active = 0;
    const index = (item: any) => { const i = data.indexOf(item); return i; };
    const body = async (item: any) => {
      let i = index(item);
      if (i < 0 && item?.id) i = Number(String(item.id).slice(5));
      ensure(i >= 0, "task called with something that is not an item");
      active++;
      t.maxActive = Math.max(t.maxActive, active);
      const sc = trace.getActiveSpan()?.spanContext();
      t.taskCalls.push({ item: i, active, spanId: sc?.spanId, traceId: sc?.traceId, at: clock.now });
      const k = c.items[i].task;
      try {
        if (k.lat) await clock.sleep(k.lat);
        for (let s = 0; s < k.steps; s++) {
          if (k.child) await startActiveObservation(`child-${i}`, async (o) => { t.children.push({ item: i, id: o.id, traceId: o.traceId }); await clock.sleep(1 + s); });
          else await Promise.resolve();
        }
        if ("err" in k.res) throw errOf(k.res.err);
        return k.res.ok;
      } finally {
        active--;
      }
    };
    const taskFn: any = (item: any) => {
      const i = data.indexOf(item) >= 0 ? data.indexOf(item) : item?.id ? Number(String(item.id).slice(5)) : -1;
      const k = c.items[i]?.task;
      if (k?.sync) {
        active++;
        t.maxActive = Math.max(t.maxActive, active);
        const sc = trace.getActiveSpan()?.spanContext();
        t.taskCalls.push({ item: i, active, spanId: sc?.spanId, traceId: sc?.traceId, at: clock.now });
        active--;
        if ("err" in k.res) throw errOf(k.res.err);
        return Promise.resolve(k.res.ok);
      }
      return body(item);
    };
    const evOutOf = async (o: { lat: number; out: EvOut }) => {
      if (o.lat) await clock.sleep(o.lat);
      if (o.out.k === "one") return o.out.e;
      if (o.out.k === "many") return o.out.es;
      throw errOf(o.out.err);
    };
    // evaluators learn which item they judge from the params alone; the harness finds it via the identity of the call order
    const evaluators = Array.from({ length: c.nEval }, (_, j) => {
      const f: any = (params: any) => {
        const call: any = { item: -1, ev: j, params };
        t.evalCalls.push(call);
        // inputs need not be unique: pick an item with equal data that has not been judged by this evaluator yet
        const cands = data.map((d, i) => i).filter((i) => matches(t, i, params) && !t.evalCalls.some((e) => e !== call && e.ev === j && e.item === i));
        ensure(cands.length > 0, () => `evaluator ${j} called with data of no unjudged item: ${show(params)}`);
        // prefer the candidate other evaluators have already seen as the same params object is not shared; any equal item will do
        call.item = cands[0];
        const o = c.items[call.item].evals[j];
        if (o.out.k === "throw") throw errOf(o.out.err);
        return evOutOf(o);
      };
      return f;
    });
    const runEvaluators = c.runEvals.map((o: any, i: number) => (p: any) => {
      t.runEvalCalls.push({ i, itemResults: p.itemResults });
      if (o.out.k === "throw") throw errOf(o.out.err);
      return evOutOf(o);
    });
    const params: any = { name: c.name ?? "exp", task: taskFn };
    // a version given with the call takes precedence over the one the dataset or context was created with
    if (c.callVersion) params.datasetVersion = c.callVersion;
    if (c.nEval) params.evaluators = evaluators;
    if (c.runEvals.length) params.runEvaluators = runEvaluators;
    if (c.maxConcurrency !== undefined) params.maxConcurrency = c.maxConcurrency;
    if (c.runName !== undefined) params.runName = c.runName;
    if (c.desc !== undefined) params.description = c.desc;
    if (c.meta !== undefined) params.metadata = c.meta;
    const go = async () => {
      if (c.via === "dataset") {
        const ds: any = await client.dataset.get("d", c.version ? { version: c.version } : undefined);
        data = ds.items.map((x: any) => x); // identity is not guaranteed for fetched items
        t.data = data;
        return ds.runExperiment(params);
      }
      t.data = data;
      if (c.via === "context") return new RunnerContext({ client, data, ...(c.version ? { datasetVersion: c.version } : {}) }).runExperiment(params);
      return client.experiment.run({ ...(c.version ? { datasetVersion: c.version } : {}), ...params, data });
    };
    if (c.start) await clock.advance(c.start);
    t.startedAt = clock.now;
    let p: Promise<any>;
    const scoped = () => (c.scope ? propagateAttributes(c.scope, go) : go());
    if (c.outer) {
      p = startActiveObservation("outer", async (o) => { t.outerIds = { id: o.id, traceId: o.traceId }; return scoped(); });
    } else p = scoped();
    try {
      t.result = await clock.drive(p, { what: "experiment" });
    } catch (e: any) {
      if (e instanceof Stuck) fail(e.message);
      fail(`experiment rejected: ${show(e?.stack ?? e)}`);
    }
    t.scoresAtResolve = t.scores.length;
    same(active, 0, "tasks still running when the experiment resolved");
    await clock.drive(processor.forceFlush());
    await clock.settle();
    t.spans = exporter.spans;
    return t;
  });
}
/** params equal what an evaluator of item i has to receive */
import { deepEqual } from "./runner";
export function matches(t: Trace, i: number, p: any) {
  const it = t.c.items[i];
  if ("err" in it.task.res || it.input === undefined) return false;
  return deepEqual(p.input, it.input) && deepEqual(p.expectedOutput, it.expected) && deepEqual(p.metadata, it.meta) && deepEqual(p.output, it.task.res.ok);
}
export const okItems = (c: any) => c.items.map((it: any, i: number) => i).filter((i: number) => c.items[i].input !== undefined && !("err" in c.items[i].task.res));
export const evalsOf = (o: { out: EvOut }): Ev[] => (o.out.k === "one" ? [o.out.e] : o.out.k === "many" ? o.out.es : []);

// ---------- several experiments on one client: side by side, or started from inside a task of another one
export const togetherArb = fc.record({
  exps: fc.array(fc.record({ items: fc.array(fc.record({ lat, evLat: lat, fail: fc.constantFrom(false, false, false, true), link: fc.constantFrom("ok", "ok", "ok", "400") }), { minLength: 1, maxLength: 6 }), hosted: fc.boolean(), conc: fc.constantFrom(undefined, 1, 2, 3), startAt: lat, nestedIn: fc.option(fc.nat(5), { nil: undefined, freq: 2 }), runEval: fc.boolean() }), { minLength: 2, maxLength: 4 }),
  ingestLat: lat,
});
export interface Together { c: any; results: any[]; taskCalls: { e: number; i: number; spanId: string; traceId: string }[]; links: Req[]; scores: any[]; spans: any[]; overlapped: boolean; ok: (e: number) => number[]; ran: boolean[] }
export async function runTogether(c: any): Promise<Together> {
  const clock = useClock();
  return isolated(async () => {
    const { exporter, processor } = makeTracing();
    const t: Together = { c, results: [], taskCalls: [], links: [], scores: [], spans: [], overlapped: false, ok: (e) => c.exps[e].items.map((_: any, i: number) => i).filter((i: number) => !c.exps[e].items[i].fail), ran: [] };
    const seen = new Set<string>();
    new FakeNet((r) => {
      if (r.path === "/api/public/dataset-run-items") {
        t.links.push(r);
        const [e, i] = String(r.json.datasetItemId).slice(5).split("-").map(Number);
        if (c.exps[e].items[i].link === "400") return { status: 400, json: {} };
        return { json: { id: `ri-${e}-${i}`, datasetRunId: `run-${e}`, datasetRunName: r.json.runName, datasetItemId: r.json.datasetItemId, traceId: r.json.traceId } , delay: (e + i) % 3 };
      }
      if (r.path === "/api/public/ingestion") {
        for (const e of r.json.batch) if (!seen.has(e.id)) { seen.add(e.id); t.scores.push(e.body); }
        return { status: 207, json: { successes: [], errors: [] }, delay: c.ingestLat };
      }
      if (r.path === "/api/public/projects") return { json: { data: [{ id: "proj-1", name: "p" }] } };
      return fail(`unexpected request ${r.method} ${r.url}`);
    }).install();
    const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
    let running = 0;
    const start = async (e: number): Promise<any> => {
      const x = c.exps[e];
      t.ran[e] = true;
      if (x.startAt) await clock.sleep(x.startAt);
      const data = x.items.map((_: any, i: number) => ({ ...(x.hosted ? { id: `item-${e}-${i}`, datasetId: `ds-${e}`, datasetName: `d${e}`, status: "ACTIVE" } : {}), input: `in-${e}-${i}`, expectedOutput: `exp-${e}-${i}` }));
      running++;
      if (running > 1) t.overlapped = true;
      t.results[e] = await client.experiment.run({
        name: `exp-${e}`, runName: `run name ${e}`, data, ...(x.conc ? { maxConcurrency: x.conc } : {}),
        task: async (item: any) => {
          const [te, ti] = String(item.input).slice(3).split("-").map(Number);
          ensure(te === e, `task of experiment ${e} was given an item of experiment ${te}`);
          const sc = trace.getActiveSpan()!.spanContext();
          t.taskCalls.push({ e, i: ti, spanId: sc.spanId, traceId: sc.traceId });
          const it = x.items[ti];
          if (it.lat) await clock.sleep(it.lat);
          for (let k = 1; k < c.exps.length; k++) if (k > e && c.exps[k].nestedIn !== undefined && parent(k) === e && c.exps[k].nestedIn % x.items.length === ti && !t.ran[k]) await start(k);
          if (it.fail) throw new Error("task failed");
          return `out-${e}-${ti}`;
        },
        evaluators: [async (p: any) => { const ti = Number(String(p.input).split("-")[2]); if (x.items[ti]?.evLat) await clock.sleep(x.items[ti].evLat); return { name: "match", value: p.output === p.expectedOutput?.replace("exp", "out") ? 1 : 0, comment: `for ${p.input}` }; }],
        ...(x.runEval ? { runEvaluators: [async (p: any) => ({ name: "count", value: p.itemResults.length, comment: `run of ${e}` })] } : {}),
      } as any);
      running--;
      return t.results[e];
    };
    const parent = (k: number) => k - 1;
    const tops = c.exps.map((x: any, e: number) => e).filter((e: number) => e === 0 || c.exps[e].nestedIn === undefined);
    await clock.drive(Promise.all(tops.map((e: number) => start(e))), { what: "experiments" });
    await clock.drive(processor.forceFlush());
    await clock.settle();
    t.spans = exporter.spans;
    return t;
  });
}
