import fc from "fast-check";
import { main, ensure, same, show, fail } from "../lib/runner";
import { useClock, Stuck } from "../lib/env";
import { FakeNet, type Reply } from "../lib/net";
import { makeTracing, isolated, MemExporter } from "../lib/otel";
import { endpoints, target, argsFor, pool } from "../lib/api";
import { opt } from "../lib/arbs";
import { LangfuseClient, LangfuseMedia } from "@langfuse/client";
import { LangfuseBrowserClient } from "@langfuse/browser";
import { startObservation, startActiveObservation } from "@langfuse/tracing";

// how one request fares: answered, refused, broken off, never answered
const fate = fc.oneof(
  { weight: 5, arbitrary: fc.record({ k: fc.constant("ok" as const), delay: fc.constantFrom(0, 0, 20, 900) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("refused" as const), status: fc.constantFrom(400, 401, 404, 409), delay: fc.constantFrom(0, 50) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("busy" as const), status: fc.constantFrom(408, 429, 500, 503), delay: fc.constantFrom(0, 50) }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("net" as const), delay: fc.constantFrom(0, 30) }) },
  { weight: 1, arbitrary: fc.constant({ k: "badbody" as const }) },
  { weight: 1, arbitrary: fc.constant({ k: "silent" as const }) },
);
const opArb = fc.oneof(
  { weight: 4, arbitrary: fc.record({ o: fc.constant("scores" as const), n: fc.integer({ min: 1, max: 6 }), then: fc.constantFrom("leave", "leave", "flush", "shutdown") }) },
  { weight: 4, arbitrary: fc.record({ o: fc.constant("prompt" as const), name: fc.constantFrom("p", "q"), ttl: opt(fc.constantFrom(0, 1, 60)), fallback: fc.boolean(), maxRetries: opt(fc.nat(2)), timeout: opt(fc.constantFrom(500, 4000)), wait: fc.constantFrom(0, 0, 2000, 70_000) }) },
  { weight: 3, arbitrary: fc.record({ o: fc.constant("api" as const), ep: fc.nat(endpoints.length - 1), pool, maxRetries: opt(fc.nat(2)), timeout: opt(fc.constantFrom(1, 5, 30)), abortAt: opt(fc.constantFrom(0, 10, 400)) }) },
  { weight: 2, arbitrary: fc.record({ o: fc.constant("item" as const), media: fc.nat(2) }) },
  { weight: 2, arbitrary: fc.record({ o: fc.constant("resolve" as const), n: fc.integer({ min: 1, max: 3 }) }) },
  { weight: 1, arbitrary: fc.record({ o: fc.constant("dataset" as const) }) },
  { weight: 1, arbitrary: fc.record({ o: fc.constant("url" as const) }) },
  { weight: 1, arbitrary: fc.record({ o: fc.constant("browser" as const) }) },
  { weight: 2, arbitrary: fc.record({ o: fc.constant("experiment" as const), n: fc.integer({ min: 1, max: 3 }), hosted: fc.boolean(), fail: fc.boolean() }) },
  { weight: 4, arbitrary: fc.record({ o: fc.constant("spans" as const), n: fc.integer({ min: 1, max: 4 }), media: fc.boolean(), then: fc.constantFrom("leave", "leave", "flush", "shutdown") }) },
);
const caseArb = fc.record({
  ops: fc.array(opArb, { minLength: 1, maxLength: 5 }), fates: fc.array(fate, { minLength: 1, maxLength: 6 }), together: fc.boolean(),
  flushAt: fc.constantFrom(1, 2, 3, 10, 100), interval: fc.constantFrom(0.5, 5, 600), batched: fc.boolean(), plainTimers: fc.constantFrom(false, false, false, true), exporterFails: fc.boolean(),
});
type C = any;
const refs = (i: number) => `@@@langfuseMedia:type=image/png|id=m${i}|source=bytes@@@`;
function good(r: any): Reply {
  if (r.url.startsWith("http://store.test")) return r.method === "PUT" ? { status: 200, text: "" } : { status: 200, bytes: new Uint8Array([1, 2, 3]) };
  const p: string = r.path;
  if (p.endsWith("/ingestion")) return { status: 207, json: { successes: (r.json?.batch ?? []).map((e: any) => ({ id: e.id, status: 201 })), errors: [] } };
  if (p.includes("/v2/prompts")) return { json: { name: "p", version: 3, type: "text", prompt: "hi", config: {}, labels: [], tags: [] } };
  if (p.endsWith("/dataset-items") && r.method === "GET") return { json: { data: [{ id: "i1", input: 1, datasetId: "d", mediaReferences: [] }], meta: { page: 1, limit: 50, totalItems: 1, totalPages: 1 } } };
  if (p.endsWith("/dataset-run-items")) return { json: { id: "r", datasetRunId: "run-1", datasetRunName: "x", datasetItemId: "i", traceId: "t" } };
  if (p.endsWith("/projects")) return { json: { data: [{ id: "proj", name: "n" }] } };
  if (p.endsWith("/media") && r.method === "POST") return { json: { mediaId: mediaIds.get(r.json?.sha256Hash) ?? "m1", uploadUrl: "http://store.test/up" } };
  if (p.includes("/media/") && r.method === "GET") return { json: { mediaId: p.split("/").pop(), contentType: "image/png", contentLength: 3, url: "http://store.test/dl", urlExpiry: "2030-01-01T00:00:00Z", uploadedAt: "2024-01-01T00:00:00Z" } };
  return { json: { id: "x" } };
}
const mediaIds = new Map<string, string>();

async function run(c: C) {
  const clock = useClock();
  return isolated(async () => {
    if (c.plainTimers) {
      // a platform whose timers are plain numbers (browsers, edge runtimes)
      const st = globalThis.setTimeout as any, si = globalThis.setInterval as any;
      (globalThis as any).setTimeout = (...a: any[]) => Number(st(...a));
      (globalThis as any).setInterval = (...a: any[]) => Number(si(...a));
    }
    let n = 0, broken = 0, fates = c.fates;
    const net = new FakeNet((r) => {
      const f = fates[n++ % fates.length];
      if (f.k === "silent" && r.signal) { broken++; return { hang: true }; }
      if (f.k === "net") { broken++; return { networkError: new TypeError("fetch failed"), delay: f.delay }; }
      if (f.k === "refused" || f.k === "busy") { broken++; return { status: f.status, json: { message: "no" }, delay: f.delay }; }
      if (f.k === "badbody") { broken++; return { status: 200, text: "{", headers: { "content-type": "application/json" } }; }
      return { ...good(r), delay: f.delay } as any;
    }).install();
    const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" , });
    process.env.LANGFUSE_FLUSH_AT = String(c.flushAt);
    process.env.LANGFUSE_FLUSH_INTERVAL = String(c.interval);
    const scorer = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
    const exporter = new MemExporter();
    if (c.exporterFails) exporter.plan = [{ fail: true }, {}, { delay: 700 }];
    const { processor } = makeTracing({ exporter, exportMode: c.batched ? "batched" : "immediate", flushAt: c.flushAt, flushInterval: c.interval, publicKey: "pk", secretKey: "sk" });
    const labels = new Set<string>();
    const one = async (op: any, i: number): Promise<void> => {
      labels.add(op.o);
      switch (op.o) {
        case "scores":
          for (let k = 0; k < op.n; k++) scorer.score.create({ name: "s" + k, value: k, traceId: "t" });
          if (op.then === "flush") await scorer.flush();
          if (op.then === "shutdown") await scorer.shutdown();
          labels.add("scores:" + op.then);
          return;
        case "prompt": {
          if (op.wait) await clock.sleep(op.wait);
          try {
            const p = await client.prompt.get(op.name, { cacheTtlSeconds: op.ttl, ...(op.fallback ? { fallback: "fb" } : {}), maxRetries: op.maxRetries, fetchTimeoutMs: op.timeout });
            ensure(p.prompt === "hi" || p.prompt === "fb" || p.prompt === undefined, () => `prompt ${show(p.prompt)}`);
          } catch (e) { if (op.fallback) throw e; }
          return;
        }
        case "api": {
          const e = endpoints[op.ep];
          const ac = op.abortAt !== undefined ? new AbortController() : undefined;
          const p = target(client.api, e)[e.name](...structuredClone(argsFor(e, op.pool).args), { maxRetries: op.maxRetries, timeoutInSeconds: op.timeout, ...(ac ? { abortSignal: ac.signal } : {}) });
          const done = Promise.resolve(p).catch(() => {});
          if (ac) { await Promise.race([clock.sleep(op.abortAt), done]); ac.abort(); labels.add("abort"); }
          await done;
          return;
        }
        case "item": {
          const media = (k: number) => new LangfuseMedia({ source: "bytes", contentBytes: Buffer.from(`m${i}${k}`), contentType: "image/png" });
          const list = Array.from({ length: op.media }, (_, k) => media(k));
          for (const m of list) mediaIds.set((m as any)._contentSha256Hash ?? (m as any).contentSha256Hash, (await m.getId())!);
          await client.dataset.createItem({ datasetName: "d", input: { list } }).catch(() => {});
          return;
        }
        case "resolve": await client.media.resolveReferences({ obj: Array.from({ length: op.n }, (_, k) => refs(k)), resolveWith: "base64DataUri" }).catch(() => {}); return;
        case "dataset": await client.dataset.get("d").catch(() => {}); return;
        case "url": await client.getTraceUrl("t").catch(() => {}); return;
        case "browser": await new LangfuseBrowserClient({ publicKey: "pk", baseUrl: "http://lf.test" }).score({ name: "b", value: 1, traceId: "t" }).catch(() => {}); return;
        case "experiment": {
          const data: any[] = Array.from({ length: op.n }, (_, k) => ({ input: k, expectedOutput: k, ...(op.hosted ? { id: "i" + k, datasetId: "d" } : {}) }));
          await client.experiment.run({ name: "e", data, task: async (it: any) => { await clock.sleep(5); if (op.fail && it.input === 0) throw new Error("task"); return it.input; }, evaluators: [async () => ({ name: "ev", value: 1 })], runEvaluators: [async () => ({ name: "rv", value: 1 })] } as any);
          return;
        }
        case "spans":
          for (let k = 0; k < op.n; k++) {
            if (k % 2) startActiveObservation("a", (o: any) => { o.update({ output: k }); });
            else startObservation("b", { input: op.media ? { f: "data:image/png;base64,AAA" + "BCDE"[k] } : k }).end();
          }
          // (OpenTelemetry itself rejects a batched flush whose export failed)
          if (op.then === "flush") await processor.forceFlush().catch((e: unknown) => { if (!c.exporterFails) throw e; });
          if (op.then === "shutdown") await processor.shutdown().catch((e: unknown) => { if (!c.exporterFails) throw e; });
          labels.add("spans:" + op.then);
      }
    };
    const guard = async (p: Promise<any>, what: string) => {
      try { await clock.drive(p, { what }); } catch (e: any) { fail(e instanceof Stuck ? e.message : `${what} failed: ${show(e?.stack ?? e)}`); }
    };
    if (c.together) await guard(Promise.all(c.ops.map(one)), show(c.ops.map((o: any) => o.o)));
    else for (let i = 0; i < c.ops.length; i++) await guard(one(c.ops[i], i), c.ops[i].o);
    // work that goes on in the background (retries, batches, uploads) gets its time and its answers
    fates = [{ k: "ok", delay: 0 }];
    for (let i = 0; i < 40 && net.inFlight > 0; i++) await clock.advance(2000);
    same(net.inFlight, 0, "requests never broken off"); 
    await clock.advance(25_000);
    for (let i = 0; i < 40 && net.inFlight > 0; i++) await clock.advance(2000);
    if (!c.plainTimers) {
      const left = clock.holding();
      ensure(left.length === 0, () => `everything the application asked for is done, but ${left.length} timer(s) (${show(left)} ms) keep the process alive`);
    }
    return { nontrivial: net.reqs.length > 0 || labels.has("scores:leave") || labels.has("spans:leave"), labels: [...labels, broken > 0 && "faults", c.plainTimers && "plain timers", c.together && "concurrent", c.batched && "batched"] };
  });
}
main({
  assumptions: ["the harness counts timers only: the SDK opens no sockets of its own besides fetch", "application code (tasks, exporters, masks) leaves nothing pending itself"],
  subs: [{ name: "quiet", arb: caseArb, run, quick: 3000, thorough: 60_000, rule: "at least one request was made, or scores or spans were left to be sent in the background" }],
});
