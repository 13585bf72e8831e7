import fc from "fast-check";
import nodeCrypto from "node:crypto";
import { main, ensure, same, fail, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, isolated, trace, ROOT_CONTEXT, type SpanRec } from "../lib/otel";
import { startObservation } from "@langfuse/tracing";

type Op =
  | { t: "start"; kind: "sdk" | "genai" | "other" | "child" | "remote"; type: string; of: number; media: boolean; io: boolean; times: boolean; endNow: boolean; extra: number }
  | { t: "end"; i: number; twice: boolean; at: boolean }
  | { t: "burst"; n: number }
  | { t: "flush"; wait: boolean }
  | { t: "advance"; ms: number };
const opArb: fc.Arbitrary<Op> = fc.oneof(
  { weight: 4, arbitrary: fc.record({ t: fc.constant("start" as const), kind: fc.constantFrom("sdk" as const, "sdk" as const, "genai" as const, "other" as const, "child" as const, "child" as const, "remote" as const), type: fc.constantFrom("span", "span", "generation", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding"), of: fc.nat(9), media: fc.boolean(), io: fc.boolean(), times: fc.boolean(), endNow: fc.boolean(), extra: fc.nat(7) }) },
  { weight: 5, arbitrary: fc.record({ t: fc.constant("end" as const), i: fc.nat(9), twice: fc.boolean(), at: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("burst" as const), n: fc.oneof({ weight: 20, arbitrary: fc.integer({ min: 2, max: 30 }) }, { weight: 1, arbitrary: fc.constantFrom(100, 511, 513, 700) }) }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("flush" as const), wait: fc.boolean() }) },
  { weight: 3, arbitrary: fc.record({ t: fc.constant("advance" as const), ms: fc.constantFrom(1, 3, 10, 60, 400, 1000, 1500, 5001) }) },
) as any;
const caseArb = fc.record({
  mode: fc.constantFrom("immediate" as const, "batched" as const),
  flushAt: fc.option(fc.constantFrom(1, 2, 3, 5, 20), { nil: undefined }),
  interval: fc.option(fc.constantFrom(0.01, 0.5, 1, 5), { nil: undefined }),
  filter: fc.constantFrom("default" as const, "custom" as const),
  mask: fc.constantFrom("none" as const, "sync" as const, "async" as const),
  maskPlan: fc.array(fc.record({ delay: fc.constantFrom(0, 1, 5, 50, 700, 3000, 12_000, 45_000), fail: fc.constantFrom("no" as const, "no" as const, "no" as const, "throw" as const, "reject" as const, "weird" as const) }), { maxLength: 8 }),
  media: fc.boolean(),
  mediaPlan: fc.array(fc.record({ delay: fc.constantFrom(0, 2, 30, 900, 9000), kind: fc.constantFrom("ok" as const, "ok" as const, "dup" as const, "400" as const, "500" as const, "net" as const, "put500" as const, "mismatch" as const, "patch500" as const) }), { maxLength: 6 }),
  exportPlan: fc.array(fc.record({ delay: fc.constantFrom(0, 0, 1, 20, 300, 2000, 12_000), fail: fc.oneof({ weight: 5, arbitrary: fc.constant(false) }, { weight: 1, arbitrary: fc.constant(true) }) }), { maxLength: 6 }),
  ops: fc.array(opArb, { minLength: 4, maxLength: 24, size: "max" }),
  tail: fc.constantFrom("flush" as const, "shutdown" as const, "providerShutdown" as const, "providerFlush" as const),
});
type Case = typeof caseArb extends fc.Arbitrary<infer T> ? T : never;

const FULL = "<fully masked due to failed mask function>";

async function run(c: Case) {
  const clock = useClock();
  if (c.interval !== undefined) process.env.LANGFUSE_FLUSH_INTERVAL = String(c.interval);
  let mi = 0;
  const maskFails = new Set<string>(); // data whose mask failed
  const fate = new Map<string, string>();
  const maskBody = (data: any) => {
    const p = c.maskPlan[mi++] ?? { delay: 0, fail: "no" };
    return { p, out: `M<${data}>` };
  };
  const boom = (k: string) => {
    if (k === "weird") throw Object.create(null);
    throw new Error("mask failed");
  };
  const mask =
    c.mask === "none"
      ? undefined
      : c.mask === "sync"
        ? ({ data }: any) => {
            const { p, out } = maskBody(data);
            if (p.fail !== "no") {
              fate.set(data, FULL);
              boom(p.fail);
            }
            fate.set(data, out);
            return out;
          }
        : async ({ data }: any) => {
            const { p, out } = maskBody(data);
            fate.set(data, p.fail !== "no" ? FULL : out);
            if (p.fail === "throw") boom(p.fail);
            if (p.delay) await clock.sleep(p.delay);
            if (p.fail !== "no") boom(p.fail);
            return out;
          };
  let ui = 0;
  const plans = new Map<string, any>();
  const idOf = (sha: string) => sha.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
  const net = new FakeNet((req) => {
    if (req.method === "POST" && req.path === "/api/public/media") {
      const id = idOf(req.json.sha256Hash);
      const p = c.mediaPlan[ui++] ?? { delay: 0, kind: "ok" };
      plans.set(id, p);
      switch (p.kind) {
        case "dup": return { json: { mediaId: id, uploadUrl: null }, delay: p.delay };
        case "400": return { status: 400, json: {}, delay: p.delay };
        case "500": return { status: 500, json: {}, delay: p.delay };
        case "net": return { networkError: new TypeError("fetch failed"), delay: p.delay };
        case "mismatch": return { json: { mediaId: "nope", uploadUrl: "http://up.test/" + id }, delay: p.delay };
        default: return { json: { mediaId: id, uploadUrl: "http://up.test/" + id }, delay: p.delay };
      }
    }
    if (req.method === "PUT") {
      const p = plans.get(req.path.slice(1)) ?? {};
      return { status: p.kind === "put500" ? 503 : 200, text: "", delay: p.delay };
    }
    if (req.method === "PATCH") {
      const p = plans.get(req.path.split("/").pop()!) ?? {};
      return { status: p.kind === "patch500" ? 500 : 200, json: {}, delay: p.delay };
    }
    fail(`unexpected request ${req.method} ${req.url}`);
  }).install();

  const { exporter, processor, provider } = makeTracing({
    exportMode: c.mode,
    flushAt: c.flushAt,
    mask,
    mediaUploadEnabled: c.media,
    ...(c.filter === "custom" ? { shouldExportSpan: ({ otelSpan }: any) => otelSpan.attributes["keep"] !== false } : {}),
  });
  exporter.plan = c.exportPlan.map((p) => ({ ...p }));

  interface S { obs?: any; span: any; name: string; accepted: boolean; ended: boolean; attrs: Record<string, any>; parent?: string; dataUri?: string; start?: number; end?: number; status?: any; events?: string[] }
  const spans: S[] = [];
  const otherTracer = trace.getTracer("my-db-library");
  const seen = new Set<string>();
  let awaitingPending = 0;
  const byId = () => new Map(spans.map((x) => [x.span.spanContext().spanId, x]));
  const verify = (must: S[], when: string) => {
    const count = new Map<string, number>();
    for (const r of exporter.spans) count.set(r.spanId, (count.get(r.spanId) ?? 0) + 1);
    for (const s of must) same(count.get(s.span.spanContext().spanId) ?? 0, 1, `number of exports of span "${s.name}" ${when}`);
    const idx = byId();
    for (const [id, n] of count) {
      const s = idx.get(id);
      ensure(s, `exported a span nobody created (${id})`);
      ensure(n === 1, `span "${s!.name}" exported ${n} times`);
      ensure(s!.ended, `span "${s!.name}" exported before it ended`);
      ensure(s!.accepted, `span "${s!.name}" exported although the filter rejects it`);
    }
  };
  const flushes: Promise<void>[] = [];
  const doFlush = (how: () => Promise<void>, what: string) => {
    const must = spans.filter((s) => s.ended && s.accepted);
    const have = new Set(exporter.spans.map((r) => r.spanId));
    if (must.some((s) => !have.has(s.span.spanContext().spanId))) awaitingPending++;
    const p = how().then(
      () => verify(must, `when ${what} resolved`),
      // the OpenTelemetry provider gives up on a flush after 30 s of its own accord
      (e: any) => ensure((what === "providerFlush" && /within timeout period of 30000/.test(String(e?.message ?? e))) || c.exportPlan.some((x) => x.fail) && /export failed/.test(String(e?.message ?? e)), () => `${what} rejected: ${String(e)}`),
    );
    flushes.push(p);
    return p;
  };

  await isolated(async () => {
    let n = 0;
    for (const o of c.ops) {
      if (o.t === "advance") await clock.advance(o.ms);
      else if (o.t === "flush") {
        const p = doFlush(() => processor.forceFlush(), "flush");
        if (o.wait) await clock.drive(p, { maxMs: 3600_000, what: "flush" });
      } else if (o.t === "burst") {
        if (spans.length + o.n > 1200) continue;
        for (let k = 0; k < o.n; k++) {
          const name = "s" + n++;
          const obs = startObservation(name, { output: "out-" + name });
          const rec: S = { obs, span: obs.otelSpan, name, accepted: true, ended: true, attrs: { "langfuse.observation.type": "span", "langfuse.observation.output": "out-" + name } };
          spans.push(rec);
          obs.end();
        }
      } else if (o.t === "start") {
        const name = "s" + n++;
        const attrs: Record<string, any> = {};
        const dataUri = o.media ? `data:image/png;base64,${Buffer.from("bytes-" + name).toString("base64")}` : undefined;
        const input = o.io || o.media ? `in-${name} ${dataUri ?? ""} tail` : undefined;
        const output = o.io ? `out-${name}` : undefined;
        const startTime = o.times ? new Date(clock.now - 5000) : undefined;
        let span: any, obs: any, parent: string | undefined;
        if (o.kind === "remote") {
          // the parent lives in another process
          parent = "0123456789abcdef";
          obs = startObservation(name, { input, output, metadata: o.io ? { m: "meta-" + name } : undefined }, { startTime, asType: o.type as any, parentSpanContext: { traceId: "0123456789abcdef0123456789abcde" + (o.of % 3), spanId: parent, traceFlags: 1, isRemote: true } });
          span = obs.otelSpan;
        } else if (o.kind === "sdk" || (o.kind === "child" && !spans.some((s) => s.obs))) {
          obs = startObservation(name, { input, output, metadata: o.io ? { m: "meta-" + name } : undefined }, { startTime, asType: o.type as any });
          span = obs.otelSpan;
        } else if (o.kind === "child") {
          const ps = spans.filter((s) => s.obs);
          const par = ps[o.of % ps.length];
          parent = par.span.spanContext().spanId;
          obs = startObservation(name, { input, output, metadata: o.io ? { m: "meta-" + name } : undefined }, { startTime, asType: o.type as any, parentSpanContext: par.span.spanContext() });
          span = obs.otelSpan;
        } else {
          span = otherTracer.startSpan(name, { attributes: o.kind === "genai" ? { "gen_ai.system": "x" } : { foo: "bar" }, startTime, kind: o.of % 5, ...(o.of > 6 ? { links: [{ context: { traceId: "0123456789abcdef0123456789abcdef", spanId: "0123456789abcdef", traceFlags: 1 } }] } : {}) }, ROOT_CONTEXT);
        }
        // status and events must not influence whether a span leaves, and leave with it
        const status = o.extra & 1 ? { code: o.extra & 2 ? 2 : 1, ...(o.extra & 2 ? { message: "went wrong" } : {}) } : { code: 0 };
        if (status.code) span.setStatus(status);
        if (o.extra & 4) { span.addEvent("ev", { a: 1 }); span.recordException(new Error("ex")); }
        if (c.filter === "custom" && o.of % 3 === 0) span.setAttribute("keep", false);
        const accepted = c.filter === "custom" ? o.of % 3 !== 0 : o.kind !== "other";
        if (obs) {
          attrs["langfuse.observation.type"] = o.type;
          if (input !== undefined) attrs["langfuse.observation.input"] = input;
          if (output !== undefined) attrs["langfuse.observation.output"] = output;
          if (o.io) attrs["langfuse.observation.metadata.m"] = "meta-" + name;
        } else Object.assign(attrs, o.kind === "genai" ? { "gen_ai.system": "x" } : { foo: "bar" });
        const rec: S = { obs, span, name, accepted, ended: false, attrs, parent, dataUri: obs ? dataUri : undefined, start: startTime?.getTime(), status, events: o.extra & 4 ? ["ev", "exception"] : [] };
        spans.push(rec);
        if (o.endNow) {
          rec.ended = true;
          (obs ?? span).end();
        }
      } else if (o.t === "end") {
        const open = spans.filter((s) => !s.ended);
        if (!open.length) continue;
        const s = open[o.i % open.length];
        const at = o.at ? new Date(clock.now + 250) : undefined;
        s.ended = true;
        s.end = at?.getTime();
        if (s.obs) s.obs.end(at);
        else s.span.end(at);
        if (o.twice) {
          if (s.obs) s.obs.end();
          else s.span.end();
        }
      }
    }
  });
  await clock.drive(
    doFlush(
      () => (c.tail === "flush" ? processor.forceFlush() : c.tail === "shutdown" ? processor.shutdown() : c.tail === "providerFlush" ? provider.forceFlush() : provider.shutdown()),
      c.tail,
    ),
    { maxMs: 3600_000, what: c.tail },
  );
  for (const f of flushes) await clock.drive(f, { maxMs: 3600_000, what: "concurrent flush" });
  await clock.settle(600_000);
  // final state: everything that ended and is accepted was exported once, with the right data
  verify(spans.filter((s) => s.ended && s.accepted), "at the end");
  const all = byId();
  for (const r of exporter.spans) {
    const s = all.get(r.spanId)!;
    same(r.name, s.name, "exported name");
    same(r.parentId, s.parent, `parent of ${s.name}`);
    if (s.start !== undefined) same(r.startMs, s.start, `start time of ${s.name}`);
    if (s.end !== undefined) same(r.endMs, Math.max(s.end, r.startMs), `end time of ${s.name}`);
    same(r.status, s.status ?? { code: 0 }, `status of ${s.name}`);
    same(r.events.map((e: any) => e.name), s.events ?? [], `events of ${s.name}`);
    const want = { ...s.attrs };
    for (const k of Object.keys(want)) {
      if (!/^langfuse\.observation\.(input|output|metadata)/.test(k)) continue;
      if (c.mask !== "none") {
        const f = fate.get(want[k]);
        ensure(f !== undefined, `attribute ${k} of ${s.name} was exported without being masked`);
        want[k] = f;
      }
      if (c.media && s.dataUri && typeof want[k] === "string") {
        const b = Buffer.from(s.dataUri.split(",")[1], "base64");
        const id = idOf(nodeCrypto.createHash("sha256").update(b).digest("base64"));
        want[k] = want[k].replaceAll(s.dataUri, `@@@langfuseMedia:type=image/png|id=${id}|source=base64_data_uri@@@`);
      }
    }
    const got = { ...r.attributes };
    delete got["langfuse.internal.is_app_root"];
    ensure(deepEqual(got, want), () => `attributes of ${s.name}: expected ${show(want)}, exported ${show(got)}`);
  }
  const nExp = exporter.spans.length;
  return { nontrivial: nExp >= 2 && awaitingPending > 0, labels: [c.mode, "mask:" + c.mask, c.media && net.reqs.length > 0 && "media uploads", "tail:" + c.tail, exporter.calls > 0 && c.exportPlan.slice(0, exporter.calls).some((p) => p.fail) && "failing exporter", flushes.length > 1 && "several flushes"] };
}

// more than a thousand spans waiting for a slow mask when flush is called
const crowdArb = fc.record({ n: fc.integer({ min: 1001, max: 1990 }), delays: fc.array(fc.constantFrom(1, 20, 800, 20_000), { minLength: 1, maxLength: 4 }), mode: fc.constantFrom("immediate" as const, "batched" as const), shutdown: fc.boolean(), failEvery: fc.constantFrom(0, 7) });
async function runCrowd(c: any) {
  const clock = useClock();
  let k = 0;
  const { exporter, processor } = makeTracing({ exportMode: c.mode, mediaUploadEnabled: false, mask: async ({ data }: any) => {
    const i = k++;
    await clock.sleep(c.delays[i % c.delays.length]);
    if (c.failEvery && i % c.failEvery === 0) throw new Error("mask failed");
    return data;
  } });
  await isolated(async () => {
    for (let i = 0; i < c.n; i++) startObservation("s" + i, { output: "out-" + i }).end();
  });
  await clock.drive(c.shutdown ? processor.shutdown() : processor.forceFlush(), { maxMs: 3600_000, what: "flush" });
  const names = exporter.spans.map((r) => r.name);
  same(names.length, c.n, "spans exported when flush resolved");
  same(new Set(names).size, c.n, "distinct spans exported when flush resolved");
  return { nontrivial: true };
}

main({
  subs: [
    { name: "histories", arb: caseArb, run, quick: 8000, thorough: 80_000, rule: "history of span starts, ends, clock steps and overlapping flushes with delayed/failing mask, media server and exporter; non-trivial = at least two spans exported and at least one flush called while accepted spans were still unexported", minNontrivial: 0.2 },
    { name: "crowd", arb: crowdArb, run: runCrowd, quick: 12, thorough: 300, rule: "1001-1990 ended spans waiting for a slow mask when flush or shutdown is called" },
  ],
  assumptions: ["fewer spans than the OpenTelemetry queue limit (2048)", "sampled spans", "spans end before the processor is shut down"],
});
