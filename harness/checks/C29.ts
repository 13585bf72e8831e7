import fc from "fast-check";
import { main, ensure, same, show, fail } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated, trace } from "../lib/otel";
import { LangfuseVercelAiSdkIntegration } from "@langfuse/vercel-ai-sdk";
import { propagateAttributes, startActiveObservation } from "@langfuse/tracing";
import { OpenTelemetry } from "@ai-sdk/otel";
import { generateText, streamText, embed, stepCountIs, tool, jsonSchema } from "ai";
import { MockLanguageModelV4, MockEmbeddingModelV4, simulateReadableStream } from "ai/test";
import { jsonValue, ident, key, anyString } from "../lib/arbs";

const META = "langfuse.observation.metadata.";
const PN = "langfuse.observation.prompt.name", PV = "langfuse.observation.prompt.version";

// ---------- context values, including ones that cannot be serialised
const SPECIAL = ["undefined", "null", "cyclic", "bigint", "function", "symbol", "date", "map", "badToJSON", "nan", "empty", "longtext"] as const;
const special = (s: string): any => {
  switch (s) {
    case "undefined": return undefined;
    case "null": return null;
    case "cyclic": { const o: any = { a: 1 }; o.o = o; return o; }
    case "bigint": return { n: 10n };
    case "function": return () => 1;
    case "symbol": return Symbol("x");
    case "date": return new Date(5);
    case "map": return new Map([["a", 1]]);
    case "badToJSON": return { toJSON() { throw new Error("no"); } };
    case "nan": return NaN;
    case "empty": return "";
    default: return "x".repeat(3000);
  }
};
const ctxKey = key.filter((k) => k !== "langfusePrompt" && k !== "" && !["__proto__"].includes(k));
const ctxVal = fc.oneof({ weight: 4, arbitrary: jsonValue(2).map((v) => ({ j: v })) }, { weight: 2, arbitrary: fc.constantFrom(...SPECIAL).map((s) => ({ s })) });
const promptArb = fc.oneof(
  { weight: 4, arbitrary: fc.record({ name: anyString, version: fc.nat(50), isFallback: fc.constantFrom(false, true, undefined, "yes", null) as any, extra: jsonValue(0) }, { requiredKeys: ["name", "version"] }) },
  { weight: 2, arbitrary: fc.constantFrom({ name: "x" }, { version: 1 }, { name: "x", version: "1" }, { name: 5, version: 1 }, [], ["a"], "text", 5, null, true, {}, { name: null, version: null }) as any },
  { weight: 1, arbitrary: fc.record({ cls: fc.constant(true), name: ident, version: fc.nat(9) }) },
);
const ctxArb = fc.option(fc.record({ values: fc.dictionary(ctxKey, ctxVal, { maxKeys: 4, noNullPrototype: true }), many: fc.oneof({ weight: 6, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: 20, max: 300 }) }), prompt: fc.option(promptArb, { nil: undefined }) }), { nil: undefined, freq: 5 });
class PromptLike { constructor(private n: string, private v: number) {} get name() { return this.n; } get version() { return this.v; } isFallback = false; compile() {} }
const build = (c: any) => {
  if (!c) return undefined;
  const o: any = {};
  for (const [k, v] of Object.entries<any>(c.values)) o[k] = "j" in v ? v.j : special(v.s);
  for (let i = 0; i < (c.many ?? 0); i++) o[`entry ${i}`] = i % 3 ? i : { at: i };
  if (c.prompt !== undefined) o.langfusePrompt = c.prompt?.cls ? new PromptLike(c.prompt.name, c.prompt.version) : c.prompt;
  return o;
};
/** what the integration has to add: null stands for "some text" */
function expected(ctx: any, model: boolean): Record<string, any> {
  const out: Record<string, any> = {};
  if (!ctx) return out;
  const p = ctx.langfusePrompt;
  if (model && p && typeof p === "object" && !Array.isArray(p) && typeof p.name === "string" && typeof p.version === "number" && p.isFallback !== true) { out[PN] = p.name; out[PV] = p.version; }
  for (const [k, v] of Object.entries<any>(ctx)) {
    if (k === "langfusePrompt") continue;
    let s: any;
    try { s = typeof v === "string" ? v : v == null ? undefined : JSON.stringify(v); } catch { s = null; }
    if (s !== undefined) out[META + k] = s;
  }
  return out;
}
function checkExtra(got: Record<string, any>, want: Record<string, any>, what: string) {
  for (const [k, v] of Object.entries(want)) {
    if (v === null) ensure(typeof got[k] === "string" && got[k].length > 0, () => `${what}: ${show(k)} missing`);
    else same(got[k], v, `${what}: ${show(k)}`);
  }
  for (const k of Object.keys(got)) ensure(k in want, () => `${what}: unexpected attribute ${show(k)} = ${show(got[k])}`);
}
const added = (a: Record<string, any>) => Object.fromEntries(Object.entries(a).filter(([k]) => k.startsWith(META.slice(0, -1)) || k === PN || k === PV));
const rest = (a: Record<string, any>) => Object.fromEntries(Object.entries(a).filter(([k]) => !(k.startsWith(META.slice(0, -1)) || k === PN || k === PV)));

// ---------- 1. attributes for every kind of span
const TYPES = ["operation", "step", "languageModel", "tool", "embedding", "reranking"];
async function runEnrich(c: any) {
  let self: any;
  const orig = OpenTelemetry.prototype.onStart;
  OpenTelemetry.prototype.onStart = function (this: any) { self = this; } as any;
  try { new LangfuseVercelAiSdkIntegration().onStart({ callId: "x" } as any); } finally { OpenTelemetry.prototype.onStart = orig; }
  ensure(typeof self?.enrichSpan === "function", "the integration enriches no spans");
  const ctx = build(c.ctx);
  for (const t of TYPES) {
    let got: any;
    try { got = self.enrichSpan({ spanType: t, operationId: "o", callId: "c", runtimeContext: ctx }); } catch (e) { fail(`enriching a ${t} span threw ${show(e)}`); }
    checkExtra(got ?? {}, expected(ctx, ["languageModel", "embedding", "reranking"].includes(t)), `${t} span`);
  }
  return { nontrivial: c.ctx !== undefined && (Object.keys(c.ctx.values).length > 0 || c.ctx.prompt !== undefined), labels: [c.ctx?.prompt !== undefined && "prompt"] };
}

// ---------- 2. event histories, differentially against the standard telemetry
const CBS = ["onStart", "onStepStart", "onLanguageModelCallStart", "onLanguageModelCallEnd", "onToolExecutionStart", "onToolExecutionEnd", "onStepEnd", "onObjectStepStart", "onObjectStepEnd", "onEmbedStart", "onEmbedEnd", "onRerankStart", "onRerankEnd", "onEnd", "onAbort", "onError", "executeTool", "executeLanguageModelCall"];
const FLOWS: Record<string, string[]> = {
  "ai.generateText": ["onStart", "onStepStart", "onLanguageModelCallStart", "executeLanguageModelCall", "onLanguageModelCallEnd", "onToolExecutionStart", "executeTool", "onToolExecutionEnd", "onStepEnd", "onEnd"],
  "ai.streamText": ["onStart", "onStepStart", "onLanguageModelCallStart", "onLanguageModelCallEnd", "onStepEnd", "onStepStart", "onLanguageModelCallStart", "executeLanguageModelCall", "onLanguageModelCallEnd", "onStepEnd", "onEnd"],
  "ai.generateObject": ["onStart", "onObjectStepStart", "onObjectStepEnd", "onEnd"],
  "ai.embed": ["onStart", "onEmbedStart", "onEmbedEnd", "onEnd"],
  "ai.rerank": ["onStart", "onRerankStart", "onRerankEnd", "onEnd"],
};
const opArb = fc.constantFrom(...Object.keys(FLOWS));
// @ai-sdk/otel itself does not get along with cyclic contexts, so these only go through the enrichment function
const safeCtx = fc.option(fc.record({ values: fc.dictionary(ctxKey, fc.oneof({ weight: 4, arbitrary: jsonValue(2).map((v) => ({ j: v })) }, { weight: 1, arbitrary: fc.constantFrom("undefined", "null", "function", "symbol", "date", "map", "nan", "empty", "longtext").map((s) => ({ s })) }) as any, { maxKeys: 4, noNullPrototype: true }), prompt: fc.option(promptArb, { nil: undefined }) }), { nil: undefined, freq: 5 });
const callArb = fc.record({ op: opArb, ctx: safeCtx, stop: fc.constantFrom("end", "end", "end", "abort", "error"), stopAt: fc.nat(9), text: fc.string({ maxLength: 8 }), n: fc.nat(9), toolFail: fc.boolean(), execFail: fc.boolean() });
const histArb = fc.record({ calls: fc.array(callArb, { minLength: 1, maxLength: 3 }), mix: fc.array(fc.nat(99), { minLength: 10, maxLength: 20 }), stray: fc.array(fc.tuple(fc.constantFrom(...CBS.filter((x) => !x.startsWith("execute"))), fc.nat(3)), { maxLength: 3 }), explicitTracer: fc.boolean(), tracerName: fc.constantFrom("gen_ai", "ai", "langfuse-sdk"), parent: fc.boolean() });
const usage = (n: number) => ({ inputTokens: n, outputTokens: n + 1, totalTokens: 2 * n + 1, inputTokenDetails: { cacheReadTokens: 1 }, outputTokenDetails: {}, tokens: n });
function payload(cb: string, id: string, k: any, ctx: any): any {
  const base: any = { callId: id, operationId: k.op, provider: "prov", modelId: "mod" };
  switch (cb) {
    case "onStart": return { ...base, messages: [{ role: "user", content: k.text }], value: k.text, documents: [k.text], runtimeContext: ctx, functionId: "fn", maxRetries: 1, temperature: k.n, headers: {} };
    case "onStepStart": return { ...base, steps: [], stepToolChoice: undefined, runtimeContext: ctx };
    case "onLanguageModelCallStart": return { ...base, messages: [{ role: "user", content: k.text }], tools: undefined };
    case "onLanguageModelCallEnd": return { ...base, performance: {}, finishReason: "stop", responseId: "r", usage: usage(k.n), content: [{ type: "text", text: k.text }] };
    case "onToolExecutionStart": return { ...base, toolCall: { toolName: "t", toolCallId: "tc", input: { a: k.n } } };
    case "onToolExecutionEnd": return { ...base, toolCall: { toolName: "t", toolCallId: "tc" }, toolExecutionMs: 5, toolOutput: k.toolFail ? { type: "tool-error", error: new Error("tool " + k.n) } : { type: "tool-result", output: { r: k.n } } };
    case "onStepEnd": return { ...base, usage: usage(k.n) };
    case "onObjectStepStart": return { ...base, promptMessages: [{ role: "user", content: [{ type: "text", text: k.text }] }] };
    case "onObjectStepEnd": return { ...base, finishReason: "stop", response: { id: "r", modelId: "mod" }, usage: usage(k.n), objectText: "{}" };
    case "onEmbedStart": return { ...base, embedCallId: "e", values: [k.text] };
    case "onEmbedEnd": return { ...base, embedCallId: "e", usage: usage(k.n), embeddings: [[1]] };
    case "onRerankStart": return { ...base, documents: [k.text] };
    case "onRerankEnd": return { ...base, documentsType: "text", ranking: [] };
    case "onEnd": return { ...base, finishReason: "stop", usage: usage(k.n), text: k.text, finalStep: { reasoning: [] }, toolCalls: [], files: [], object: { a: 1 }, embedding: [1] };
    case "onAbort": return { ...base, steps: [] };
    default: return { callId: id, error: new Error("failed " + k.n) };
  }
}
// forest of spans in a canonical order (the order of export within a batch is not part of the property)
const norm = (spans: any[]) => {
  const ids = new Set(spans.map((s) => s.spanId));
  const own = (s: any): any => ({ name: s.name, root: s.parentId === undefined, status: s.status, events: s.events.map((e: any) => [e.name, e.attributes?.["exception.message"]]), start: s.startMs, end: s.endMs, scope: s.scope, attributes: Object.fromEntries(Object.entries(rest(s.attributes)).sort(([x], [y]) => (x < y ? -1 : 1))), children: kids(s.spanId) });
  const kids = (id: string | undefined) => spans.filter((s) => (id === undefined ? !ids.has(s.parentId) : s.parentId === id)).map(own).sort((x, y) => { const p = JSON.stringify(x), q = JSON.stringify(y); return p < q ? -1 : p > q ? 1 : 0; });
  return kids(undefined);
};
async function runHist(c: any) {
  const side = async (mk: (tracer: any) => any, explicit: boolean) => {
    const clock = useClock();
    return isolated(async () => {
      const { exporter, processor, provider } = makeTracing();
      const t = mk(explicit ? provider.getTracer(c.tracerName, "9.9") : undefined);
      const log: any[] = [];
      const ctxs = c.calls.map((k: any) => build(k.ctx));
      const queues = c.calls.map((k: any) => { const f = [...FLOWS[k.op]]; if (k.stop !== "end") { f.length = Math.min(f.length, 1 + k.stopAt); f.push(k.stop === "abort" ? "onAbort" : "onError"); } return f; });
      const one = async (cb: string, id: string, k: any, ctx: any) => {
        const rec: any = [cb, id];
        try {
          if (cb.startsWith("execute")) {
            let active: any;
            const val = { v: id };
            const r = await t[cb]({ callId: id, toolCallId: "tc", execute: async () => { active = trace.getActiveSpan()?.spanContext().spanId; const child = provider.getTracer("gen_ai").startSpan("inner-" + cb + id); child.end(); if (k.execFail) throw new Error("exec " + id); return val; } });
            rec.push(r === val ? "own value" : show(r), active !== undefined);
          } else { const r = t[cb](payload(cb, id, k, ctx)); rec.push(show(await r)); }
        } catch (e: any) { rec.push("threw " + (e?.message ?? e)); }
        log.push(rec);
      };
      const stray = [...c.stray];
      let i = 0;
      const body = async () => {
        while (queues.some((q: any) => q.length)) {
          const live = queues.map((q: any, n: number) => n).filter((n: number) => queues[n].length);
          const r = c.mix[i++ % c.mix.length];
          const n = live[r % live.length];
          if (stray.length && r % 7 === 0) { const [cb, sid] = stray.pop()!; await one(cb, sid < c.calls.length ? `call-${sid}` : "nobody", c.calls[0], undefined); }
          await one(queues[n].shift()!, `call-${n}`, c.calls[n], ctxs[n]);
          if (r % 3 === 0) await clock.sleep(r + 1);
        }
      };
      await clock.drive(c.parent ? (startActiveObservation("parent", () => propagateAttributes({ userId: "u1", tags: ["t"] }, body)) as any) : body());
      await clock.drive(processor.forceFlush());
      return { log, spans: exporter.spans, ctxs };
    });
  };
  const a = await side((tracer) => new OpenTelemetry({ tracer }), c.explicitTracer);
  const b = await side((tracer) => (tracer ? new LangfuseVercelAiSdkIntegration({ tracer }) : new LangfuseVercelAiSdkIntegration()), c.explicitTracer);
  same(b.log, a.log, "results of the telemetry callbacks");
  same(norm(b.spans), norm(a.spans), "spans apart from the Langfuse attributes");
  let enriched = 0;
  // each span of a text generation carries its own call's context
  for (const s of b.spans) {
    const extra = added(s.attributes);
    if (s.name === "parent" || s.name.startsWith("inner-")) { checkExtra(extra, {}, s.name); continue; }
    if (Object.keys(extra).length) enriched++;
  }
  // one call: the context is known for every span
  if (c.calls.length === 1 && c.stray.length === 0) {
    const ctx = ["ai.generateText", "ai.streamText"].includes(c.calls[0].op) ? b.ctxs[0] : undefined;
    for (const s of b.spans) {
      if (s.name === "parent" || s.name.startsWith("inner-")) continue;
      checkExtra(added(s.attributes), expected(ctx, s.name.startsWith("chat ")), s.name);
    }
  }
  return { nontrivial: b.spans.length > 1, labels: [enriched > 0 && "enriched", c.calls.length > 1 && "interleaved calls", c.stray.length > 0 && "stray events"] };
}

// ---------- 3. the real AI SDK
const sdkArb = fc.record({ ctx: safeCtx, kind: fc.constantFrom("generate", "stream", "tool", "fail", "embed"), text: fc.array(fc.string({ minLength: 1, maxLength: 6 }), { minLength: 1, maxLength: 3 }), n: fc.nat(20) });
async function runSdk(c: any) {
  const clock = useClock();
  return isolated(async () => {
    const { exporter, processor } = makeTracing();
    const usage: any = { inputTokens: { total: c.n, noCache: c.n, cacheRead: 0, cacheWrite: 0 }, outputTokens: { total: 2, text: 2, reasoning: 0 } };
    const txt = c.text.join("");
    let step = 0;
    const model = new MockLanguageModelV4({
      modelId: "m1",
      doGenerate: (async () => {
        if (c.kind === "fail") throw new Error("model down");
        if (c.kind === "tool" && step++ === 0) return { content: [{ type: "tool-call", toolCallId: "1", toolName: "calc", input: "{}" }], finishReason: { unified: "tool-calls", raw: undefined }, usage, warnings: [] };
        return { content: [{ type: "text", text: txt }], finishReason: { unified: "stop", raw: undefined }, usage, warnings: [] };
      }) as any,
      doStream: (async () => ({ stream: new ReadableStream({ start(ctl: any) { for (const x of [{ type: "stream-start", warnings: [] }, { type: "text-start", id: "1" }, ...c.text.map((d: string) => ({ type: "text-delta", id: "1", delta: d })), { type: "text-end", id: "1" }, { type: "finish", finishReason: { unified: "stop", raw: undefined }, usage }]) ctl.enqueue(x); ctl.close(); } }) })) as any,
    });
    const ctx = build(c.ctx) ?? {};
    const telemetry: any = { isEnabled: true, functionId: "fn", includeRuntimeContext: Object.fromEntries(Object.keys(ctx).map((k) => [k, true])), integrations: new LangfuseVercelAiSdkIntegration() };
    const go = async () => {
      if (c.kind === "embed") return void (await embed({ model: new MockEmbeddingModelV4({ modelId: "m1", doEmbed: (async () => ({ embeddings: [[1, 2]], usage: { tokens: 1 }, warnings: [] })) as any }) as any, value: txt, telemetry }));
      const common: any = { model, prompt: txt, runtimeContext: ctx, telemetry, maxRetries: 0 };
      if (c.kind === "stream") { let out = ""; for await (const d of streamText(common).textStream) out += d; same(out, txt, "streamed text"); return; }
      if (c.kind === "tool") common.tools = { calc: tool({ description: "d", inputSchema: jsonSchema({ type: "object", properties: {} }) as any, execute: async () => ({ r: 1 }) } as any) }, (common.stopWhen = stepCountIs(3));
      try { const r = await generateText(common); same(r.text, txt, "generated text"); } catch (e: any) { if (c.kind !== "fail") throw e; ensure(String(e.message).includes("model down"), () => `error: ${show(e.message)}`); }
    };
    await clock.drive(go(), { what: "AI SDK call" });
    await clock.settle();
    await clock.drive(processor.forceFlush());
    ensure(exporter.spans.length > 0, "no spans");
    const chats = exporter.spans.filter((s) => s.name.startsWith("chat "));
    if (c.kind !== "embed") ensure(chats.length === (c.kind === "tool" ? 2 : 1), () => `model spans: ${chats.length}`);
    const toolSpans = exporter.spans.filter((s) => s.name.startsWith("execute_tool"));
    same(toolSpans.length, c.kind === "tool" ? 1 : 0, "tool spans");
    for (const s of exporter.spans) checkExtra(added(s.attributes), c.kind === "embed" ? {} : expected(ctx, s.name.startsWith("chat ")), s.name);
    return { nontrivial: Object.keys(ctx).length > 0 && c.kind !== "embed", labels: [c.kind, ctx.langfusePrompt !== undefined && "prompt"] };
  });
}
main({
  assumptions: ["@ai-sdk/otel passes runtime context only for text generation; other span kinds are exercised through the integration's enrichment function", "context objects whose own property getters throw are not generated", "through the real AI SDK only runtime contexts are used that the SDK itself can hand over (no cycles, no values it drops)"],
  subs: [
    { name: "attributes", arb: fc.record({ ctx: ctxArb }), run: runEnrich, quick: 3000, thorough: 40000, rule: "a context with at least one entry" },
    { name: "events", arb: histArb, run: runHist, quick: 2000, thorough: 12000, rule: "more than one span" },
    { name: "ai sdk", arb: sdkArb, run: runSdk, quick: 500, thorough: 4000, rule: "a non-empty context and a text generation" },
  ],
});
