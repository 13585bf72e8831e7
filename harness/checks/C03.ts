import fc from "fast-check";
import { main, ensure, same, show } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated, trace, context, ROOT_CONTEXT } from "../lib/otel";
import { anyString } from "../lib/arbs";
import { startObservation } from "@langfuse/tracing";
import { setLangfuseTraceIdInBaggage } from "@langfuse/core";
import { isDefaultExportSpan, isKnownLLMInstrumentor, isGenAISpan, isLangfuseSpan } from "@langfuse/otel";

const KNOWN = [
  "langfuse-sdk", "agent_framework", "haystack", "langsmith", "litellm", "openinference",
  "opentelemetry.instrumentation.anthropic", "opentelemetry.instrumentation.aws_bedrock", "opentelemetry.instrumentation.bedrock",
  "opentelemetry.instrumentation.gemini", "opentelemetry.instrumentation.google_genai", "opentelemetry.instrumentation.google_generativeai",
  "opentelemetry.instrumentation.openai", "opentelemetry.instrumentation.openai_v2", "opentelemetry.instrumentation.vertex_ai",
  "opentelemetry.instrumentation.vertexai", "strands-agents", "vllm",
];
const scopeArb = fc.oneof(
  { weight: 3, arbitrary: fc.constantFrom(...KNOWN, "ai") },
  { weight: 4, arbitrary: fc.tuple(fc.constantFrom(...KNOWN, "ai"), fc.constantFrom(".", ".x", ".a.b", "x", "_v2", "-x", "/x", " ", "..", "S", ".openai")).map(([a, b]) => a + b) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom("x", ".", "my.", "@", " "), fc.constantFrom(...KNOWN, "ai")).map(([a, b]) => a + b) },
  { weight: 2, arbitrary: fc.constantFrom(...KNOWN, "ai").chain((s) => fc.nat(s.length).map((n) => s.slice(0, n))) },
  { weight: 1, arbitrary: fc.constantFrom(...KNOWN, "ai").map((s) => s.toUpperCase()) },
  { weight: 2, arbitrary: anyString },
  { weight: 1, arbitrary: fc.constantFrom("http", "express", "@opentelemetry/instrumentation-http", "openai", "pg") },
);
const attrKeyArb = fc.oneof(
  { weight: 2, arbitrary: fc.constantFrom("gen_ai.system", "gen_ai.", "gen_ai.usage.input_tokens", "gen_ai.x.y") },
  { weight: 3, arbitrary: fc.constantFrom("gen_ai", "gen_aix.y", "xgen_ai.system", "GEN_AI.system", "gen-ai.system", "ai.prompt", "llm.model", "http.method", "langfuse.observation.input", " gen_ai.x", "foo") },
  { weight: 2, arbitrary: anyString.filter((s) => s.length > 0 && s !== "__proto__") },
);
const attrsArb = fc.array(fc.tuple(attrKeyArb, fc.constantFrom<any>("v", "", 0, false, 1, true)), { maxLength: 4 });
// spans with many attributes: the deciding one may come late
const manyArb = fc.tuple(fc.integer({ min: 5, max: 60 }), attrsArb).map(([n, rest]) => [...Array.from({ length: n }, (_, i): [string, any] => [`app.attr${i}`, i]), ...rest]);
const anyAttrs = fc.oneof({ weight: 9, arbitrary: attrsArb }, { weight: 1, arbitrary: manyArb });
const oracleDefault = (scope: string, keys: string[]) =>
  scope === "ai" || KNOWN.some((k) => scope === k || scope.indexOf(k + ".") === 0) || keys.some((k) => k.slice(0, 7) === "gen_ai.");

const spanArb = fc.record({
  scope: scopeArb, sdk: fc.integer({ min: 0, max: 4 }).map((x) => x === 0), start: anyAttrs, later: anyAttrs, name: fc.constantFrom("a", "b", "keep", "drop"), rename: fc.constantFrom(undefined, "keep", "drop"),
  parent: fc.constantFrom<any>(undefined, undefined, undefined, "remote", "remote claimed", "far", 0, 1, 2), kind: fc.constantFrom(0, 0, 0, 1, 2, 3, 4), error: fc.constantFrom(false, false, true),
});
const caseArb = fc.record({
  spans: fc.array(spanArb, { minLength: 1, maxLength: 5 }),
  filter: fc.constantFrom("default" as const, "default" as const, "name" as const, "attr" as const, "throwing" as const, "throwWeird" as const, "all" as const, "none" as const, "compose" as const, "duration" as const),
  mode: fc.constantFrom("immediate" as const, "batched" as const),
  order: fc.array(fc.nat(9), { maxLength: 5 }),
  order2: fc.boolean(),
});
type Case = typeof caseArb extends fc.Arbitrary<infer T> ? T : never;

const filters: Record<string, any> = {
  default: undefined,
  name: ({ otelSpan }: any) => otelSpan.name !== "drop",
  attr: ({ otelSpan }: any) => !("foo" in otelSpan.attributes),
  throwing: ({ otelSpan }: any) => {
    if (otelSpan.name === "drop") throw new Error("filter");
    return true;
  },
  throwWeird: ({ otelSpan }: any) => {
    if (otelSpan.name === "drop") throw Object.create(null);
    return otelSpan.name !== "a";
  },
  all: () => true,
  none: () => false,
  compose: ({ otelSpan }: any) => isDefaultExportSpan(otelSpan) && otelSpan.name !== "drop",
  duration: ({ otelSpan }: any) => otelSpan.ended !== true || otelSpan.name === "keep",
};
async function run(c: Case) {
  const clock = useClock();
  const { exporter, processor } = makeTracing({ exportMode: c.mode, mediaUploadEnabled: false, shouldExportSpan: filters[c.filter] });
  const recs: { span: any; want: boolean; why: string }[] = [];
  await isolated(async () => {
    const parentCtx = (p: any, i: number) => {
      if (p === undefined || (typeof p === "number" && p >= i)) return ROOT_CONTEXT;
      if (typeof p === "number") return trace.setSpan(ROOT_CONTEXT, recs[p].span);
      const traceId = "0123456789abcdef0123456789abcd" + String(10 + i);
      const ctx = trace.setSpanContext(ROOT_CONTEXT, { traceId, spanId: "0123456789abcdef", traceFlags: 1, ...(p === "far" ? {} : { isRemote: true }) });
      return p === "remote claimed" ? setLangfuseTraceIdInBaggage(ctx, traceId) : ctx;
    };
    for (const [i, s] of c.spans.entries()) {
      const ctx = parentCtx(s.parent, i);
      const start = Object.fromEntries(s.start);
      const obs: any = s.sdk ? context.with(ctx, () => startObservation(s.name)) : undefined;
      const span: any = obs ? obs.otelSpan : trace.getTracer(s.scope).startSpan(s.name, { attributes: start, kind: s.kind }, ctx);
      if (obs) span.setAttributes(start);
      recs.push({ span, want: false, why: "" });
    }
    c.spans.forEach((s, i) => {
      const span = recs[i].span;
      span.setAttributes(Object.fromEntries(s.later));
      if (s.rename) span.updateName(s.rename);
    });
    const idx = c.spans.map((_, i) => i);
    if (c.order2) idx.reverse();
    for (const i of idx) {
      const s = c.spans[i];
      const scope = s.sdk ? "langfuse-sdk" : s.scope;
      const keys = [...s.start, ...s.later].map(([k]) => k);
      const name = s.rename ?? s.name;
      const def = oracleDefault(scope, keys);
      recs[i].want =
        c.filter === "default" ? def
        : c.filter === "name" ? name !== "drop"
        : c.filter === "attr" ? !keys.includes("foo")
        : c.filter === "throwing" ? name !== "drop"
        : c.filter === "throwWeird" ? name !== "drop" && name !== "a"
        : c.filter === "all" ? true
        : c.filter === "none" ? false
        : c.filter === "duration" ? name === "keep"
        : def && name !== "drop";
      recs[i].why = `scope ${show(scope)}, attributes ${show(keys)}, name ${name}, filter ${c.filter}`;
      if (s.error) { recs[i].span.setStatus({ code: 2, message: "bad" }); recs[i].span.recordException(new Error("bad")); }
      recs[i].span.end();
      const sp = recs[i].span;
      same(isDefaultExportSpan(sp), def, `isDefaultExportSpan for ${recs[i].why}`);
      same(isLangfuseSpan(sp), scope === "langfuse-sdk", "isLangfuseSpan");
      same(isGenAISpan(sp), oracleDefault("-", keys), "isGenAISpan");
      same(isKnownLLMInstrumentor(sp), oracleDefault(scope, []), "isKnownLLMInstrumentor for " + show(scope));
    }
  });
  await clock.drive(processor.forceFlush());
  for (const r of recs) {
    const n = exporter.spans.filter((x) => x.spanId === r.span.spanContext().spanId).length;
    same(n, r.want ? 1 : 0, `exports of the span with ${r.why}`);
  }
  return { nontrivial: recs.some((r) => r.want) || c.filter !== "none", labels: [c.filter, c.spans.some((x: any) => String(x.parent).startsWith("remote")) && "remote parent", recs.some((r) => r.want) && recs.some((r) => !r.want) && "mixed"] };
}

main({
  subs: [{ name: "filter", arb: caseArb, run, quick: 15_000, thorough: 400_000, rule: "1-5 spans with scopes and attributes around the default filter's boundaries, default and custom filters; non-trivial = the filter is not the constant reject" }],
  assumptions: ["custom filters return booleans or throw"],
});
