import fc from "fast-check";
import { main, ensure, same, fail, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, isolated, trace, ROOT_CONTEXT } from "../lib/otel";
import { anyString, jsonValue, jsonObject, key, ident, opt } from "../lib/arbs";
import { startObservation, propagateAttributes } from "@langfuse/tracing";

const payload = fc.oneof(anyString, jsonValue(2), fc.constant("see data:image/png;base64,aGVsbG8= here"));
const spanArb = fc.record({
  type: fc.constantFrom("span", "generation", "tool", "agent", "event", "chain", "retriever", "evaluator", "guardrail", "embedding"),
  input: opt(payload),
  output: opt(payload),
  metadata: opt(fc.oneof({ weight: 4, arbitrary: fc.dictionary(key, payload, { maxKeys: 4, noNullPrototype: true }) }, { weight: 1, arbitrary: fc.oneof(anyString, fc.constant([1, "x"])) })),
  trace: fc.boolean(),
  tIn: payload,
  tOut: payload,
  propMeta: opt(fc.dictionary(ident, anyString.filter((s) => s.length > 0), { minKeys: 1, maxKeys: 3, noNullPrototype: true })),
  model: opt(anyString),
  statusMessage: opt(anyString),
  name: anyString,
  foreign: fc.boolean(),
  nest: fc.boolean(),
  remote: fc.constantFrom(false, false, false, true),
  kind: fc.nat(4),
  attrs: fc.dictionary(fc.constantFrom("langfuse.observation.input", "langfuse.observation.output", "langfuse.observation.metadata", "langfuse.trace.input", "langfuse.trace.output", "langfuse.trace.metadata", "langfuse.trace.metadata.k", "langfuse.observation.metadata.k.j", "langfuse.observation.metadata.input", "langfuse.trace.metadata.ü b", "langfuse.trace.inputs", "langfuse.trace.name", "langfuse.observation.metadatax", "langfuse.observation.usage_details"), fc.oneof({ weight: 3, arbitrary: anyString }, { weight: 1, arbitrary: fc.constantFrom<any>(["a", "b"], [], [1, 2], 0, 7, true, false, "", ["data:image/png;base64,aGVsbG8="]) }), { maxKeys: 4, noNullPrototype: true }),
});
const caseArb = fc.record({
  spans: fc.array(spanArb, { minLength: 1, maxLength: 4 }),
  salt: fc.nat(1000),
  kinds: fc.array(fc.constantFrom("wrap" as const, "wrap" as const, "const" as const, "same" as const, "throw" as const, "reject" as const, "throwWeird" as const, "throwFalsy" as const, "rejectFalsy" as const, "slow" as const, "slowReject" as const, "empty" as const, "odd" as const), { minLength: 1, maxLength: 6 }),
  async: fc.boolean(),
  mode: fc.constantFrom("immediate" as const, "batched" as const),
  media: fc.boolean(),
});
type Case = typeof caseArb extends fc.Arbitrary<infer T> ? T : never;

const SENSITIVE = /^langfuse\.(observation|trace)\.(input|output|metadata(\..*)?)$/s;
const FULL = "<fully masked due to failed mask function>";
const ODD = [null, undefined, 0, 7, false, true, { redacted: 1 }, ["x"]];
const h = (s: string, salt: number) => {
  let x = salt * 2654435761;
  for (let i = 0; i < s.length; i++) x = (Math.imul(x, 31) + s.charCodeAt(i)) | 0;
  return Math.abs(x);
};
const far = (i: number) => ({ traceId: "0123456789abcdef0123456789abcde" + i, spanId: "0123456789abcdef", traceFlags: 1, isRemote: true });
async function scenario(c: Case, clock: any, params: any) {
  const t = makeTracing({ exportMode: c.mode, mediaUploadEnabled: c.media, ...params });
  await isolated(async () => {
    const open: any[] = [];
    c.spans.forEach((s, i) => {
      const mk = () => {
        if (s.foreign) {
          const sp = trace.getTracer("ai").startSpan("n" + i, { attributes: { "gen_ai.prompt": show(s.input), "langfuse.observation.input": typeof s.input === "string" ? s.input : "plain", "input.value": "keep", "langfuse.observation.inputs": "keep", "langfuse.trace.metadata": "tm", ...s.attrs }, kind: s.kind }, s.remote ? trace.setSpanContext(ROOT_CONTEXT, far(i)) : s.nest && open.length ? trace.setSpan(ROOT_CONTEXT, open[open.length - 1].otelSpan ?? open[open.length - 1]) : undefined);
          open.push(sp);
          return;
        }
        const prev = open.filter((x) => x.startObservation).pop();
        const start: any = s.nest && prev && !s.remote ? prev.startObservation.bind(prev) : startObservation;
        const o: any = start("n" + i, { input: s.input, output: s.output, metadata: s.metadata, model: s.model, statusMessage: s.statusMessage } as any, { asType: s.type as any, ...(s.remote ? { parentSpanContext: far(i) } : {}) });
        if (s.type !== "event") o.otelSpan.setAttributes(s.attrs);
        if (s.trace && s.type !== "event") o.setTraceIO({ input: s.tIn, output: s.tOut });
        open.push(o);
      };
      if (s.propMeta) propagateAttributes({ metadata: s.propMeta, userId: "u" }, mk);
      else mk();
    });
    open.forEach((o) => o.end());
  });
  await clock.drive(t.processor.forceFlush(), { maxMs: 3600_000, what: "flush" });
  return t.exporter.spans;
}
async function run(c: Case) {
  const clock = useClock();
  const uploads: string[] = [];
  new FakeNet((req) => {
    if (req.method === "POST") return { json: { mediaId: "x", uploadUrl: null } };
    fail("unexpected request " + req.url);
  }).install();
  // reference: the same program without a mask and without media handling
  const plain = await scenario({ ...c, media: false }, clock, {});
  const plan = (d: any) => c.kinds[h(typeof d === "string" ? d : show(d), c.salt) % c.kinds.length];
  const result = (d: any) => {
    switch (plan(d)) {
      case "same": return d;
      case "const": return "***";
      case "empty": return "";
      case "odd": return ODD[h(String(d), c.salt + 1) % ODD.length];
      case "wrap": case "slow": return `<${String(d).length}>`;
      default: return FULL;
    }
  };
  const asked: any[] = [];
  const net = new FakeNet((req) => {
    uploads.push(req.json?.contentType ?? "?");
    return { json: { mediaId: "x", uploadUrl: null } };
  }).install();
  const impl = ({ data }: any): any => {
    asked.push(data);
    const p = plan(data);
    if (p === "throw") throw new Error("mask: " + data);
    if (p === "throwWeird") throw Object.create(null);
    if (p === "throwFalsy") throw ([undefined, null, 0, "", false] as any[])[h(String(data), c.salt + 2) % 5];
    if (p === "rejectFalsy") return Promise.reject(([undefined, null, 0, "", false] as any[])[h(String(data), c.salt + 2) % 5]);
    if (p === "reject") return Promise.reject(new Error("no"));
    if (p === "slow") return clock.sleep(50).then(() => result(data));
    if (p === "slowReject") return clock.sleep(700).then(() => { throw "late"; });
    return c.async ? Promise.resolve(result(data)) : result(data);
  };
  const masked = await scenario(c, clock, { mask: impl });
  same(masked.length, plain.length, "number of exported spans with mask vs. without");
  let n = 0;
  let failed = 0;
  let mediaKept = false;
  for (const p of plain) {
    const m = masked.find((x) => x.name === p.name);
    ensure(m, `span ${p.name} missing when a mask is configured`);
    for (const k of new Set([...Object.keys(p.attributes), ...Object.keys(m!.attributes)])) {
      const orig = p.attributes[k];
      if (!SENSITIVE.test(k)) {
        ensure(deepEqual(m!.attributes[k], orig), () => `attribute ${k} is not sensitive but changed from ${show(orig)} to ${show(m!.attributes[k])}`);
        continue;
      }
      n++;
      let want = result(orig);
      if (want === FULL) failed++;
      if (c.media && typeof want === "string" && want.includes("data:image/png;base64,")) {
        mediaKept = true;
        want = want.replaceAll("data:image/png;base64,aGVsbG8=", "@@@langfuseMedia:type=image/png|id=LPJNul-wow4m6DsqxbninhsWHlwfp0JecwQzYpOLmCQ|source=base64_data_uri@@@".replace(/id=([^|]{22})[^|]*/, "id=$1"));
      }
      ensure(deepEqual(m!.attributes[k], want), () => `${k}: value ${show(orig)}, mask outcome ${show(want)}, exported ${show(m!.attributes[k])}`);
      ensure(asked.some((a) => deepEqual(a, orig)), () => `mask was never given ${k}=${show(orig)}`);
    }
  }
  if (!mediaKept) same(uploads, [], "media uploads although the mask left no media in any value");
  return { nontrivial: n >= 2, labels: [failed > 0 && "failing mask", c.spans.length > 1 && "several spans", c.spans.some((s) => s.propMeta) && "propagated metadata", c.media && "media on"] };
}

main({
  subs: [{ name: "differential", arb: caseArb, run, quick: 12000, thorough: 200_000, rule: "same program with and without a mask (sync, async, slow, failing per value); non-trivial = at least two sensitive attributes compared", minNontrivial: 0.5 }],
  assumptions: ["media upload of values the mask leaves unchanged is covered by C12"],
});
