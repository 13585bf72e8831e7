import fc from "fast-check";
import nodeCrypto from "node:crypto";
import { main, ensure, same, show, deepEqual, fail } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, isolated, trace, ROOT_CONTEXT } from "../lib/otel";
import { ident, bytes } from "../lib/arbs";
import { startObservation, propagateAttributes } from "@langfuse/tracing";

const TYPES = ["image/png", "image/jpeg", "image/svg+xml", "application/pdf", "audio/wav", "text/plain", "video/mp4", "application/vnd.ms-excel", "image/*", "application/x_y", "weird/t!p*~", "a&b/c$d", "noslash", "x/ü"];
// contents that are prefixes of one another occur on purpose: multiples of three bytes make base64 prefixes
const content = fc.oneof(
  { weight: 3, arbitrary: fc.constantFrom("abc", "abcdef", "abcdefghi", "a", "ab", "hello", "\u0000\u0001\u0002").map((s) => Buffer.from(s, "latin1")) },
  { weight: 2, arbitrary: fc.uint8Array({ minLength: 1, maxLength: 30 }).map((b) => Buffer.from(b)) },
  { weight: 1, arbitrary: fc.constantFrom("httpQUJD", "https123", "datadata", "file", "null", "true", "1234", "0000", "////", "++++").map((s) => Buffer.from(s, "base64")) }, // base64 that reads like something else
  { weight: 1, arbitrary: fc.tuple(fc.oneof({ weight: 400, arbitrary: fc.integer({ min: 100, max: 2000 }) }, { weight: 1, arbitrary: fc.integer({ min: 60_000, max: 1_200_000 }) }), fc.nat(255)).map(([n, x]) => Buffer.alloc(n, x)) },
);
type Seg = { uri: { type: string; b64: string } } | { bad: string } | { text: string };
const b64 = content.map((b) => b.toString("base64"));
const segArb: fc.Arbitrary<Seg> = fc.oneof(
  { weight: 4, arbitrary: fc.record({ uri: fc.record({ type: fc.constantFrom(...TYPES), b64: fc.oneof({ weight: 4, arbitrary: b64 }, { weight: 1, arbitrary: b64.map((s) => s.replace(/=+$/, "")) }) }) }) },
  { weight: 1, arbitrary: fc.record({ bad: fc.constantFrom("data:image/png;base64,A", "data:image/png;base64,AAAAA", "data:image/png;base64,", "data:image/png,abc", "data:;base64,QUJD", "data:image/png;base64,AAAA=", "http://x/y.png", " image/png;base64,QUJD", "DATA:image/png;base64,QUJD", "@@@langfuseMedia:type=image/png|id=abc|source=bytes@@@") }) },
  { weight: 3, arbitrary: fc.record({ text: fc.constantFrom("see data: ", "data:", "the data: below; base64 ", "plain ", "(", "url=", "metadata:", "data:image/png ", ";base64, ", "", "ü😀 ", "\"quoted\" ", "line\n", "\\", "$& ", "$1 ", "src='") }) },
);
const SEPS = [" ", "\"", ",", ")", "\n", "'", "<", ".", "\\", "}", "-"];
const textArb = fc.oneof(
  { weight: 60, arbitrary: fc.array(fc.tuple(segArb, fc.constantFrom(...SEPS)), { minLength: 1, maxLength: 5 }) },
  { weight: 1, arbitrary: fc.tuple(fc.integer({ min: 10, max: 70 }), fc.constantFrom(...SEPS)).map(([n, sep]) => Array.from({ length: n }, (_, i) => [{ uri: { type: TYPES[i % 7], b64: Buffer.from(`no ${i}`).toString("base64") } }, sep] as [Seg, string])) },
);
type Text = [Seg, string][];
const valueArb = fc.oneof({ weight: 3, arbitrary: fc.record({ k: fc.constant("text" as const), t: textArb }) }, { weight: 2, arbitrary: fc.record({ k: fc.constant("obj" as const), o: fc.dictionary(ident, textArb, { minKeys: 1, maxKeys: 3, noNullPrototype: true }) }) }, { weight: 1, arbitrary: fc.record({ k: fc.constant("arr" as const), a: fc.array(textArb, { maxLength: 3 }) }) });
type Val = any;
const tagOf = (type: string, b: string, source: string) => `@@@langfuseMedia:type=${type}|id=${nodeCrypto.createHash("sha256").update(Buffer.from(b, "base64")).digest("base64url").slice(0, 22)}|source=${source}@@@`;
const uriOf = (s: any) => `data:${s.uri.type};base64,${s.uri.b64}`;
const render = (t: Text, tagged: boolean) => t.map(([s, sep]) => ("uri" in s ? (tagged ? tagOf(s.uri.type, s.uri.b64, "base64_data_uri") : uriOf(s)) + sep : "bad" in s ? s.bad + sep : s.text)).join("");
const val = (v: Val, tagged: boolean): any => (v.k === "text" ? render(v.t, tagged) : v.k === "obj" ? Object.fromEntries(Object.entries(v.o).map(([k, t]) => [k, render(t as Text, tagged)])) : v.a.map((t: Text) => render(t, tagged)));
const enc = (x: any) => (typeof x === "string" ? x : JSON.stringify(x));
const urisOf = (v: Val): { type: string; b64: string }[] => (v.k === "text" ? [v.t] : v.k === "obj" ? Object.values(v.o) : v.a).flatMap((t: any) => t.flatMap(([s]: any) => ("uri" in s ? [s.uri] : [])));

const spanArb = fc.record(
  { input: valueArb, output: valueArb, metadata: fc.dictionary(fc.oneof({ weight: 2, arbitrary: ident }, { weight: 1, arbitrary: fc.constantFrom("input", "output", "my_input", "output.x", "metadata", "a.b.c.d.e.f", "x.y.z", ".", "a..b") }), valueArb, { minKeys: 1, maxKeys: 2, noNullPrototype: true }), tIn: valueArb, tOut: valueArb, tMeta: fc.record({ m: textArb }), remote: fc.boolean(), type: fc.constantFrom("generation", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding"), level: fc.constantFrom("ERROR", "DEBUG") },
  { requiredKeys: [] },
);
const caseArb = fc.record({ spans: fc.array(spanArb, { minLength: 1, maxLength: 3 }), enabled: fc.constantFrom("yes" as const, "yes" as const, "yes" as const, "default" as const, "off" as const, "envOff" as const, "envZero" as const), mode: fc.constantFrom("immediate" as const, "batched" as const), server: fc.constantFrom("fresh" as const, "fresh" as const, "always" as const, "fail" as const), lat: fc.constantFrom(0, 0, 0, 3, 700, 40_000), wait: fc.constantFrom(0, 0, 1, 300), finish: fc.constantFrom("flush" as const, "flush" as const, "shutdown" as const), odd: fc.option(fc.record({ at: fc.constantFrom("input", "output", "metadata", "metadata.k"), v: fc.constantFrom<any>(["a", "b"], [], 5, true, ["data:image/png;base64,QUJD"]), t: textArb }), { nil: undefined, freq: 4 }) });

interface Up { field: string; traceId: string; observationId: string; type: string; sha: string; len: number }
function server(mode: string, lat = 0) {
  const posts: Up[] = [];
  const puts = new Map<string, Uint8Array[]>();
  const have = new Set<string>();
  const net = new FakeNet((req) => {
    if (req.method === "POST" && req.path === "/api/public/media") {
      const j = req.json;
      posts.push({ field: j.field, traceId: j.traceId, observationId: j.observationId, type: j.contentType, sha: j.sha256Hash, len: j.contentLength });
      if (mode === "fail") return { status: 400, json: {}, delay: lat };
      const id = j.sha256Hash.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
      if (have.has(id) && mode === "fresh") return { json: { mediaId: id, uploadUrl: null }, delay: lat };
      have.add(id);
      return { json: { mediaId: id, uploadUrl: `http://bucket.test/${id}?sig=1` }, delay: lat };
    }
    if (req.method === "PUT") {
      const id = req.path.slice(1);
      const body = req.body;
      if (lat) setTimeout(() => puts.set(id, [...(puts.get(id) ?? []), body]), lat);
      else puts.set(id, [...(puts.get(id) ?? []), body]);
      return { status: 200, text: "", delay: lat };
    }
    if (req.method === "PATCH") return { json: {} };
    fail("unexpected request " + req.method + " " + req.url);
  }).install();
  return { net, posts, puts };
}
const isOn = (e: string) => e === "yes" || e === "default";
const envFor = (e: string) => {
  if (e === "envOff") process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED = "false";
  if (e === "envZero") process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED = "0";
  return e === "yes" ? { mediaUploadEnabled: true } : e === "off" ? { mediaUploadEnabled: false } : {};
};
function checkUploads(srv: ReturnType<typeof server>, want: Map<string, { n: number; bytes: Buffer }>) {
  // want: field|trace|obs|type|sha -> number of occurrences
  const got = new Map<string, number>();
  for (const p of srv.posts) {
    const k = [p.field, p.traceId, p.observationId, p.type, p.sha, p.len].join("|");
    got.set(k, (got.get(k) ?? 0) + 1);
    ensure(want.has(k), () => `unexpected upload ${k}; expected ${show([...want.keys()])}`);
  }
  for (const [k, w] of want) {
    const n = got.get(k) ?? 0;
    ensure(n >= 1, () => `no upload was requested for ${k}`);
    ensure(n <= w.n, () => `${n} uploads requested for ${k}, which occurs ${w.n} times`);
  }
}
async function run(c: any) {
  const clock = useClock();
  const srv = server(c.server, c.lat ?? 0);
  const { exporter, processor } = makeTracing({ exportMode: c.mode, ...envFor(c.enabled) });
  const on = isOn(c.enabled);
  const want = new Map<string, { n: number; bytes: Buffer }>();
  const exp: { id: string; attrs: Record<string, any> }[] = [];
  let nUris = 0;
  isolated(() => {
    for (const s of c.spans) {
      const mk = () => {
        const o: any = startObservation("s", { input: s.input && val(s.input, false), output: s.output && val(s.output, false), metadata: s.metadata && Object.fromEntries(Object.entries(s.metadata).map(([k, v]) => [k, val(v, false)])), level: s.level }, { asType: s.type ?? "span", ...(s.remote ? { parentSpanContext: { traceId: "0123456789abcdef0123456789abcdef", spanId: "0123456789abcdef", traceFlags: 1, isRemote: true } } : {}) } as any);
        if (s.tIn || s.tOut) o.setTraceIO({ input: s.tIn && val(s.tIn, false), output: s.tOut && val(s.tOut, false) });
        const a: Record<string, any> = {};
        const put = (k: string, v: Val, field: string) => {
          a[k] = enc(val(v, on));
          for (const u of urisOf(v)) {
            nUris++;
            const b = Buffer.from(u.b64, "base64");
            const kk = [field, o.traceId, o.id, u.type, nodeCrypto.createHash("sha256").update(b).digest("base64"), b.length].join("|");
            want.set(kk, { n: (want.get(kk)?.n ?? 0) + 1, bytes: b });
          }
        };
        if (s.input) put("langfuse.observation.input", s.input, "input");
        if (s.output) put("langfuse.observation.output", s.output, "output");
        for (const [k, v] of Object.entries(s.metadata ?? {})) put("langfuse.observation.metadata." + k, v, "metadata");
        if (s.tIn) put("langfuse.trace.input", s.tIn, "input");
        if (s.tOut) put("langfuse.trace.output", s.tOut, "output");
        if (s.tMeta && render(s.tMeta.m, false).length <= 200) put("langfuse.trace.metadata.m", { k: "text", t: s.tMeta.m }, "metadata");
        exp.push({ id: o.id, attrs: a });
        o.end();
      };
      if (s.tMeta) propagateAttributes({ metadata: { m: render(s.tMeta.m, false) } }, mk);
      else mk();
    }
    if (c.odd) {
      // attributes that are not text keep their value and do not keep the others from being handled
      const text = { k: "text", t: c.odd.t };
      const sp: any = trace.getTracer("langfuse-sdk").startSpan("odd", { attributes: { ["langfuse.observation." + c.odd.at]: c.odd.v, "langfuse.trace.output": render(c.odd.t, false) } }, ROOT_CONTEXT);
      const sc = sp.spanContext();
      exp.push({ id: sc.spanId, attrs: { ["langfuse.observation." + c.odd.at]: c.odd.v, "langfuse.trace.output": render(c.odd.t, on) } });
      for (const u of urisOf(text)) {
        const b = Buffer.from(u.b64, "base64");
        const kk = ["output", sc.traceId, sc.spanId, u.type, nodeCrypto.createHash("sha256").update(b).digest("base64"), b.length].join("|");
        want.set(kk, { n: (want.get(kk)?.n ?? 0) + 1, bytes: b });
      }
      sp.end();
    }
  });
  if (c.wait) await clock.advance(c.wait);
  await clock.drive(c.finish === "shutdown" ? processor.shutdown() : processor.forceFlush(), { maxMs: 3600_000, what: c.finish ?? "flush" });
  for (const e of exp) {
    const r = exporter.spans.find((x) => x.spanId === e.id);
    ensure(r, "span not exported");
    for (const k of Object.keys(e.attrs)) ensure(deepEqual(r!.attributes[k], e.attrs[k]), () => `${k}: exported ${show(r!.attributes[k])}, expected ${show(e.attrs[k])}`);
  }
  if (!on) same(srv.net.reqs.length, 0, "requests although media upload is disabled");
  else {
    checkUploads(srv, want);
    if (c.server !== "fail")
      for (const [k, w] of want) {
        const id = nodeCrypto.createHash("sha256").update(w.bytes).digest("base64url").slice(0, 22);
        const p = srv.puts.get(id) ?? [];
        ensure(p.length >= 1, `content of ${k} was never uploaded`);
        for (const b of p) ensure(Buffer.from(b as any).equals(w.bytes), () => `uploaded bytes differ for ${k}: ${show(b)}`);
      }
  }
  return { nontrivial: nUris >= 2 && on, labels: [on ? "enabled" : "disabled", c.server, c.lat > 0 && "slow storage", c.finish === "shutdown" && "shutdown", nUris >= 4 && "many media"] };
}

// ---- inline file parts of AI-SDK messages
const partArb = fc.oneof(
  { weight: 3, arbitrary: fc.record({ p: fc.constantFrom("data" as const, "image" as const), b64, mt: fc.constantFrom(...TYPES), extra: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ p: fc.constantFrom("url" as const, "urlImage" as const, "noType" as const, "oddType" as const, "nonString" as const, "other" as const, "fileId" as const, "empty" as const), b64, mt: fc.constantFrom(...TYPES), extra: fc.boolean() }) },
  { weight: 2, arbitrary: fc.record({ p: fc.constant("text" as const), b64: fc.oneof(b64, fc.constantFrom("user", "file", "hi")), mt: fc.constantFrom(...TYPES), extra: fc.boolean() }) },
);
const ROLES = ["user", "assistant", "tool", "system"];
const aiArb = fc.record({
  role: fc.nat(3), both: fc.boolean(), plain: fc.constantFrom(undefined, undefined, "text", "null", "none"),
  scope: fc.constantFrom("ai" as const, "gen_ai" as const, "other" as const),
  v6: fc.array(fc.array(partArb, { minLength: 1, maxLength: 3 }), { maxLength: 3 }),
  v7in: fc.array(fc.array(fc.tuple(partArb, fc.boolean()), { minLength: 1, maxLength: 3 }), { maxLength: 2 }),
  v7out: fc.array(fc.array(fc.tuple(partArb, fc.boolean()), { minLength: 1, maxLength: 3 }), { maxLength: 2 }),
  enabled: fc.constantFrom("yes" as const, "yes" as const, "off" as const),
  raw: fc.constantFrom<any>(undefined, "not json", "{}", "null", "[]", "[ ]", "[{\"content\":\"text\"}]", "", ["x", "y"], 5, "{\"content\":[{\"type\":\"file\"}]}", "[null]"), rawOut: fc.constantFrom<any>(undefined, undefined, undefined, "not json", " [ ] ", "", ["x"], 7, "{\"parts\": []}", "[null, 1]"),
});
async function runAi(c: any) {
  const clock = useClock();
  const srv = server("always");
  const { exporter, processor } = makeTracing({ ...envFor(c.enabled), shouldExportSpan: () => true });
  const on = isOn(c.enabled) && c.scope !== "other";
  const media: { field: string; type: string; b: Buffer }[] = [];
  const p6 = (p: any, tagged: boolean) => {
    const extra = p.extra ? { providerOptions: { x: { y: 1 } }, filename: "user" } : {};
    const t = tagged ? tagOf(p.mt, p.b64, "bytes") : p.b64;
    switch (p.p) {
      case "data": return { type: "file", mediaType: p.mt, data: t, ...extra };
      case "image": return { type: "file", mediaType: p.mt, image: t, ...extra };
      case "url": return { type: "file", mediaType: p.mt, data: "https://x.test/" + p.b64, ...extra };
      case "urlImage": return { type: "file", mediaType: p.mt, image: "http://x.test/" + p.b64, ...extra };
      case "oddType": return { type: "file", mediaType: 7, data: p.b64, ...extra };
      case "other": return { type: "tool-result", mediaType: p.mt, data: p.b64, ...extra };
      case "noType": return { type: "file", data: p.b64, ...extra };
      case "nonString": return { type: "file", mediaType: p.mt, data: { 0: 1 }, ...extra };
      case "fileId": return { type: "file", mediaType: p.mt, data: "file-" + p.b64, ...extra };
      case "empty": return { type: "file", mediaType: p.mt, data: "", ...extra };
      case "text": return { type: "text", text: p.b64, ...extra };
    }
  };
  const p7 = ([p, asUri]: any, tagged: boolean) => {
    const t = tagged ? tagOf(p.mt, p.b64, "bytes") : asUri ? `data:${p.mt};base64,${p.b64}` : p.b64;
    switch (p.p) {
      case "data": case "image": return { type: "blob", modality: "image", mime_type: p.mt, content: t };
      case "url": return { type: "blob", mime_type: p.mt, content: "http://x.test/" + p.b64 };
      case "urlImage": return { type: "uri", mime_type: p.mt, uri: "http://x.test/" + p.b64 };
      case "oddType": return { type: "blob", mime_type: null, content: p.b64 };
      case "other": return { type: "tool_call_response", mime_type: p.mt, content: p.b64 };
      case "noType": return { type: "blob", content: p.b64 };
      case "nonString": return { type: "blob", mime_type: p.mt, content: 5 };
      case "fileId": return { type: "blob", mime_type: p.mt, content: asUri ? "data:" + p.mt + "," + p.b64 : "file-" + p.b64 };
      case "empty": return { type: "blob", mime_type: p.mt, content: asUri ? "data:" + p.mt + ";base64," : "" };
      case "text": return { type: "text", content: p.b64 };
    }
  };
  // messages without parts surround the others
  const plain6 = c.plain === "text" ? [{ role: "system", content: "be brief" }] : c.plain === "null" ? [{ role: "assistant", content: null }] : c.plain === "none" ? [{ role: "assistant" }] : [];
  const plain7 = c.plain === "text" ? [{ role: "system", content: "be brief" }] : c.plain === "null" ? [{ role: "assistant", parts: null }] : c.plain === "none" ? [{ role: "assistant", parts: "x" }] : [];
  const around = (x: any[], m: any[]) => [...x, ...m, ...x];
  const m6 = (tagged: boolean) => around(plain6, c.v6.map((parts: any[], i: number) => ({ role: ROLES[(i + c.role) % 4], content: parts.map((p) => p6(p, tagged)) })));
  const m7 = (ms: any[], tagged: boolean) => around(plain7, ms.map((parts: any[], i: number) => ({ role: ROLES[(i + c.role) % 4], parts: parts.map((p) => p7(p, tagged)) })));
  const isMedia = (p: any) => p.p === "data" || p.p === "image";
  for (const ps of c.v6) for (const p of ps) if (isMedia(p)) for (let k = c.both ? 2 : 1; k > 0; k--) media.push({ field: "input", type: p.mt, b: Buffer.from(p.b64, "base64") });
  for (const [ms, field] of [[c.v7in, "input"], [c.v7out, "output"]] as any) for (const ps of field === "output" && c.rawOut !== undefined ? [] : ms) for (const [p] of ps) if (isMedia(p)) media.push({ field, type: p.mt, b: Buffer.from(p.b64, "base64") });
  const attrs: Record<string, any> = { "ai.prompt.messages": JSON.stringify(m6(false)), "gen_ai.input.messages": JSON.stringify(m7(c.v7in, false)), "gen_ai.output.messages": JSON.stringify(m7(c.v7out, false)), "other.attr": JSON.stringify(m6(false)) };
  if (c.both) attrs["ai.prompt"] = JSON.stringify(m6(false));
  else if (c.raw !== undefined) attrs["ai.prompt"] = c.raw;
  const noOut = c.rawOut !== undefined;
  if (noOut) attrs["gen_ai.output.messages"] = c.rawOut;
  const span: any = isolated(() => trace.getTracer(c.scope).startSpan("x", { attributes: { ...attrs } }, ROOT_CONTEXT));
  const sc = span.spanContext();
  span.end();
  await clock.drive(processor.forceFlush(), { maxMs: 3600_000, what: "flush" });
  const r = exporter.spans[0];
  ensure(exporter.spans.length === 1 && r, "span not exported");
  const wantA: Record<string, any> = { "ai.prompt.messages": m6(on), "gen_ai.input.messages": m7(c.v7in, on), "gen_ai.output.messages": m7(c.v7out, on), "other.attr": m6(false) };
  if (noOut) { delete wantA["gen_ai.output.messages"]; same(r.attributes["gen_ai.output.messages"], c.rawOut, "output attribute without inline media"); }
  for (const k of Object.keys(wantA)) {
    const got = JSON.parse(r.attributes[k]);
    ensure(deepEqual(got, JSON.parse(JSON.stringify(wantA[k]))), () => `${k}: exported ${show(got)}, expected ${show(wantA[k])}`);
  }
  if (c.both) ensure(deepEqual(JSON.parse(r.attributes["ai.prompt"]), JSON.parse(JSON.stringify(m6(on)))), () => `ai.prompt: exported ${show(r.attributes["ai.prompt"])}`);
  else same(r.attributes["ai.prompt"], c.raw, "attribute without inline media");
  if (!on) same(srv.net.reqs.length, 0, "requests although nothing may be uploaded");
  else {
    const want = new Map<string, { n: number; bytes: Buffer }>();
    for (const m of media) {
      const k = [m.field, sc.traceId, sc.spanId, m.type, nodeCrypto.createHash("sha256").update(m.b).digest("base64"), m.b.length].join("|");
      want.set(k, { n: (want.get(k)?.n ?? 0) + 1, bytes: m.b });
    }
    checkUploads(srv, want);
    for (const [k, w] of want) {
      const id = nodeCrypto.createHash("sha256").update(w.bytes).digest("base64url").slice(0, 22);
      for (const b of srv.puts.get(id) ?? []) ensure(Buffer.from(b as any).equals(w.bytes), () => `uploaded bytes differ for ${k}`);
      ensure((srv.puts.get(id) ?? []).length >= 1, `content of ${k} was never uploaded`);
    }
  }
  return { nontrivial: media.length >= 1, labels: [c.scope, on && "enabled", media.length >= 3 && "many media"] };
}

main({
  subs: [
    { name: "data URIs", arb: caseArb, run, quick: 3500, thorough: 100_000, rule: "1-3 spans whose fields mix data URIs (including ones that are prefixes of others), near-misses and prose; non-trivial = media enabled and at least two data URIs", minNontrivial: 0.4 },
    { name: "AI-SDK parts", arb: aiArb, run: runAi, quick: 3000, thorough: 100_000, rule: "AI-SDK message attributes with inline files, URLs and text equal to file contents; non-trivial = at least one inline file", minNontrivial: 0.4 },
  ],
  assumptions: ["a data URI is data:<type>;base64,<base64>, terminated by a character outside the base64 alphabet", "AI-SDK message attributes are the JSON the AI SDK emits; file contents that are not base64 (file ids) are left as they are"],
});
