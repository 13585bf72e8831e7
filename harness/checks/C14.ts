import fc from "fast-check";
import nodeCrypto from "node:crypto";
import { main, ensure, same, show, fail } from "../lib/runner";
import { useClock, Stuck } from "../lib/env";
import { FakeNet, type Req } from "../lib/net";
import { makeTracing, isolated } from "../lib/otel";
import { startObservation } from "@langfuse/tracing";
import { LangfuseMedia, LangfuseAPIClient, uploadMedia } from "@langfuse/core";

// ---- scripted faults: each protocol step consumes its own list; an exhausted list answers with success
type Step = { kind: "status"; status: number; delay: number } | { kind: "net"; delay: number };
const delay = fc.constantFrom(0, 0, 1, 50, 900, 4000, 45_000);
const statusStep = (good: number[], bad: number[]): fc.Arbitrary<Step> =>
  fc.oneof(
    { weight: 2, arbitrary: fc.record({ kind: fc.constant("status" as const), status: fc.constantFrom(...good), delay }) },
    { weight: 3, arbitrary: fc.record({ kind: fc.constant("status" as const), status: fc.constantFrom(...bad), delay }) },
    { weight: 1, arbitrary: fc.record({ kind: fc.constant("net" as const), delay }) },
  );
const BADPUT = [202, 203, 204, 206, 304, 400, 401, 403, 404, 408, 409, 412, 429, 410, 413, 422, 425, 500, 501, 502, 503, 504, 507, 599];
const putStep = statusStep([200, 201], BADPUT);
const apiStep = statusStep([200, 200, 200], [400, 403, 404, 408, 429, 500, 503]);
const isRetryable = (s: number) => s === 408 || s === 429 || s >= 500;
const HOSTS = ["bucket.test", "s3.eu-central-1.amazonaws.com", "acc.blob.core.windows.net", "storage.googleapis.com", "b.storage.googleapis.com", "notstorage.googleapis.com", "storage.googleapis.com.evil.test", "minio.local:9000", "xstorage.googleapis.com"];
const isGcs = (host: string) => host === "storage.googleapis.com" || host.endsWith(".storage.googleapis.com");
const TYPES = ["image/png", "application/pdf", "text/plain", "audio/wav", "application/vnd.ms-excel"];
const contentArb = fc.oneof(
  { weight: 4, arbitrary: fc.uint8Array({ minLength: 1, maxLength: 40 }).map((b) => Buffer.from(b).toString("base64")) },
  { weight: 1, arbitrary: fc.constantFrom("AA==", "AAAA", "/////w==", "++++") },
  { weight: 1, arbitrary: fc.tuple(fc.oneof({ weight: 5, arbitrary: fc.integer({ min: 500, max: 6000 }) }, { weight: 1, arbitrary: fc.constantFrom(65535, 65536, 70001, 131073, 400_000) }), fc.integer({ min: 0, max: 255 })).map(([n, x]) => Buffer.alloc(n, x).toString("base64")) },
);
const script = fc.record({
  slot: fc.array(apiStep, { maxLength: 3 }),
  slotAnswer: fc.oneof({ weight: 8, arbitrary: fc.constant("ok" as const) }, { weight: 2, arbitrary: fc.constantFrom("have" as const, "haveNull" as const) }, { weight: 1, arbitrary: fc.constantFrom("mismatch" as const, "mismatchCase" as const, "mismatchTail" as const, "mismatchHave" as const) }),
  put: fc.array(putStep, { maxLength: 6 }),
  patch: fc.array(apiStep, { maxLength: 3 }),
  host: fc.constantFrom(...HOSTS),
  putBody: fc.constantFrom("", "err", "<Error>ü</Error>"),
});
type Script = { slot: Step[]; slotAnswer: string; put: Step[]; patch: Step[]; host: string; putBody: string };

const idOf = (b: Buffer) => nodeCrypto.createHash("sha256").update(b).digest("base64url").slice(0, 22);
const shaOf = (b: Buffer) => nodeCrypto.createHash("sha256").update(b).digest("base64");

/** reference model of one upload */
function model(s: Script, maxRetries: number) {
  // slot request: API client semantics (bounded repetition of retryable statuses, last answer decides)
  let slotTries = 0;
  let slotOk = false;
  for (;;) {
    const st = s.slot[slotTries++] ?? { kind: "status", status: 200, delay: 0 };
    if (st.kind === "net") break;
    if (st.status < 400) { slotOk = true; break; }
    if (!isRetryable(st.status) || slotTries > 2) break;
  }
  if (!slotOk) return { slotTries, puts: 0, report: null, ok: false };
  if (s.slotAnswer.startsWith("have")) return { slotTries, puts: 0, report: null, ok: true };
  if (s.slotAnswer === "mismatch" || s.slotAnswer === "mismatchCase" || s.slotAnswer === "mismatchTail") return { slotTries, puts: 0, report: null, ok: false };
  if (s.slotAnswer === "mismatchHave") return { slotTries, puts: 0, report: null, ok: null }; // nothing to upload: either outcome
  let puts = 0;
  let last: Step;
  for (;;) {
    last = s.put[puts++] ?? { kind: "status", status: 200, delay: 0 };
    if (last.kind === "status" && (last.status === 200 || last.status === 201)) break;
    if (puts > maxRetries) break;
  }
  const stored = last.kind === "status" && (last.status === 200 || last.status === 201);
  if (last.kind === "net") return { slotTries, puts, report: null, ok: false };
  let patchTries = 0;
  let reported = false;
  for (;;) {
    const st = s.patch[patchTries++] ?? { kind: "status", status: 200, delay: 0 };
    if (st.kind === "net") break;
    if (st.status < 400) { reported = true; break; }
    if (!isRetryable(st.status) || patchTries > 2) break;
  }
  return { slotTries, puts, report: { status: last.status, tries: patchTries, reported }, ok: stored && reported, stored };
}

const toReply = (st: Step, json: any, text?: string): any =>
  st.kind === "net"
    ? { networkError: new TypeError("fetch failed"), delay: st.delay }
    : st.status < 400
      ? text !== undefined ? { status: st.status, text, delay: st.delay } : { status: st.status, json, delay: st.delay }
      : { status: st.status, text: text ?? "nope", delay: st.delay };

interface Item { b64: string; type: string; script: Script }
interface Seen { slots: Req[]; puts: Req[]; patches: Req[] }
/** one server for several media, told apart by content hash */
function serve(items: Item[]) {
  const byId = new Map<string, Item>();
  const seen = new Map<string, Seen>();
  for (const it of items) {
    const id = idOf(Buffer.from(it.b64, "base64"));
    if (!byId.has(id)) byId.set(id, it);
    seen.set(id, { slots: [], puts: [], patches: [] });
  }
  new FakeNet((req) => {
    if (req.method === "POST" && req.path === "/api/public/media") {
      const id = String(req.json?.sha256Hash).replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
      const it = byId.get(id);
      if (!it) fail(`slot requested for unknown content hash ${req.json?.sha256Hash}`);
      const sn = seen.get(id)!;
      const st = it.script.slot[sn.slots.length] ?? { kind: "status", status: 200, delay: 0 };
      sn.slots.push(req);
      const a = it.script.slotAnswer;
      const swap = (x: string) => x.replace(/[a-z]/gi, (ch) => (ch === ch.toLowerCase() ? ch.toUpperCase() : ch.toLowerCase()));
      const mediaId = a === "mismatchCase" ? (swap(id) !== id ? swap(id) : "other") : a === "mismatchTail" ? id.slice(0, 21) + (id[21] === "A" ? "B" : "A") : a.startsWith("mismatch") ? "other" + id.slice(5) : id;
      const url = `https://${it.script.host}/up/${id}?X-Sig=a%2Fb&x=1`;
      return toReply(st, { mediaId, uploadUrl: a === "have" ? undefined : a === "haveNull" || a === "mismatchHave" ? null : url });
    }
    if (req.method === "PUT") {
      const id = req.path.split("/").pop()!;
      const it = byId.get(id);
      if (!it || !req.path.startsWith("/up/")) fail(`PUT to an address the server never returned: ${req.url}`);
      same(req.url, `https://${it.script.host}/up/${id}?X-Sig=a%2Fb&x=1`, "upload address");
      const sn = seen.get(id)!;
      const st = it.script.put[sn.puts.length] ?? { kind: "status", status: 200, delay: 0 };
      sn.puts.push(req);
      return toReply(st, null, it.script.putBody);
    }
    if (req.method === "PATCH" && req.path.startsWith("/api/public/media/")) {
      const id = decodeURIComponent(req.path.slice("/api/public/media/".length));
      const it = byId.get(id);
      if (!it) fail(`status reported for unknown medium ${id}`);
      const sn = seen.get(id)!;
      const st = it.script.patch[sn.patches.length] ?? { kind: "status", status: 200, delay: 0 };
      sn.patches.push(req);
      return toReply(st, {});
    }
    return fail(`unexpected request ${req.method} ${req.url}`);
  }).install();
  return seen;
}
function checkOne(it: Item, sn: Seen, maxRetries: number, assoc: Record<string, any>, minPause: number) {
  const bytes = Buffer.from(it.b64, "base64");
  const m = model(it.script, maxRetries);
  for (const r of sn.slots) {
    same(r.json, { contentLength: bytes.length, contentType: it.type, sha256Hash: shaOf(bytes), ...assoc }, "slot request body");
  }
  same(sn.slots.length, m.slotTries, "slot requests");
  same(sn.puts.length, m.puts, `uploads for script ${show(it.script)}`);
  for (const r of sn.puts) {
    ensure(r.body instanceof Uint8Array && Buffer.from(r.body).equals(bytes), () => `uploaded bytes differ from the content: ${show(r.body)}`);
    same(r.headers["content-type"], it.type, "upload content type");
    const hostname = new URL(r.url).hostname;
    if (isGcs(hostname)) {
      ensure(!("x-amz-checksum-sha256" in r.headers) && !("x-ms-blob-type" in r.headers), "signed-header restricted storage got extra headers");
    } else {
      same(r.headers["x-amz-checksum-sha256"], shaOf(bytes), "checksum header");
      same(r.headers["x-ms-blob-type"], "BlockBlob", "blob type header");
    }
    ensure(!("authorization" in r.headers), "API credentials sent to the storage host");
  }
  for (let i = 1; i < sn.puts.length; i++)
    ensure(sn.puts[i].at - sn.puts[i - 1].at >= minPause, () => `retry ${i} after ${sn.puts[i].at - sn.puts[i - 1].at} ms`);
  same(sn.patches.length, m.report ? m.report.tries : 0, `status reports for script ${show(it.script)}`);
  for (const r of sn.patches) {
    same(r.json.uploadHttpStatus, m.report!.status, "reported upload status");
    same(r.json.uploadHttpError ?? "", [204, 304].includes(m.report!.status) ? "" : it.script.putBody, "reported upload body");
    ensure(typeof r.json.uploadedAt === "string" && !Number.isNaN(Date.parse(r.json.uploadedAt)), "uploadedAt is a timestamp");
    ensure(typeof r.json.uploadTimeMs === "number" && r.json.uploadTimeMs >= 0, "uploadTimeMs is a duration");
    ensure(r.at >= sn.puts[sn.puts.length - 1].at, "status reported before the final upload attempt");
  }
  return m;
}

// ---- sub 1: direct upload
const directArb = fc.record({
  b64: contentArb, type: fc.constantFrom(...TYPES), script,
  viaUri: fc.boolean(), view: fc.constantFrom("own" as const, "sub" as const, "tail" as const, "node" as const),
  assoc: fc.constantFrom("trace" as const, "obs" as const, "dataset" as const),
  field: fc.constantFrom("input", "output", "metadata", "expectedOutput"),
  maxRetries: fc.constantFrom(undefined, undefined, 0, 1, 2, 5),
  baseDelay: fc.constantFrom(undefined, 1, 500),
});
/** the same bytes as an array of their own or as a window into a larger buffer */
function viewOf(b: Buffer, how: string): Uint8Array {
  if (how === "own") return new Uint8Array(b);
  if (how === "node") return Buffer.from(b);
  const pre = 7, post = how === "sub" ? 5 : 0;
  const big = new Uint8Array(pre + b.length + post).fill(0xee);
  big.set(b, pre);
  return big.subarray(pre, pre + b.length);
}
async function runDirect(c: any) {
  const clock = useClock();
  const seen = serve([c]);
  const api = new LangfuseAPIClient({ environment: "http://lf.test", username: "pk", password: "sk", xLangfuseSdkName: "js", xLangfuseSdkVersion: "1", xLangfusePublicKey: "pk" } as any);
  const bytes = Buffer.from(c.b64, "base64");
  const media = c.viaUri ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${c.type};base64,${c.b64}` }) : new LangfuseMedia({ source: "bytes", contentBytes: viewOf(bytes, c.view), contentType: c.type });
  const assoc: any = c.assoc === "trace" ? { traceId: "t1" } : c.assoc === "obs" ? { traceId: "t1", observationId: "o1" } : { datasetId: "d1", datasetItemId: "i1" };
  const p = uploadMedia({ apiClient: api, media, field: c.field, ...assoc, ...(c.maxRetries !== undefined ? { maxRetries: c.maxRetries } : {}), ...(c.baseDelay !== undefined ? { baseDelay: c.baseDelay } : {}) });
  let ok = true;
  try {
    await clock.drive(p, { what: "upload", maxMs: 3600_000 });
  } catch (e) {
    if (e instanceof Stuck) fail(e.message);
    ok = false;
  }
  const m = checkOne(c, seen.get(idOf(bytes))!, c.maxRetries ?? 3, { ...assoc, field: c.field }, c.baseDelay ?? 1000);
  if (m.ok !== null) same(ok, m.ok, `upload outcome for script ${show(c.script)}`);
  const before = [...seen.values()].reduce((a, s) => a + s.slots.length + s.puts.length + s.patches.length, 0);
  await clock.settle();
  same([...seen.values()].reduce((a, s) => a + s.slots.length + s.puts.length + s.patches.length, 0), before, "requests after the upload settled");
  return { nontrivial: c.script.slot.length + c.script.put.length + c.script.patch.length > 0 || c.script.slotAnswer !== "ok", labels: [`put:${m.puts}`, m.ok ? "ok" : "failed", m.report && m.report.status >= 400 && "failure reported", c.script.slotAnswer, isGcs(c.script.host) && "gcs"] };
}

// ---- sub 2: media embedded in spans
const spanArb = fc.record({
  items: fc.uniqueArray(fc.record({ b64: contentArb, type: fc.constantFrom(...TYPES), script }), { minLength: 1, maxLength: 3, selector: (x) => x.b64 }),
  many: fc.oneof({ weight: 12, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: 10, max: 120 }) }), // further media, all answered with success
  place: fc.array(fc.record({ item: fc.nat(2), field: fc.constantFrom("input" as const, "output" as const, "metadata" as const) }), { minLength: 1, maxLength: 3 }),
  mode: fc.constantFrom("immediate" as const, "batched" as const),
  end: fc.constantFrom("flush" as const, "shutdown" as const),
});
async function runSpans(c: any) {
  const clock = useClock();
  const okScript: Script = { slot: [], slotAnswer: "ok", put: [{ kind: "status", status: 200, delay: 50 }], patch: [], host: "bucket.test", putBody: "" };
  const extra = Array.from({ length: c.many }, (_, i) => ({ b64: Buffer.from(`medium number ${i}`).toString("base64"), type: "text/plain", script: okScript }));
  const items = [...c.items, ...extra];
  const seen = serve(items);
  return isolated(async () => {
    const { exporter, processor } = makeTracing({ exportMode: c.mode, mediaUploadEnabled: true });
    // one span per distinct medium, so that each script is consumed by exactly one upload
    const used = new Map<number, any>();
    const FIELDS = ["input", "output", "metadata"] as const;
    for (const pl of [...c.place.map((x: any) => ({ i: x.item % c.items.length, field: x.field })), ...extra.map((_, k) => ({ i: c.items.length + k, field: FIELDS[k % 3] }))]) {
      const i = pl.i;
      if (used.has(i)) continue;
      const it = items[i];
      const v = `x data:${it.type};base64,${it.b64} y`;
      const s = startObservation(`s${i}`, { [pl.field]: pl.field === "metadata" ? { m: v } : v } as any);
      used.set(i, { id: s.id, traceId: s.traceId, field: pl.field });
      s.end();
    }
    startObservation("plain", { input: "nothing" }).end();
    try {
      await clock.drive(c.end === "flush" ? processor.forceFlush() : processor.shutdown(), { what: "flush", maxMs: 3600_000 });
    } catch (e: any) {
      fail(`${c.end} did not resolve: ${e?.message}`);
    }
    same(exporter.spans.length, used.size + 1, "exported spans");
    let faults = false;
    for (const [i, u] of used) {
      const it = items[i];
      const bytes = Buffer.from(it.b64, "base64");
      const rec = exporter.spans.find((s) => s.spanId === u.id);
      ensure(rec, `span ${i} was not exported`);
      const attr = u.field === "metadata" ? "langfuse.observation.metadata.m" : `langfuse.observation.${u.field}`;
      same(rec.attributes[attr], `x @@@langfuseMedia:type=${it.type}|id=${idOf(bytes)}|source=base64_data_uri@@@ y`, "exported attribute");
      const m = checkOne(it, seen.get(idOf(bytes))!, 3, { traceId: u.traceId, observationId: u.id, field: u.field }, 1000);
      if (!m.ok || m.puts > 1) faults = true;
    }
    const before = [...seen.values()].reduce((a, s) => a + s.slots.length + s.puts.length + s.patches.length, 0);
    await clock.settle();
    same([...seen.values()].reduce((a, s) => a + s.slots.length + s.puts.length + s.patches.length, 0), before, "upload requests after flush resolved");
    return { nontrivial: faults, labels: [c.mode, c.end, used.size > 5 ? "many media" : `media:${used.size}`] };
  });
}

// ---- sub 3: content that cannot be uploaded
const emptyArb = fc.record({ kind: fc.constantFrom("emptyBytes" as const, "noType" as const, "badUri" as const, "emptyUri" as const) });
async function runEmpty(c: any) {
  const clock = useClock();
  let n = 0;
  new FakeNet(() => { n++; return { json: { mediaId: "x", uploadUrl: "http://b.test/x" } }; }).install();
  const api = new LangfuseAPIClient({ environment: "http://lf.test", username: "pk", password: "sk" } as any);
  const media = c.kind === "emptyBytes" ? new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array(0), contentType: "image/png" }) : c.kind === "noType" ? new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1]), contentType: "" as any }) : new LangfuseMedia({ source: "base64_data_uri", base64DataUri: c.kind === "badUri" ? "not a uri" : "data:image/png;base64," });
  let ok = true;
  try { await clock.drive(uploadMedia({ apiClient: api, media, field: "input", traceId: "t" })); } catch { ok = false; }
  ensure(!ok, "uploading incomplete content claimed success");
  same(n, 0, "requests for incomplete content");
  return { nontrivial: true };
}

main({
  level: "fault_enumeration",
  assumptions: ["storage and API are a scripted in-memory fetch; clock and timers are virtual", "per medium one upload at a time (concurrent uploads of different media are generated)"],
  subs: [
    { name: "direct upload", arb: directArb, run: runDirect, quick: 5000, thorough: 60000, rule: "at least one scripted fault or a non-default slot answer" },
    { name: "media in spans", arb: spanArb, run: runSpans, quick: 1800, thorough: 20000, rule: "some upload needs a retry or fails" },
    { name: "incomplete content", arb: emptyArb, run: runEmpty, quick: 20, thorough: 20, rule: "always" },
  ],
});
