import fc from "fast-check";
import nodeCrypto from "node:crypto";
import { main, ensure, same, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { anyString, cleanString, bytes, token } from "../lib/arbs";
import { LangfuseMedia, LangfuseMediaReference } from "@langfuse/core";
import { LangfuseClient, MediaManager } from "@langfuse/client";

const TYPES = ["Image/PNG", "image/png", "image/svg+xml", "application/pdf", "text/plain", "audio/wav", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"];
const content = fc.oneof({ weight: 8, arbitrary: bytes(80) }, { weight: 1, arbitrary: fc.tuple(fc.integer({ min: 1000, max: 70_000 }), fc.nat(255)).map(([n, s]) => Uint8Array.from({ length: n }, (_, i) => (i * 31 + s) & 255)) });
const sha = (b: Uint8Array) => nodeCrypto.createHash("sha256").update(b).digest();

async function checkMedia(m: any, b: Uint8Array, type: string, source: string) {
  same(m.contentLength, b.length, "content length");
  ensure(Buffer.compare(Buffer.from(m._contentBytes), Buffer.from(b)) === 0, "content bytes");
  same(await m.getSha256Hash(), sha(b).toString("base64"), "SHA-256");
  const id = sha(b).toString("base64url").slice(0, 22);
  same(await m.getId(), id, "media id");
  const uri = `data:${type};base64,${Buffer.from(b).toString("base64")}`;
  same(m.base64DataUri, uri, "data URI");
  same(JSON.parse(JSON.stringify({ m })).m, uri, "JSON form");
  const tag = await m.getTag();
  same(tag, `@@@langfuseMedia:type=${type}|id=${id}|source=${source}@@@`, "reference tag");
  same({ ...MediaManager.parseReferenceString(tag) }, { mediaId: id, source, contentType: type }, "parsed reference tag");
  return uri;
}
async function roundtrip(c: any) {
  const b: Uint8Array = c.view ? new Uint8Array(Buffer.concat([Buffer.from([1, 2, 3]), Buffer.from(c.bytes), Buffer.from([9])]).buffer, 0).subarray(0) : c.bytes;
  // a view into a larger buffer must not expose its neighbours
  const backing = new Uint8Array(c.bytes.length + 7);
  backing.fill(0xee);
  backing.set(c.bytes, 3);
  const view = backing.subarray(3, 3 + c.bytes.length);
  const m1 = new LangfuseMedia({ source: "bytes", contentBytes: c.view ? view : c.bytes, contentType: c.type });
  const uri = await checkMedia(m1, c.bytes, c.type, "bytes");
  if (c.bytes.length) {
    const m2 = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: uri });
    await checkMedia(m2, c.bytes, c.type, "base64_data_uri");
    const withParam = uri.replace(";base64,", ";charset=utf-8;base64,");
    await checkMedia(new LangfuseMedia({ source: "base64_data_uri", base64DataUri: withParam }), c.bytes, c.type, "base64_data_uri");
    const params = uri.replace(";base64,", ";charset=utf-8;name=a b.png;x=1;base64,");
    await checkMedia(new LangfuseMedia({ source: "base64_data_uri", base64DataUri: params }), c.bytes, c.type, "base64_data_uri");
  }
  void b;
  return { nontrivial: c.bytes.length > 0, labels: [c.view && "buffer view", c.bytes.length > 1000 && "large"] };
}
async function malformed(c: any) {
  const input = c.k === "nonString" ? [null, undefined, 5, {}, [], true][c.n % 6] : c.k === "noPrefix" ? c.s + "image/png;base64,QUJD" : c.k === "noBase64" ? "data:image/png," + c.s : c.k === "emptyType" ? "data:;base64,QUJD" : c.k === "emptyData" ? "data:image/png;base64," : c.k === "noComma" ? "data:image/png;base64" + (c.n === 0 ? ";QUJD" : c.n === 1 ? "%2CQUJD" : c.n === 2 ? ":QUJD" : "") + c.s.replaceAll(",", "") : c.k === "badB64" ? "data:image/png;base64," + ["A", "AAAAA", "AAA*", "====", "AA=A", "Ä"][c.n % 6] : c.s;
  if (c.k === "random" && /^data:[^,;]/.test(input)) return { nontrivial: false };
  if (c.k === "noPrefix" && input.startsWith("data:")) return { nontrivial: false };
  const m: any = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: input as any });
  same(m.contentLength, undefined, `content length of malformed input ${show(input)}`);
  same(await m.getTag(), null, `tag of malformed input ${show(input)}`);
  same(await m.getId(), null, "id of malformed input");
  same(m.base64DataUri, null, "data URI of malformed input");
  return { nontrivial: true, labels: [c.k] };
}
async function parse(c: any) {
  const parts: Record<string, string> = { type: c.type, id: c.id, source: c.source };
  const keys = c.order.filter((k: string) => k in parts);
  const missing = ["type", "id", "source"].filter((k) => !keys.includes(k));
  const s = c.pre + "@@@langfuseMedia:" + keys.map((k: string) => `${k}=${parts[k]}`).concat(c.extra ? ["x=" + c.extra] : []).join("|") + "@@@" + c.post;
  let out: any;
  try {
    out = { v: MediaManager.parseReferenceString(s) };
  } catch (e) {
    out = { e };
  }
  const ok = !missing.length && c.pre === "" && c.post === "";
  if (ok) same({ ...out.v }, { mediaId: c.id, source: c.source, contentType: c.type }, `parsing ${s}`);
  else ensure("e" in out && out.e instanceof Error, () => `malformed reference ${show(s)} parsed as ${show(out)}`);
  return { nontrivial: true, labels: [ok ? "valid" : "malformed"] };
}
async function reference(c: any) {
  const clock = useClock();
  const net = new FakeNet((req) => {
    same(req.url, "http://dl.test/m?sig=abc", "download address");
    same(req.method, "GET", "download method");
    ensure(!("authorization" in req.headers), "credentials are not sent to the download address");
    if (c.status === 0) return { networkError: new TypeError("fetch failed") };
    return { status: c.status, bytes: c.bytes };
  }).install();
  const p: any = { mediaId: c.id, contentType: c.type, url: "http://dl.test/m?sig=abc", referenceString: `@@@langfuseMedia:type=${c.type}|id=${c.id}|source=bytes@@@`, ...(c.len !== undefined ? { contentLength: c.len } : {}) };
  const expiry = c.exp.k === "rel" ? new Date(clock.now + c.exp.ms).toISOString() : c.exp.k === "bad" ? "not a date" : undefined;
  if (expiry !== undefined) p.urlExpiry = expiry;
  const r = new LangfuseMediaReference(p);
  for (const k of Object.keys(p)) same((r as any)[k], p[k], `field ${k}`);
  same(JSON.stringify({ a: [r] }), JSON.stringify({ a: [p.referenceString] }), "JSON form of a media reference");
  const th = c.th;
  same(th === undefined ? r.isUrlExpired() : r.isUrlExpired(th), c.exp.k === "rel" ? c.exp.ms <= (th ?? 60) * 1000 : false, `expiry ${show(c.exp)} threshold ${th}`);
  const ok = c.status === 200;
  const get = async (f: () => Promise<any>) => {
    try {
      return { v: await f() };
    } catch (e) {
      return { e };
    }
  };
  const b = await get(() => r.fetchBytes());
  const s = await get(() => r.fetchBase64());
  const u = await get(() => r.fetchDataUri());
  if (ok) {
    ensure("v" in b && deepEqual(new Uint8Array(b.v), new Uint8Array(c.bytes)), () => `fetched bytes differ: ${show(b)}`);
    same((s as any).v, Buffer.from(c.bytes).toString("base64"), "fetched base64");
    same((u as any).v, `data:${c.type};base64,${Buffer.from(c.bytes).toString("base64")}`, "fetched data URI");
  } else for (const x of [b, s, u]) ensure("e" in x, () => `a failed download (status ${c.status}) returned ${show(x)}`);
  same(net.reqs.length, 3, "downloads");
  return { nontrivial: true, labels: [ok ? "ok" : "failing", c.exp.k] };
}
async function large(c: any) {
  const b = new Uint8Array(c.n);
  let x = c.seed + 1;
  for (let i = 0; i < c.n; i++) { x = (x * 1103515245 + 12345) & 0x7fffffff; b[i] = x >> 16; }
  const r = await roundtrip({ bytes: b, type: c.type, view: c.seed % 2 === 1 });
  new FakeNet(() => ({ status: 200, bytes: b })).install();
  const ref = new LangfuseMediaReference({ mediaId: "m", contentType: c.type, url: "http://dl.test/m", referenceString: "@@@langfuseMedia:type=x|id=m|source=bytes@@@" });
  ensure(Buffer.compare(Buffer.from(await ref.fetchBytes()), Buffer.from(b)) === 0, "downloaded bytes of a large medium");
  same(await ref.fetchBase64(), Buffer.from(b).toString("base64"), "downloaded base64 of a large medium");
  return { ...r, labels: [c.n > 1_000_000 && "over 1 MB"] };
}
main({
  subs: [
    { name: "large media", arb: fc.record({ n: fc.oneof(fc.integer({ min: 60_000, max: 300_000 }), fc.integer({ min: 1_050_000, max: 1_400_000 })), seed: fc.nat(1000), type: fc.constantFrom(...TYPES) }), run: large, quick: 4, thorough: 60, rule: "content of 60 kB to 1.4 MB" },
    { name: "media objects", arb: fc.record({ bytes: content, type: fc.constantFrom(...TYPES), view: fc.boolean() }), run: roundtrip, quick: 4000, thorough: 100_000, rule: "arbitrary content and type; non-trivial = non-empty content" },
    { name: "malformed data URIs", arb: fc.record({ k: fc.constantFrom("nonString", "noPrefix", "noBase64", "emptyType", "emptyData", "noComma", "badB64", "random"), n: fc.nat(5), s: anyString }), run: malformed, quick: 3000, thorough: 60_000, rule: "near-miss data URIs; non-trivial = not accidentally well-formed" },
    { name: "reference tags", arb: fc.record({ type: fc.constantFrom(...TYPES), id: fc.stringMatching(/^[A-Za-z0-9_-]{1,24}$/), source: fc.constantFrom("bytes", "base64_data_uri", "file"), order: fc.oneof({ weight: 2, arbitrary: fc.shuffledSubarray(["type", "id", "source"], { minLength: 3 }) }, { weight: 1, arbitrary: fc.shuffledSubarray(["type", "id", "source"]) }), extra: fc.option(token, { nil: undefined }), pre: fc.constantFrom("", "", "", "x", "@"), post: fc.constantFrom("", "", "", "x", " ") }), run: parse, quick: 3000, thorough: 60_000, rule: "tags with fields in any order, missing fields, or surrounding text; always non-trivial" },
    { name: "media references", arb: fc.record({ id: token, type: fc.constantFrom(...TYPES), bytes: bytes(60), status: fc.constantFrom(200, 200, 200, 403, 404, 500, 0), len: fc.option(fc.nat(100), { nil: undefined }), exp: fc.oneof(fc.record({ k: fc.constant("rel"), ms: fc.oneof(fc.constantFrom(60_000, 59_999, 60_001, 0, -1, 1, 30_000, 10_000), fc.integer({ min: -100_000, max: 200_000 })) }), fc.constantFrom({ k: "none", ms: 0 }, { k: "bad", ms: 0 })), th: fc.constantFrom(undefined, 0, 10, 30, 60, 120) }), run: reference, quick: 3000, thorough: 60_000, rule: "media reference with any expiry, threshold and download outcome; always non-trivial" },
  ],
  assumptions: ["content types and sources contain no '|', '=' or '@@@'", "base64 data contains no comma"],
});
