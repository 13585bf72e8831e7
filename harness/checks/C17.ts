import fc from "fast-check";
import nodeCrypto from "node:crypto";
import { main, ensure, same, show, fail, deepEqual } from "../lib/runner";
import { useClock, Stuck } from "../lib/env";
import { FakeNet, type Req } from "../lib/net";
import { LangfuseClient } from "@langfuse/client";
import { LangfuseMedia, LangfuseMediaReference } from "@langfuse/core";
import { cleanString, key } from "../lib/arbs";

const POOL = ["AAAA", "AAAAAA==", "AQID", "/+/+", "aGVsbG8=", ...Array.from({ length: 60 }, (_, i) => Buffer.from(`medium ${i}`).toString("base64"))]; // contents; some share prefixes
type M = { c: number; type: string; src: "bytes" | "base64_data_uri"; fresh: boolean };
const mArb: fc.Arbitrary<M> = fc.record({ c: fc.nat(4), type: fc.constantFrom("image/png", "image/png", "application/pdf"), src: fc.constantFrom("bytes" as const, "base64_data_uri" as const), fresh: fc.boolean() });
class Point { constructor(public x: number, public inner: any) {} }
class WithJson { constructor(public v: any) {} toJSON() { return { json: this.v }; } }
type N = { m: M } | { r: number } | { leaf: any } | { special: string } | { a: N[] } | { o: [string, N][] } | { deep: number; of: N } | { shared: number } | { nullproto: [string, N][] } | { inst: N } | { many: number; at: number };
const { node } = fc.letrec<{ node: N }>((tie) => ({
  node: fc.oneof(
    { maxDepth: 4, depthSize: "medium" },
    { weight: 4, arbitrary: fc.record({ m: mArb }) },
    { weight: 1, arbitrary: fc.record({ r: fc.nat(2) }) },
    { weight: 3, arbitrary: fc.record({ leaf: fc.constantFrom(null, 0, -1.5, "", "text", true, false, "data:image/png;base64,AAAA", "@@@langfuseMedia:type=x|id=y|source=z@@@", "ü😀") }) },
    { weight: 1, arbitrary: fc.record({ special: fc.constantFrom("date", "map", "undefined", "withJson", "invalidDate") }) },
    { weight: 2, arbitrary: fc.record({ a: fc.array(tie("node"), { maxLength: 4 }) }) },
    { weight: 3, arbitrary: fc.record({ o: fc.uniqueArray(fc.tuple(key, tie("node")), { maxLength: 4, selector: (x) => x[0] }) }) },
    { weight: 1, arbitrary: fc.record({ nullproto: fc.uniqueArray(fc.tuple(key, tie("node")), { maxLength: 3, selector: (x) => x[0] }) }) },
    { weight: 1, arbitrary: fc.record({ deep: fc.integer({ min: 1, max: 14 }), of: tie("node") }) },
    { weight: 1, arbitrary: fc.record({ shared: fc.nat(1) }) },
    { weight: 1, arbitrary: fc.record({ many: fc.integer({ min: 6, max: 60 }), at: fc.nat(1) }) }, // a list (or object) of that many distinct media
  ),
}));
const caseArb = fc.record({
  input: fc.option(fc.oneof({ weight: 12, arbitrary: node }, { weight: 1, arbitrary: fc.record({ deep: fc.integer({ min: 17, max: 20 }), of: fc.record({ m: mArb }) }) as fc.Arbitrary<N> }), { nil: undefined, freq: 8 }), expectedOutput: fc.option(node, { nil: undefined, freq: 3 }), metadata: fc.option(node, { nil: undefined, freq: 3 }),
  shared: fc.tuple(node, node),
  id: fc.option(cleanString, { nil: undefined, freq: 2 }), bareId: fc.boolean(), datasetName: fc.constantFrom("plain", "folder/sub", "a b", "ü"),
  extra: fc.record({ sourceTraceId: cleanString, sourceObservationId: cleanString, status: fc.constantFrom("ACTIVE", "ARCHIVED") }, { requiredKeys: [] }),
  fault: fc.oneof({ weight: 5, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: fc.record({ c: fc.nat(4), kind: fc.constantFrom("slot400", "slot500", "slotNet", "put403", "put204", "putNet", "mismatch", "patch400") }) }, { weight: 1, arbitrary: fc.record({ c: fc.constant(-1), kind: fc.constantFrom("dataset404", "create400") }) }, { weight: 1, arbitrary: fc.record({ c: fc.nat(4), kind: fc.constantFrom("have", "put500once", "put412once", "put403once", "putNetOnce", "put500x3", "slot503once", "patch500once") }) }),
  lat: fc.array(fc.constantFrom(0, 1, 30, 700), { minLength: 5, maxLength: 5 }),
});

const OKFAULT = ["have", "put500once", "put412once", "put403once", "putNetOnce", "put500x3", "slot503once", "patch500once"]; // overcome by a retry
const sha = (b: string) => nodeCrypto.createHash("sha256").update(Buffer.from(b, "base64"));
const idOf = (b: string) => sha(b).digest("base64url").slice(0, 22);
const LIMIT = 20;

async function run(c: any) {
  const clock = useClock();
  const cache = new Map<string, LangfuseMedia>();
  const mk = (m: M) => {
    const k = `${m.c}|${m.type}|${m.src}`;
    if (!m.fresh && cache.has(k)) return cache.get(k)!;
    const v = m.src === "bytes" ? new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array(Buffer.from(POOL[m.c], "base64")), contentType: m.type as any }) : new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${m.type};base64,${POOL[m.c]}` });
    if (!m.fresh) cache.set(k, v);
    return v;
  };
  const tag = (m: M) => `@@@langfuseMedia:type=${m.type}|id=${idOf(POOL[m.c])}|source=${m.src}@@@`;
  const rs = (i: number) => `@@@langfuseMedia:type=image/gif|id=ref${i}|source=bytes@@@`;
  const wanted = new Map<number, Set<string>>(); // content -> fields in which it occurs
  let tooDeep = false, mediaCount = 0;
  // returns [value given by the caller, JSON value that must be sent]
  const sharedVals = new Map<number, any>();
  const build = (n: N, level: number, field: string, count: boolean, inShared: boolean): [any, any] => {
    if ("m" in n) {
      if (level > LIMIT + 1) { tooDeep = true; return [mk(n.m), undefined]; }
      if (count) { mediaCount++; (wanted.get(n.m.c) ?? wanted.set(n.m.c, new Set()).get(n.m.c)!).add(field); }
      return [mk(n.m), tag(n.m)];
    }
    if ("r" in n) { const v = new LangfuseMediaReference({ mediaId: `ref${n.r}`, contentType: "image/gif", url: "http://x.test/y", referenceString: rs(n.r) } as any); return [v, rs(n.r)]; }
    if ("leaf" in n) return [n.leaf, n.leaf];
    if ("special" in n) {
      switch (n.special) {
        case "date": return [new Date(Date.UTC(2024, 1, 2, 3, 4, 5, 6)), "2024-02-02T03:04:05.006Z"];
        case "invalidDate": return [new Date(NaN), null];
        case "map": return [new Map([["a", 1]]), {}];
        case "withJson": return [new WithJson(7), { json: 7 }];
        default: return [undefined, undefined];
      }
    }
    if ("a" in n) { const p = n.a.map((x) => build(x, level + 1, field, count, inShared)); return [p.map((x) => x[0]), p.map((x) => (x[1] === undefined ? null : x[1]))]; }
    if ("o" in n || "nullproto" in n) {
      const a: any = "o" in n ? {} : Object.create(null), b: any = {};
      for (const [k, x] of "o" in n ? n.o : n.nullproto) { const [p, q] = build(x, level + 1, field, count, inShared); a[k] = p; if (q !== undefined) b[k] = q; }
      return [a, b];
    }
    if ("many" in n) {
      const ms: N[] = Array.from({ length: n.many }, (_, i) => ({ m: { c: 5 + i, type: "text/plain", src: "bytes", fresh: true } }));
      return build(n.at ? { o: ms.map((m, i) => [`k${i}`, m] as [string, N]) } : { a: ms }, level, field, count, inShared);
    }
    if ("deep" in n) {
      let [p, q] = build(n.of, level + n.deep, field, count, inShared);
      for (let i = 0; i < n.deep; i++) { p = i % 2 ? [p] : { d: p }; q = i % 2 ? [q === undefined ? null : q] : q === undefined ? {} : { d: q }; }
      return [p, q];
    }
    if ("shared" in n) {
      if (inShared) return [null, null];
      const [p, q] = build(c.shared[n.shared], level, field, count, true);
      if (!sharedVals.has(n.shared)) sharedVals.set(n.shared, p);
      return [sharedVals.get(n.shared), q]; // the very same object may appear in several places
    }
    return [null, null];
  };
  const req: any = { datasetName: c.datasetName, ...c.extra };
  const want: any = { datasetName: c.datasetName, ...c.extra };
  for (const f of ["input", "expectedOutput", "metadata"]) {
    if (c[f] === undefined) continue;
    const [p, q] = build(c[f], 1, f, true, false);
    req[f] = p;
    if (q !== undefined) want[f] = q;
  }
  if (c.id !== undefined) { req.id = c.id; want.id = c.id; } else if (c.bareId) req.id = undefined;
  fc.pre(!tooDeep);
  const snapshot = snap(req);

  const log: Req[] = [];
  const done = new Set<string>(); // media whose protocol completed
  const counts = new Map<string, { slot: Req[]; put: Req[]; patch: Req[] }>();
  let creates: Req[] = [];
  let early = false;
  const f = c.fault;
  const hit = (id: string, kind: string) => f && f.kind === kind && f.c >= 0 && idOf(POOL[f.c]) === id;
  const cnt = (id: string) => counts.get(id) ?? counts.set(id, { slot: [], put: [], patch: [] }).get(id)!;
  const lat = (id: string) => c.lat[POOL.findIndex((p) => idOf(p) === id)] ?? 0;
  new FakeNet((r) => {
    log.push(r);
    if (r.method === "GET" && r.path.startsWith("/api/public/v2/datasets/")) {
      same(decodeURIComponent(r.path.slice("/api/public/v2/datasets/".length)), c.datasetName, "dataset looked up");
      if (f?.kind === "dataset404") return { status: 404, json: {} };
      return { json: { id: "ds-1", name: c.datasetName } };
    }
    if (r.method === "POST" && r.path === "/api/public/media") {
      const id = r.json.sha256Hash.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
      cnt(id).slot.push(r);
      if (hit(id, "slot400")) return { status: 400, json: {}, delay: lat(id) };
      if (hit(id, "slotNet")) return { networkError: new TypeError("fetch failed"), delay: lat(id) };
      if (hit(id, "slot500")) return { status: 500, json: {}, delay: lat(id) };
      if (hit(id, "slot503once") && cnt(id).slot.length === 1) return { status: 503, json: {}, delay: lat(id) };
      if (hit(id, "have")) { done.add(id); return { json: { mediaId: id, uploadUrl: null }, delay: lat(id) }; }
      return { json: { mediaId: hit(id, "mismatch") ? "other" : id, uploadUrl: `http://store.test/${id}` }, delay: lat(id) };
    }
    if (r.method === "PUT") {
      const id = r.path.slice(1);
      cnt(id).put.push(r);
      if (hit(id, "put403")) return { status: 403, text: "no", delay: lat(id) };
      if (hit(id, "putNet")) return { networkError: new TypeError("fetch failed"), delay: lat(id) };
      if (hit(id, "put204")) return { status: 204, delay: lat(id) };
      for (const [k, st, times] of [["put500once", 500, 1], ["put412once", 412, 1], ["put403once", 403, 1], ["put500x3", 500, 3]] as const)
        if (hit(id, k) && cnt(id).put.length <= times) return { status: st, text: "oops", delay: lat(id) };
      if (hit(id, "putNetOnce") && cnt(id).put.length === 1) return { networkError: new TypeError("fetch failed"), delay: lat(id) };
      return { status: 200, text: "", delay: lat(id) };
    }
    if (r.method === "PATCH") {
      const id = r.path.split("/").pop()!;
      cnt(id).patch.push(r);
      if (hit(id, "patch400")) return { status: 400, json: {} };
      if (hit(id, "patch500once") && cnt(id).patch.length === 1) return { status: 500, json: {} };
      done.add(id);
      return { json: {} };
    }
    if (r.method === "POST" && r.path === "/api/public/dataset-items") {
      creates.push(r);
      for (const cc of wanted.keys()) if (!done.has(idOf(POOL[cc]))) early = true;
      if (f?.kind === "create400") return { status: 400, json: { message: "bad" } };
      return { json: { ...r.json, status: "ACTIVE", server: true } };
    }
    return fail(`unexpected request ${r.method} ${r.url}`);
  }).install();
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  let out: any, err: any;
  try {
    out = await clock.drive(client.dataset.createItem(req), { what: "createItem" });
  } catch (e) {
    if (e instanceof Stuck) fail(e.message);
    err = e;
  }
  await clock.settle();
  same(snap(req), snapshot, "caller's request object after the call");
  ensure(!early, "item created before all its media were stored");
  const uploadFault = f && ((f.c >= 0 && wanted.has(f.c) && !OKFAULT.includes(f.kind)) || (f.kind === "dataset404" && wanted.size > 0));
  for (const [cc, fields] of wanted) {
    const b = Buffer.from(POOL[cc], "base64");
    const n = counts.get(idOf(POOL[cc]));
    if (!uploadFault) ensure(n && n.slot.length === (hit(idOf(POOL[cc]), "slot503once") ? 2 : 1), () => `medium ${POOL[cc]}: ${n?.slot.length ?? 0} slot requests`);
    if (!n) continue;
    ensure(n.slot.length <= (f?.kind === "slot500" || f?.kind === "slot503once" ? 3 : 1), () => `medium ${POOL[cc]} requested ${n.slot.length} upload slots`);
    for (const s of n.slot) {
      same({ l: s.json.contentLength, h: s.json.sha256Hash, d: s.json.datasetId, t: s.json.traceId, o: s.json.observationId }, { l: b.length, h: sha(POOL[cc]).digest("base64"), d: "ds-1", t: undefined, o: undefined }, "slot request");
      ensure(fields.has(s.json.field), `slot for field ${s.json.field}, medium occurs in ${[...fields]}`);
      if (c.id !== undefined) same(s.json.datasetItemId, c.id, "item id in slot request");
      if (creates[0]) same(s.json.datasetItemId, creates[0].json.id, "item id in slot request");
    }
    for (const p of n.put) ensure(Buffer.from(p.body).equals(b), "uploaded bytes");
  }
  for (const id of counts.keys()) ensure([...wanted.keys()].some((cc) => idOf(POOL[cc]) === id), `uploaded a medium the item does not contain (${id})`);
  if (uploadFault) {
    ensure(err !== undefined, `createItem succeeded although ${show(f)}`);
    same(creates.length, 0, "items created despite a failed upload");
  } else {
    same(creates.length, 1, "create requests");
    const body = creates[0].json;
    if (c.id === undefined) { ensure(typeof body.id === "string" && body.id.length > 0, "generated item id"); want.id = body.id; }
    same(body, want, "created item");
    if (f?.kind === "create400") ensure(err !== undefined, "failing create request did not reject");
    else { if (err !== undefined) fail(`createItem failed: ${show(err?.message ?? err)}`); same(out, { ...body, status: "ACTIVE", server: true }, "returned item"); }
  }
  return { nontrivial: wanted.size > 0, labels: [mediaCount > wanted.size && "repeated media", [...wanted.values()].some((s) => s.size > 1) && "across fields", !!uploadFault && "upload fault", sharedVals.size > 0 && "shared", `distinct:${wanted.size > 5 ? ">5" : wanted.size}`] };
}
/** structure of the caller's object, media by identity */
const ids = new WeakMap<object, number>();
let next = 0;
function snap(v: any): any {
  if (v instanceof LangfuseMedia || v instanceof LangfuseMediaReference || v instanceof Map || v instanceof WithJson) { if (!ids.has(v)) ids.set(v, ++next); return `#${ids.get(v)}`; }
  if (v instanceof Date) return `D${v.getTime()}`;
  if (Array.isArray(v)) return v.map(snap);
  if (v && typeof v === "object") return Object.fromEntries(Object.keys(v).map((k) => [k, snap(v[k])]));
  return v === undefined ? "#undef" : v;
}

// ---- cyclic structures: never loops forever
const cycArb = fc.record({ at: fc.constantFrom("input" as const, "metadata" as const), withMedia: fc.boolean(), arr: fc.boolean() });
async function runCyc(c: any) {
  const clock = useClock();
  let created = 0;
  new FakeNet((r) => {
    if (r.path === "/api/public/dataset-items") { created++; return { json: r.json }; }
    if (r.path.startsWith("/api/public/v2/datasets/")) return { json: { id: "ds-1" } };
    if (r.path === "/api/public/media") return { json: { mediaId: "x", uploadUrl: null } };
    return fail("unexpected request");
  }).install();
  const o: any = { k: 1 };
  if (c.withMedia) o.m = new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1]), contentType: "image/png" });
  o.self = c.arr ? [o] : o;
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  let err: any;
  try { await clock.drive(client.dataset.createItem({ datasetName: "d", [c.at]: o } as any), { what: "createItem with a cycle" }); } catch (e) { if (e instanceof Stuck) fail(e.message); err = e; }
  ensure(err !== undefined, "a cyclic value cannot be sent, yet the call succeeded");
  same(created, 0, "items created from a cyclic value");
  return { nontrivial: true };
}

// ---- invalid media
const invArb = fc.record({ kind: fc.constantFrom("badUri", "empty"), field: fc.constantFrom("input", "expectedOutput", "metadata"), nested: fc.boolean() });
async function runInv(c: any) {
  const clock = useClock();
  let n = 0;
  new FakeNet((r) => { if (r.path === "/api/public/dataset-items") n++; return { json: { id: "ds-1" } }; }).install();
  const m = c.kind === "badUri" ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: "nope" }) : new LangfuseMedia({ source: "bytes", contentBytes: undefined as any, contentType: "image/png" });
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  let err: any;
  try { await clock.drive(client.dataset.createItem({ datasetName: "d", [c.field]: c.nested ? { a: [m] } : m } as any)); } catch (e) { err = e; }
  ensure(err !== undefined && n === 0, "item created from a medium without content");
  return { nontrivial: true };
}

main({
  assumptions: ["media nested deeper than the documented traversal limit (20 levels) are outside the domain", "keys exclude __proto__"],
  subs: [
    { name: "create", arb: caseArb, run, quick: 6000, thorough: 60000, rule: "the item contains at least one medium" },
    { name: "cycle", arb: cycArb, run: runCyc, quick: 30, thorough: 60, rule: "always" },
    { name: "invalid media", arb: invArb, run: runInv, quick: 30, thorough: 60, rule: "always" },
  ],
});
