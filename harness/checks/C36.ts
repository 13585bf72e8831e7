import fc from "fast-check";
import { main, ensure, same, show, fail, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { LangfuseClient, LangfuseMedia } from "@langfuse/client";
import { pool, argsFor, endpoints, segment, target } from "../lib/api";
import { jsonObject, jsonValue, ident, cleanString, token, opt } from "../lib/arbs";

// legacy method -> the current method it stands for
const SAME: Record<string, [string, string]> = {
  getPrompt: ["prompt", "get"], createPrompt: ["prompt", "create"], updatePrompt: ["prompt", "update"], getDataset: ["dataset", "get"],
  fetchTrace: ["api.trace", "get"], fetchTraces: ["api.trace", "list"], fetchObservation: ["api.legacy.observationsV1", "get"], fetchObservations: ["api.observations", "getMany"],
  fetchSessions: ["api.sessions", "get"], getDatasetRun: ["api.datasets", "getRun"], getDatasetRuns: ["api.datasets", "getRuns"], createDataset: ["api.datasets", "create"],
  getDatasetItem: ["api.datasetItems", "get"], createDatasetItem: ["dataset", "createItem"], fetchMedia: ["api.media", "get"], resolveMediaReferences: ["media", "resolveReferences"],
};
const at = (o: any, p: string) => p.split(".").reduce((x, k) => x[k], o);
const REF = "@@@langfuseMedia:type=image/png|id=m1|source=bytes@@@";
const callArb = fc.record({
  m: fc.constantFrom(...Object.keys(SAME)), pool, seg: segment, detach: fc.boolean(), status: fc.constantFrom(200, 200, 200, 200, 400, 401, 404, 500), body: jsonObject(2),
  version: opt(fc.nat(9)), label: opt(ident), labels: fc.uniqueArray(ident, { maxLength: 2 }), chat: fc.boolean(), text: cleanString, media: fc.boolean(), items: fc.nat(4), meta: opt(jsonValue(1)), refs: fc.boolean(),
  ro: opt(fc.record({ maxRetries: opt(fc.nat(3)), timeoutInSeconds: opt(fc.integer({ min: 1, max: 90 })), headers: opt(fc.record({ "x-extra": ident })) })),
});
/** fresh arguments on every call, so that one run cannot disturb the other */
function argsOf(c: any): any[] {
  const e = endpoints.find((x) => `api.${x.client}` === SAME[c.m][0] && x.name === SAME[c.m][1]);
  if (e) return structuredClone([...argsFor(e, c.pool).args, ...(c.ro ? [c.ro] : [])]);
  switch (c.m) {
    case "getPrompt": return [c.seg, { ...(c.version !== undefined ? { version: c.version } : c.label !== undefined ? { label: c.label } : {}), ...(c.chat ? { type: "chat", fallback: [{ role: "user", content: c.text }] } : {}), maxRetries: 0 }];
    case "createPrompt": return [c.chat ? { type: "chat", name: c.seg, prompt: [{ role: "user", content: c.text }, { type: "placeholder", name: "h" }], labels: c.labels, config: structuredClone(c.body) } : { name: c.seg, prompt: c.text, labels: c.labels }];
    case "updatePrompt": return [{ name: c.seg, version: c.version ?? 1, newLabels: c.labels }];
    case "getDataset": return [c.seg, ...(c.version !== undefined ? [{ fetchItemsPageSize: 1 + c.version }] : [])];
    case "createDatasetItem": return [{ datasetName: c.seg, input: c.media ? { img: new LangfuseMedia({ source: "bytes", contentBytes: Buffer.from(c.text + "x"), contentType: "image/png" }), a: structuredClone(c.body) } : structuredClone(c.body), metadata: c.meta }];
    case "resolveMediaReferences": return [{ obj: c.refs ? { a: REF, b: structuredClone(c.body) } : structuredClone(c.body), resolveWith: "base64DataUri" }];
  }
  throw new Error(c.m);
}
function view(v: any, seen = new Set<any>()): any {
  if (v instanceof Uint8Array) return Array.from(v);
  if (v === null || typeof v !== "object") return typeof v === "function" ? "<fn>" : v;
  if (seen.has(v)) return "<cycle>";
  seen.add(v);
  if (v instanceof Error) return { error: v.constructor.name, message: v.message, status: (v as any).statusCode, body: view((v as any).body, seen) };
  if (Array.isArray(v)) return v.map((x) => view(x, seen));
  const o: any = { __class: v.constructor?.name };
  for (const k of Object.keys(v)) o[k] = view(v[k], seen);
  return o;
}
async function once(c: any, legacy: boolean) {
  const clock = useClock();
  const net = new FakeNet((r) => {
    if (r.url.startsWith("http://store.test")) return { status: 200, bytes: new Uint8Array([1, 2, 3]) };
    if (c.status !== 200) return { status: c.status, json: { message: "refused", detail: c.body } };
    if (r.path.includes("/v2/prompts")) return { json: c.chat && r.path.endsWith("/" + encodeURIComponent(c.seg)) ? { name: c.seg, version: 3, type: "chat", prompt: [{ role: "user", content: c.text }], config: c.body, labels: [], tags: [] } : { name: c.seg, version: 3, type: "text", prompt: c.text, config: {}, labels: [], tags: [] } };
    if (r.path.includes("/dataset-items") && r.method === "GET" && r.query.has("datasetName")) {
      const page = Number(r.query.get("page") ?? 1), limit = Number(r.query.get("limit") ?? 50);
      const all = Array.from({ length: c.items }, (_, i) => ({ id: "i" + i, input: i, datasetId: "d", mediaReferences: [] }));
      return { json: { data: all.slice((page - 1) * limit, page * limit), meta: { page, limit, totalItems: all.length, totalPages: Math.ceil(all.length / limit) } } };
    }
    if (r.path.endsWith("/media") && r.method === "POST") return { json: { mediaId: "m1", uploadUrl: null } };
    if (r.path.includes("/media/")) return { json: { mediaId: "m1", contentType: "image/png", contentLength: 3, url: "http://store.test/x", urlExpiry: "2030-01-01T00:00:00Z", uploadedAt: "2024-01-01T00:00:00Z" } };
    return { json: { id: "x", ...c.body } };
  }).install();
  const client: any = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const args = argsOf(c);
  let res: any;
  try {
    let p: Promise<any>;
    if (legacy) {
      if (c.detach) { const f = client[c.m]; p = f(...args); } else p = client[c.m](...args);
    } else p = at(client, SAME[c.m][0])[SAME[c.m][1]](...args);
    res = { ok: view(await clock.drive(p as any)) };
  } catch (e) {
    res = { err: view(e) };
  }
  await clock.settle(120_000);
  const reqs = net.reqs.map((q) => ({ method: q.method, url: q.url, headers: q.headers, body: q.json ?? (q.body instanceof Uint8Array ? Array.from(q.body) : q.body), at: q.at }));
  return { res, reqs, client };
}
async function runCompat(c: any) {
  const rnd = Math.random;
  Math.random = () => 0.5;
  try {
    const a = await once(c, true);
    const b = await once(c, false);
    // ids drawn at random (dataset items with media) differ between any two runs
    const norm = (x: any) => JSON.stringify(x ?? null).replace(/[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}/g, "<uuid>");
    same(norm(a.reqs), norm(b.reqs), `requests of ${c.m}`);
    same(norm(a.res), norm(b.res), `outcome of ${c.m}`);
    // both forms share one cache
    if (c.m === "getPrompt" && a.res.ok && !a.res.ok.isFallback) {
      const net = new FakeNet(() => fail(`${c.m}: a cached prompt was requested again`)).install();
      for (const f of [() => a.client.prompt.get(...argsOf(c)), () => a.client.getPrompt(...argsOf(c))]) same(view(await f()), a.res.ok, "prompt served from the shared cache");
      same(net.reqs.length, 0, "requests for a cached prompt");
    }
    return { nontrivial: a.reqs.length > 0, labels: [c.m, a.res.ok ? "ok" : "error"] };
  } finally {
    Math.random = rnd;
  }
}

// ---------- legacy and current methods used side by side see one cache
const sideArb = fc.array(fc.record({
  t: fc.constantFrom("get", "get", "get", "update", "delete", "create", "wait"), name: fc.constantFrom("a", "b/c"), by: fc.constantFrom("production", "v1", "v2", "lab"), legacy: fc.boolean(), detach: fc.boolean(), fail: fc.constantFrom(false, false, false, true),
}), { minLength: 2, maxLength: 14 });
async function runSide(ops: any[]) {
  const clock = useClock();
  let rev = 0, failing = false;
  const net = new FakeNet((r) => {
    if (failing) return { status: 404, json: { message: "no" } };
    if (r.method === "DELETE") return { status: 204 };
    return { json: { name: decodeURIComponent(r.path.split("/")[5] ?? "x"), version: 1, type: "text", prompt: "rev " + ++rev, config: {}, labels: [], tags: [] } };
  }).install();
  const client: any = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const cache = new Map<string, string>();
  const call = (m: string, cur: any, curName: string, o: any, ...args: any[]) => {
    if (!o.legacy || m === "") return cur[curName](...args);
    if (o.detach) { const f = client[m]; return f(...args); }
    return client[m](...args);
  };
  let hits = 0, mixed = new Set<boolean>();
  for (const o of ops) {
    const before = net.reqs.length;
    failing = o.fail;
    const run = async (p: Promise<any>) => { try { return { v: await clock.drive(p) }; } catch (e) { return { e }; } };
    if (o.t === "wait") { await clock.advance(5_000); continue; }
    if (o.t === "get") {
      const k = `${o.name} ${o.by}`;
      const opts = { ...(o.by === "v1" ? { version: 1 } : o.by === "v2" ? { version: 2 } : o.by === "lab" ? { label: "lab" } : {}), cacheTtlSeconds: 10_000, maxRetries: 0 };
      const r: any = await run(call("getPrompt", client.prompt, "get", o, o.name, opts));
      mixed.add(o.legacy);
      if (cache.has(k)) {
        hits++;
        same(r.v?.prompt, cache.get(k), "prompt from the shared cache");
        same(net.reqs.length, before, "requests for a cached prompt");
      } else {
        same(net.reqs.length, before + 1, "requests for a prompt that is not cached");
        if (o.fail) { ensure("e" in r, "a refused request resolved"); continue; }
        same(r.v?.prompt, "rev " + rev, "fetched prompt");
        cache.set(k, r.v.prompt);
      }
    } else if (o.t === "create") await run(call("createPrompt", client.prompt, "create", o, { name: o.name, prompt: "new" }));
    else {
      const r: any = await run(o.t === "update" ? call("updatePrompt", client.prompt, "update", o, { name: o.name, version: 1, newLabels: ["lab"] }) : call("", client.prompt, "delete", o, o.name));
      same("e" in r, o.fail, "outcome of the change");
      if (!o.fail) for (const k of [...cache.keys()]) if (k.startsWith(o.name + " ")) cache.delete(k);
    }
  }
  return { nontrivial: hits > 0 && mixed.size === 2 };
}

// ---------- trace links
const urlArb = fc.record({
  base: fc.constantFrom("http://lf.test", "https://cloud.langfuse.com", "http://h:3000/sub", "http://localhost:3000", "http://127.0.0.1:3000", "https://us.cloud.langfuse.com"), project: token,
  calls: fc.array(fc.record({ trace: fc.oneof(fc.stringMatching(/^[0-9a-f]{32}$/), token, fc.constantFrom("order:42", "a/b", "run.1~x", "a@b")), fault: fc.constantFrom("", "", "500", "net", "401") , also: fc.boolean(), wait: fc.constantFrom(0, 0, 0, 1_000, 61_000, 3_700_000, 90_000_000) }), { minLength: 1, maxLength: 6 }),
});
async function runUrl(c: any) {
  const clock = useClock();
  let fault = "";
  const net = new FakeNet((r) => {
    if (!r.path.endsWith("/api/public/projects")) fail(`unexpected request ${r.method} ${r.url}`);
    if (fault === "net") return { networkError: new TypeError("fetch failed") };
    if (fault) return { status: Number(fault), json: { message: "x" } };
    return { json: { data: [{ id: c.project, name: "p" }] }, delay: 5 };
  }).install();
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: c.base });
  let known = false, faults = 0;
  for (const o of c.calls) {
    if (o.wait) await clock.advance(o.wait);
    fault = o.fault;
    const before = net.reqs.length;
    const ids = o.also ? [o.trace, "other"] : [o.trace];
    const rs = await clock.drive(Promise.all(ids.map((id) => client.getTraceUrl(id).then((v) => ({ v }), (e) => ({ e })))));
    if (known || !fault) {
      rs.forEach((r: any, i) => same(r.v, `${c.base}/project/${c.project}/traces/${ids[i]}`, "trace URL"));
      if (known) same(net.reqs.length, before, "the project is looked up again although it is known");
      known = true;
    } else {
      faults++;
      for (const r of rs as any[]) ensure("e" in r, () => `a trace URL was made up although the project lookup failed: ${show(r)}`);
    }
  }
  return { nontrivial: c.calls.length > 1, labels: [faults > 0 && "lookup failed"] };
}

await main({
  subs: [
    { name: "compat", arb: callArb, run: runCompat, quick: 5000, thorough: 40000, rule: "the call sent at least one request" },
    { name: "one-cache", arb: sideArb, run: runSide, quick: 1600, thorough: 15000, rule: "a cached prompt was served, with both forms in use", minNontrivial: 0.1 },
    { name: "trace-url", arb: urlArb, run: runUrl, quick: 1200, thorough: 10000, rule: "more than one call" },
  ],
  assumptions: ["the counterpart methods themselves are decided by C15-C22 and C31/C32"],
});
