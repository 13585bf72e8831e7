import fc from "fast-check";
import { main, ensure, same, show, fail, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { LangfuseBrowserClient, LangfuseBrowserError } from "@langfuse/browser";
import { anyString, cleanString, ident, token, key, jsonValue, jsonObject, opt } from "../lib/arbs";

// ---------- what the server answers, as a function of the request it got
type Entry = "event" | "score" | "other" | "null" | "number" | "noid" | "upper" | "wrapped";
const entry: fc.Arbitrary<Entry> = fc.constantFrom("event", "event", "event", "score", "other", "null", "number", "noid", "upper", "wrapped");
const answer = fc.oneof(
  { weight: 6, arbitrary: fc.record({ k: fc.constant("ack" as const), status: fc.constantFrom(200, 201, 207, 207, 299), successes: fc.array(entry, { maxLength: 3 }), errors: fc.array(fc.record({ of: fc.constantFrom("event", "other"), status: fc.constantFrom(400, 401, 500), message: opt(anyString) }), { maxLength: 1 }), extra: jsonValue(0) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("ack" as const), status: fc.constantFrom(200, 201, 207, 299), successes: fc.tuple(entry, fc.constant("event" as const), entry).map((x) => x as Entry[]), errors: fc.constant([] as any[]), extra: jsonValue(0) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("ack" as const), status: fc.constantFrom(300, 302, 304, 400, 401, 403, 404, 409, 422, 429, 500, 502, 503), successes: fc.constant(["event"] as Entry[]), errors: fc.constant([] as any[]), extra: jsonValue(0) }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("json" as const), status: fc.constantFrom(200, 207, 400, 401, 403, 429, 500, 503), body: fc.oneof(jsonValue(2), fc.constantFrom({ successes: [] }, { errors: [] }, { successes: {}, errors: [] }, { successes: [], errors: null }, { successes: null, errors: [] }, [], [[], []], { successes: "x", errors: "" }, { successes: { length: 1 }, errors: { length: 0 } }) as any) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("text" as const), status: fc.constantFrom(200, 204, 207, 304, 400, 401, 404, 500, 503), body: fc.oneof(anyString, fc.constantFrom("", "<html>", "{", "null", "OK")) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("network" as const), sync: fc.boolean(), err: fc.constantFrom("error", "text", "undefined", "null", "object") }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("cut" as const), status: fc.constantFrom(200, 207, 500) }) },
);
const scoreBody = fc.record(
  {
    id: cleanString, name: cleanString, value: fc.oneof(fc.integer(), fc.double({ noNaN: true, noDefaultInfinity: true }), cleanString), traceId: ident, observationId: ident, sessionId: ident, comment: anyString,
    environment: fc.oneof(ident, fc.constant("")), metadata: jsonValue(2), dataType: fc.constantFrom("NUMERIC", "CATEGORICAL", "BOOLEAN"), configId: ident, queueId: ident,
  },
  { requiredKeys: ["name", "value"] },
).chain((b) => fc.option(fc.subarray(["id", "environment", "comment", "traceId", "metadata", "dataType"], { minLength: 1 }), { nil: [] as string[], freq: 2 }).map((un): any => ({ ...b, ...Object.fromEntries(un.map((k) => [k, undefined])) })));
const RESERVED = ["authorization", "content-type", "x-langfuse-public-key", "x-langfuse-sdk-name", "x-langfuse-sdk-version", "x-langfuse-sdk-variant", "x-langfuse-sdk-integration"];
const flip = (s: string, bits: number) => [...s].map((c, i) => ((bits >> i % 30) & 1 ? c.toUpperCase() : c)).join("");
const headerName = fc.oneof({ weight: 2, arbitrary: fc.tuple(fc.constantFrom(...RESERVED), fc.nat(2 ** 30 - 1)).map(([n, b]) => flip(n, b)) }, { weight: 3, arbitrary: fc.tuple(fc.constantFrom("x-", "", "x-langfuse-", "authorization-"), token).map(([a, b]) => a + b) }, { weight: 1, arbitrary: fc.constantFrom("content_type", "Content-Types", "x_langfuse-sdk-name", "x-langfuse-sdk", "proxy-authorization", "X-Authorization") });
const headersArb = fc.array(fc.tuple(headerName, fc.stringMatching(/^[a-zA-Z0-9,;=._-]{0,12}$/)), { maxLength: 4 });
const baseArb = fc.oneof(fc.constant(undefined), fc.tuple(fc.constantFrom("https://lf.example", "http://localhost:3000", "https://lf.example/sub/path", "https://lf.example//x"), fc.nat(3)).map(([b, n]) => b + "/".repeat(n)));
const pkArb = fc.stringMatching(/^pk-lf-[a-zA-Z0-9-]{1,12}$/);
const callArb = fc.record({ body: scoreBody, ans: answer, delay: fc.constantFrom(0, 0, 5, 50, 500) });
const caseArb = fc.record({ pk: pkArb, base: baseArb, environment: opt(fc.oneof(ident, fc.constant(""))), headers: opt(headersArb), custom: fc.boolean(), calls: fc.array(callArb, { minLength: 1, maxLength: 4 }), concurrent: fc.boolean() });

function answerFor(a: any, evt: any): { status: number; text: string } {
  if (a.k === "json") return { status: a.status, text: JSON.stringify(a.body) };
  if (a.k === "text") return { status: a.status, text: a.body };
  const id = evt?.id, sid = evt?.body?.id;
  const one = (e: Entry): any => ({ event: { id, status: 201 }, score: { id: sid, status: 201 }, other: { id: id + "x", status: 201 }, null: null, number: 5, noid: { status: 201 }, upper: { id: String(id).toUpperCase() + "-", status: 201 }, wrapped: { id: [id], status: 201 } })[e];
  return { status: a.status, text: JSON.stringify({ successes: a.successes.map(one), errors: a.errors.map((e: any) => ({ id: e.of === "event" ? id : "zzz", status: e.status, message: e.message })), extra: a.extra }) };
}
const errVal = (k: string) => (k === "error" ? new TypeError("fetch failed") : k === "text" ? "down" : k === "undefined" ? undefined : k === "null" ? null : { code: 1 });

async function run(c: any) {
  const clock = useClock();
  const seen: any[] = [];
  const sentAnswers = new Map<any, any>();
  let next = 0;
  const order: number[] = [];
  const impl = function (this: any, url: any, init: any) {
    // browsers reject fetch called on anything but the window
    if (this !== undefined && this !== globalThis) throw new TypeError("Illegal invocation");
    const req: any = { url: String(url), init, headers: { ...init.headers }, json: JSON.parse(init.body), at: Date.now() };
    seen.push(req);
    const evt = req.json.batch?.[0];
    const i = c.concurrent ? c.calls.findIndex((k: any, j: number) => !order.includes(j) && deepEqual(JSON.parse(JSON.stringify(k.body.name)), evt?.body?.name) && j >= 0) : next++;
    const ix = i < 0 ? 0 : i;
    order.push(ix);
    req.call = ix;
    const k = c.calls[ix];
    if (k.ans.k === "network" && k.ans.sync) throw errVal(k.ans.err);
    return (async () => {
      if (k.delay) await new Promise((r) => setTimeout(r, k.delay));
      if (k.ans.k === "network") throw errVal(k.ans.err);
      if (k.ans.k === "cut") return new Response(new ReadableStream({ pull(ctl) { ctl.error(new TypeError("terminated")); } }), { status: k.ans.status });
      const a = answerFor(k.ans, evt);
      sentAnswers.set(evt?.id, a);
      const nb = a.status === 204 || a.status === 304;
      return new Response(nb ? null : a.text, { status: a.status });
    })();
  };
  if (!c.custom) globalThis.fetch = impl as any;
  else globalThis.fetch = (() => { fail("the global fetch was used although a fetch was given"); }) as any;
  // a header object keeps one value per exact name; names differing only in case are not given twice
  const hs: Record<string, string> = {};
  for (const [n, v] of c.headers ?? []) if (!Object.keys(hs).some((x) => x.toLowerCase() === n.toLowerCase())) hs[n] = v;
  const hsBefore = JSON.stringify(hs);
  const client = new LangfuseBrowserClient({ publicKey: c.pk, baseUrl: c.base, environment: c.environment, additionalHeaders: c.headers ? hs : undefined, fetch: c.custom ? (impl as any) : undefined } as any);
  const outcomes: any[] = [];
  const names = new Set<string>();
  c.calls.forEach((k: any, i: number) => { if (c.concurrent) { k = c.calls[i]; } names.add(k.body.name); });
  const concurrent = c.concurrent && names.size === c.calls.length;
  if (c.concurrent && !concurrent) c = { ...c, concurrent: false };
  const one = async (i: number) => {
    const before = JSON.stringify(c.calls[i].body);
    try { outcomes[i] = { ok: await client.score(c.calls[i].body) }; } catch (e) { outcomes[i] = { err: e }; }
    same(JSON.stringify(c.calls[i].body), before, "the given body was changed");
  };
  const body = async () => { if (concurrent) await Promise.all(c.calls.map((_: any, i: number) => one(i))); else for (let i = 0; i < c.calls.length; i++) await one(i); };
  await clock.drive(body(), { what: "score calls" });
  await clock.advance(120_000);
  same(JSON.stringify(hs), hsBefore, "the given headers were changed");
  same(seen.length, c.calls.length, "number of requests");
  const ids = new Set<string>();
  const base = (c.base ?? "https://cloud.langfuse.com").replace(/\/+$/, "");
  let acks = 0, rejects = 0;
  for (const r of seen) {
    const i = r.call, k = c.calls[i], what = `call ${i}`;
    same(r.url, base + "/api/public/ingestion", `${what}: url`);
    same(r.init.method, "POST", `${what}: method`);
    // effective headers, as the platform merges them
    const eff = new Headers(r.headers);
    same(eff.get("authorization"), `Bearer ${c.pk}`, `${what}: authorization`);
    same(eff.get("content-type"), "application/json", `${what}: content type`);
    same(eff.get("x-langfuse-public-key"), c.pk, `${what}: public key header`);
    same(eff.get("x-langfuse-sdk-integration"), "browser", `${what}: integration header`);
    same(eff.get("x-langfuse-sdk-name"), "javascript", `${what}: SDK name header`);
    ensure(/^\d+\.\d+\.\d+[^,\s]*$/.test(eff.get("x-langfuse-sdk-version") ?? ""), () => `${what}: SDK version header is ${show(eff.get("x-langfuse-sdk-version"))}`);
    same({ n: r.json.metadata?.sdk_name, v: r.json.metadata?.sdk_version }, { n: "javascript", v: eff.get("x-langfuse-sdk-version") }, `${what}: SDK name and version in the body`);
    ensure(!eff.has("x-langfuse-sdk-variant"), () => `${what}: a caller's header replaced an SDK header`);
    for (const [n, v] of Object.entries(hs)) if (!RESERVED.includes(n.toLowerCase())) same(eff.get(n), v, `${what}: header ${n}`);
    same([...eff.keys()].filter((n) => !RESERVED.includes(n)).sort(), Object.keys(hs).map((n) => n.toLowerCase()).filter((n) => !RESERVED.includes(n)).sort(), `${what}: header names`);
    same(r.json.batch?.length, 1, `${what}: events in the batch`);
    same(r.json.metadata?.batch_size, 1, `${what}: batch size`);
    same(r.json.metadata?.public_key, c.pk, `${what}: public key in metadata`);
    same(r.json.metadata?.sdk_integration, "browser", `${what}: integration`);
    const e = r.json.batch[0];
    same(e.type, "score-create", `${what}: event type`);
    ensure(typeof e.id === "string" && e.id && !ids.has(e.id), () => `${what}: event id ${show(e.id)} is not fresh`);
    ids.add(e.id);
    same(Date.parse(e.timestamp), r.at, `${what}: timestamp`);
    const env = k.body.environment ?? c.environment;
    const want = JSON.parse(JSON.stringify({ ...k.body, environment: env }));
    if (k.body.id === undefined) { ensure(typeof e.body.id === "string" && e.body.id.length > 0 && !ids.has(e.body.id), () => `${what}: generated score id ${show(e.body.id)}`); ids.add(e.body.id); want.id = e.body.id; }
    same(e.body, want, `${what}: score sent`);
    // outcome
    const o = outcomes[i];
    const a = sentAnswers.get(e.id);
    let ack = false, parsed: any;
    const text = a && (a.status === 204 || a.status === 304) ? "" : a?.text;
    if (a) { try { parsed = text ? JSON.parse(text) : undefined; } catch { parsed = text; } }
    if (a && a.status >= 200 && a.status < 300 && parsed && typeof parsed === "object" && Array.isArray(parsed.successes) && Array.isArray(parsed.errors)) ack = parsed.errors.length === 0 && parsed.successes.some((x: any) => x !== null && typeof x === "object" && x.id === e.id);
    if (ack) {
      acks++;
      ensure(!("err" in o), () => `${what}: acknowledged but rejected with ${show(o.err?.message ?? o.err)}`);
      same(o.ok, { id: e.body.id }, `${what}: result`);
    } else {
      rejects++;
      ensure("err" in o, () => `${what}: resolved with ${show(o.ok)} although the answer was ${show(a ?? k.ans)}`);
      ensure(o.err instanceof LangfuseBrowserError && o.err instanceof Error && o.err.name === "LangfuseBrowserError", () => `${what}: rejected with ${show(o.err)} which is not a LangfuseBrowserError (answer ${show(a ?? k.ans)})`);
      ensure(typeof o.err.message === "string" && o.err.message.length > 0, `${what}: error without message`);
      if (k.ans.k === "network") { if (k.ans.err !== "error") same(o.err.originalError, errVal(k.ans.err), `${what}: original error`); else ensure(o.err.originalError instanceof TypeError, `${what}: original error`); }
      else if (a && !(a.status >= 200 && a.status < 300)) { same(o.err.status, a.status, `${what}: status of the error`); same(o.err.response, parsed, `${what}: response of the error`); }
      else if (k.ans.k === "cut") same(o.err.status, k.ans.status, `${what}: status of the error`);
      else if (a && parsed && Array.isArray(parsed.errors) && Array.isArray(parsed.successes) && parsed.errors.length) same(o.err.errors, parsed.errors, `${what}: ingestion errors of the error`);
    }
  }
  return { nontrivial: acks > 0 || seen.some((r) => ["ack", "json"].includes(c.calls[r.call].ans.k)), labels: [acks > 0 && "acknowledged", rejects > 0 && "rejected", concurrent && c.calls.length > 1 && "concurrent", Object.keys(hs).some((x) => RESERVED.includes(x.toLowerCase())) && "reserved header given"] };
}

async function runCtor(c: any) {
  const f = globalThis.fetch;
  try {
    if (c.noFetch) (globalThis as any).fetch = undefined;
    let err: any, ok = false;
    try { new LangfuseBrowserClient({ publicKey: c.pk, fetch: c.give ? ((async () => new Response()) as any) : undefined } as any); ok = true; } catch (e) { err = e; }
    const should = !!c.pk && (!c.noFetch || c.give);
    ensure(ok === should, () => `construction ${ok ? "succeeded" : `failed with ${show(err)}`}`);
    if (!ok) ensure(err instanceof LangfuseBrowserError, () => `construction failed with ${show(err)}`);
  } finally { globalThis.fetch = f; }
  return { nontrivial: true };
}
main({
  assumptions: ["header names given by callers are valid HTTP tokens and do not differ only in case", "score bodies are JSON values"],
  subs: [
    { name: "score", arb: caseArb, run, quick: 8000, thorough: 80000, rule: "at least one response that could be an acknowledgement" },
    { name: "construction", arb: fc.record({ pk: fc.oneof(pkArb, fc.constantFrom("", undefined, null) as any), noFetch: fc.boolean(), give: fc.boolean() }), run: runCtor, quick: 120, thorough: 500, rule: "all cases" },
  ],
});
