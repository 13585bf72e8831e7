import fc from "fast-check";
import { main, ensure, same, show, fail, deepEqual, knownOrFail } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { endpoints, errorClass, target, argsFor, pool, core } from "../lib/api";
import { jsonValue, anyString, opt } from "../lib/arbs";

const HINTS = ["none", "none", "seconds", "date", "reset", "zero", "past", "garbage", "both", "huge", "far date", "far reset"] as const;
// answers as the API gives them: ids, timestamps, numbers, nested JSON text
const entity = fc.record({ id: fc.constantFrom("4bf92f3577b34da6a3ce929d0e0e4736", "007", "1e3"), timestamp: fc.constantFrom("2024-01-02T03:04:05.678Z", "2024-01-02T03:04:05Z", "2024-01-02", "2024-01-02T03:04:05+02:00"), createdAt: fc.constant("2025-12-31T23:59:59.999Z"), value: fc.constantFrom(0, -1, 1.5, 12345678901, null, "1.5"), isPublic: fc.boolean(), tags: fc.array(anyString, { maxLength: 2 }), input: jsonValue(1), text: fc.constantFrom("{\"a\":1}", " padded ", "", "true", "null"), data: fc.array(fc.record({ id: anyString }), { maxLength: 2 }), meta: fc.record({ page: fc.nat(3), totalItems: fc.nat() }) }, { requiredKeys: [] });
const answer = (d: number) => fc.oneof(jsonValue(d), entity);
const JSON_TYPES = ["application/hal+json", "application/ld+json", "application/problem+json", "application/vnd.api+json", "text/json", "application/vnd.langfuse.v1+json", "application/json;charset=utf-8", "application/json ; charset=utf-8", "Application/Problem+JSON; charset=UTF-8"];
const bodyArb = fc.oneof(
  { weight: 4, arbitrary: fc.record({ k: fc.constant("json"), v: answer(2) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("charset"), v: jsonValue(1) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("problem"), v: answer(1), type: fc.constantFrom(...JSON_TYPES) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("plain"), v: anyString.filter((s) => s.isWellFormed()) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("bare"), v: jsonValue(1) }) },
  { weight: 1, arbitrary: fc.constant({ k: "empty", v: null }) },
  { weight: 1, arbitrary: fc.constantFrom({ k: "badjson", v: "<html>bad gateway" }, { k: "badjson", v: "{" }, { k: "badbare", v: "oops" }) },
);
// documented without a body
const BODYLESS = ["ServiceUnavailableError", "FeedbackNotConfiguredError"];
const RETRY = [408, 429, 500, 501, 502, 503, 504, 599];
const FINAL = [400, 401, 402, 403, 404, 405, 406, 407, 409, 410, 413, 422, 428, 430, 431, 451, 499];
const stepArb = fc.oneof(
  { weight: 5, arbitrary: fc.record({ k: fc.constant("reply" as const), status: fc.constantFrom(...RETRY), body: bodyArb, hint: fc.constantFrom(...HINTS), sec: fc.integer({ min: 1, max: 20 }), delay: fc.constantFrom(0, 0, 0, 10, 700), body2: fc.constantFrom(0, 0, 0, 0, 15, 2000, 70_000) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("reply" as const), status: fc.constantFrom(...FINAL), body: bodyArb, hint: fc.constantFrom(...HINTS), sec: fc.integer({ min: 1, max: 20 }), delay: fc.constantFrom(0, 0, 0, 10, 700), body2: fc.constantFrom(0, 0, 0, 0, 15, 2000, 70_000) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("reply" as const), status: fc.constantFrom(200, 200, 201, 204, 207), body: bodyArb, hint: fc.constantFrom(...HINTS), sec: fc.integer({ min: 1, max: 20 }), delay: fc.constantFrom(0, 0, 10, 700), body2: fc.constantFrom(0, 0, 0, 15, 2000, 70_000) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("network" as const), err: fc.constantFrom("fetch failed", "", "socket hang up"), plain: fc.boolean(), delay: fc.constantFrom(0, 30) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("stall" as const) }) },
);
const callArb = fc.record({ ep: fc.nat(endpoints.length - 1), pool, steps: fc.array(stepArb, { minLength: 1, maxLength: 6 }), maxRetries: opt(fc.integer({ min: 0, max: 4 })), timeout: opt(fc.constantFrom(1, 5, 30.5, 120)), abortAt: fc.option(fc.constantFrom(0, 5, 400, 1500, 3333, 20000), { nil: undefined, freq: 3 }), raw: fc.boolean(), use: fc.constantFrom("await", "await", "catch", "finally", "twice") });
const caseArb = fc.record({ calls: fc.array(callArb, { minLength: 1, maxLength: 3 }) });

function bodyOf(b: any, status: number): { rep: any; want: any; nonJson: boolean } {
  const enc = (s: string) => new TextEncoder().encode(s);
  if (status === 204) return { rep: {}, want: undefined, nonJson: false };
  switch (b.k) {
    case "json": return { rep: { json: b.v }, want: b.v, nonJson: false };
    case "charset": return { rep: { text: JSON.stringify(b.v), headers: { "content-type": "Application/JSON; charset=utf-8" } }, want: b.v, nonJson: false };
    case "problem": return { rep: { text: JSON.stringify(b.v), headers: { "content-type": b.type } }, want: b.v, nonJson: false };
    case "bare": return { rep: { bytes: enc(JSON.stringify(b.v)) }, want: b.v, nonJson: false };
    case "plain": { let ok = b.v === ""; try { JSON.parse(b.v); ok = true; } catch {} return { rep: { text: b.v, headers: { "content-type": "text/plain" } }, want: b.v, nonJson: !ok }; }
    case "empty": return { rep: { text: "", headers: { "content-type": "application/json" } }, want: undefined, nonJson: false };
    case "badjson": return { rep: { text: b.v, headers: { "content-type": "application/json" } }, want: b.v, nonJson: true };
    default: return { rep: { bytes: enc(b.v) }, want: b.v, nonJson: true };
  }
}
/** the ways a caller may take the outcome of a call; all of them must see the same one */
async function consume(p: any, use: string): Promise<any> {
  if (use === "catch") { let caught: any; const v = await p.catch((e: any) => { caught = { e }; }); if (caught) throw caught.e; return v; }
  if (use === "finally") { let ran = 0; try { return await p.finally(() => { ran++; }); } finally { ensure(ran === 1, () => `the callback given to finally ran ${ran} times`); } }
  if (use === "twice") { const [a, b]: any[] = await Promise.allSettled([p, p.then((v: any) => v)]); ensure(a.status === b.status && (a.status === "fulfilled" ? Object.is(a.value, b.value) : a.reason === b.reason), () => `taking the outcome twice gave ${show(a)} and ${show(b)}`); return p; }
  return p;
}
async function run(c: any) {
  const clock = useClock();
  let cur: any, n = 0, startAt = 0;
  const net = new FakeNet((req) => {
    const s = cur.steps[Math.min(n++, cur.steps.length - 1)];
    if (s.k === "stall") return { hang: true };
    if (s.k === "network") return { networkError: s.plain ? s.err : new TypeError(s.err), delay: s.delay };
    const h: Record<string, string> = { "x-answer": String(n) };
    const t = Math.floor((req.at + s.delay) / 1000) + s.sec + 1;
    if (s.hint === "seconds" || s.hint === "both") h["retry-after"] = String(s.sec);
    if (s.hint === "huge") h["retry-after"] = "86400";
    if (s.hint === "far date") h["retry-after"] = new Date((t + 100 + s.sec * 1000) * 1000).toUTCString();
    if (s.hint === "far reset") h["x-ratelimit-reset"] = String(t + 100 + s.sec * 1000);
    if (s.hint === "date") h["retry-after"] = new Date(t * 1000).toUTCString();
    if (s.hint === "reset") h["x-ratelimit-reset"] = String(t);
    if (s.hint === "both") h["x-ratelimit-reset"] = String(t + 30);
    if (s.hint === "zero") h["retry-after"] = "0";
    if (s.hint === "past") { h["retry-after"] = new Date((t - 500) * 1000).toUTCString(); h["x-ratelimit-reset"] = String(t - 500); }
    if (s.hint === "garbage") { h["retry-after"] = "soon"; h["x-ratelimit-reset"] = "later"; }
    const b = bodyOf(s.body, s.status);
    return { status: s.status, ...b.rep, headers: { ...b.rep.headers, ...h }, delay: s.delay, bodyDelay: s.body2 };
  }).install();
  const client = new core.LangfuseAPIClient({ environment: "", baseUrl: "https://lf.example", username: "pk", password: "sk" });
  let slow = 0, retried = 0, waited = 0, aborted = 0, timeouts = 0;
  for (const k of c.calls) {
    cur = k; n = 0; startAt = clock.now; net.reqs.length = 0;
    const e = endpoints[k.ep], what = `${e.client}.${e.name}`;
    const { args } = argsFor(e, k.pool);
    const ctl = new AbortController();
    const opts: any = {};
    if (k.maxRetries !== undefined) opts.maxRetries = k.maxRetries;
    if (k.timeout !== undefined) opts.timeoutInSeconds = k.timeout;
    if (k.abortAt !== undefined) { opts.abortSignal = ctl.signal; if (k.abortAt === 0) ctl.abort(); else setTimeout(() => ctl.abort(), k.abortAt); }
    while (args.length < e.params.length) args.push(undefined);
    let out: any, settledAt = 0;
    const go = async () => {
      try { const p = target(client, e)[e.name](...args, opts); out = k.raw ? { raw: await p.withRawResponse() } : { ok: await consume(p, k.use) }; } catch (err) { out = { err }; }
      settledAt = clock.now;
    };
    await clock.drive(go(), { what });
    await clock.advance(200_000);
    const reqs = net.reqs;
    const max = k.maxRetries ?? 2, tmo = (k.timeout ?? 60) * 1000;
    ensure(reqs.length <= max + 1, () => `${what}: ${reqs.length} requests with ${max} retries allowed`);
    for (const r of reqs) for (const f of ["method", "url", "body", "headers"] as const) same(r[f], reqs[0][f], `${what}: ${f} of a retried request`);
    const abortT = k.abortAt === undefined ? Infinity : startAt + k.abortAt;
    for (const r of reqs) ensure(r.at <= abortT, () => `${what}: a request was sent ${r.at - abortT} ms after the call was aborted`);
    // follow the script along the requests that were made
    let i = 0, end: any = null;
    for (; i < reqs.length && !end; i++) {
      const s = k.steps[Math.min(i, k.steps.length - 1)];
      const at = reqs[i].at, delay = s.k === "stall" ? Infinity : s.delay;
      if (at + Math.min(delay, tmo) > abortT) { end = { k: "abort", at: abortT }; break; }
      if (delay > tmo) { end = at + tmo === abortT ? { k: "either" } : { k: "timeout", at: at + tmo }; break; }
      const done = at + delay;
      if (done === abortT && i === reqs.length - 1) { end = { k: "either" }; break; }
      if (s.k === "network") { end = { k: "network", s, at: done }; break; }
      const retry = (s.status === 408 || s.status === 429 || s.status >= 500) && i < max;
      if (!retry) {
        // the answer arrived in time; its body may follow later than the timeout
        const full = done + (Object.keys(bodyOf(s.body, s.status).rep).length ? s.body2 : 0);
        end = full === abortT ? { k: "either" } : full > abortT ? { k: "abort", at: abortT } : { k: "final", s, at: full };
        if (s.body2 > 0 && end.k === "final") slow++;
        break;
      }
      const base = Math.min(1000 * 2 ** i, 60000);
      const hint = s.hint === "seconds" || s.hint === "both" ? s.sec * 1000 : ["huge", "far date", "far reset"].includes(s.hint) ? 60000 : s.hint === "date" || s.hint === "reset" ? (Math.floor(done / 1000) + s.sec + 1) * 1000 - done : 0;
      const lo = hint ? hint : base * 0.8, hi = (hint ? hint * 1.25 : base * 1.3) + 2;
      if (i + 1 < reqs.length) {
        const w = reqs[i + 1].at - done;
        retried++;
        if (hint) waited++;
        ensure(w >= lo - 1 && w <= hi, () => `${what}: waited ${w} ms before retry ${i + 1} (hint ${s.hint} ${s.sec}s, expected ${lo}..${hi})`);
      } else {
        // no further request: only because the call was aborted during the pause
        ensure(abortT <= done + hi, () => `${what}: no retry after status ${s.status} although ${max - i} retries were left`);
        end = { k: "abort", at: abortT, by: done + hi };
      }
    }
    if (reqs.length === 0) { ensure(abortT <= startAt, () => `${what}: no request was sent`); end = { k: "abort", at: startAt }; }
    ensure(end, () => `${what}: ${reqs.length} requests for ${show(k.steps)}`);
    ensure(end.k === "either" || i === reqs.length - 1 || end.k === "abort", () => `${what}: ${reqs.length - i - 1} requests after the call was decided by attempt ${i + 1} (${end.k})`);
    const err = out.err, got = "err" in out ? `rejected with ${err?.name} ${show(err?.message)}` : `resolved with ${show(out)}`;
    if (end.k === "either") continue;
    if (end.k === "abort") {
      aborted++;
      ensure("err" in out, () => `${what}: aborted but ${got}`);
      ensure(settledAt <= (end.by ?? end.at), () => `${what}: settled ${settledAt - end.at} ms after it was aborted`);
      continue;
    }
    same(settledAt, end.at, `${what}: time of settling (${got})`);
    if (end.k === "timeout") { timeouts++; ensure(err instanceof (core as any).LangfuseAPITimeoutError, () => `${what}: stalled for ${tmo} ms but ${got}`); continue; }
    if (end.k === "network") { ensure(err?.constructor === (core as any).LangfuseAPIError, () => `${what}: network failure but ${got}`); ensure(err.statusCode === undefined && err.message.includes(end.s.err), () => `${what}: network failure ${show(end.s.err)} reported as ${show(err.message)}`); continue; }
    const { want, nonJson } = bodyOf(end.s.body, end.s.status);
    if (end.s.status < 400) {
      if (nonJson && err?.constructor === (core as any).LangfuseAPIError && err.statusCode === end.s.status && err.body === want) continue; // reported as an error with the raw body
      ensure(!("err" in out), () => `${what}: status ${end.s.status} but ${got}`);
      const data = k.raw ? out.raw.data : out.ok;
      if (k.raw) { same(out.raw.rawResponse.status, end.s.status, `${what}: raw status`); same(out.raw.rawResponse.headers?.get("x-answer"), String(i + 1), `${what}: header of the raw response`); }
      if (e.nothing) same(data, undefined, `${what}: data`);
      else if (nonJson) {
        const isKnown = deepEqual(data, { ok: false, error: { reason: "non-json", statusCode: end.s.status, rawBody: want } });
        (isKnown ? knownOrFail : (_k: string, m: string) => fail(m))("non-json-success", `${what}: answer ${show(want)} with status ${end.s.status} was returned as data ${show(data)}`);
      } else if (end.s.body.k === "plain") { /* text that happens to be JSON */ }
      else same(data, want, `${what}: data`);
    } else {
      const cls = errorClass(e.errors[String(end.s.status)] ?? "LangfuseAPIError");
      ensure(err?.constructor === cls && err instanceof (core as any).LangfuseAPIError && err instanceof Error, () => `${what}: status ${end.s.status} but ${got} (${err?.constructor?.name} instead of ${cls.name})`);
      same(err.statusCode, end.s.status, `${what}: status of the error`);
      same(err.rawResponse?.status, end.s.status, `${what}: raw status of the error`);
      same(err.rawResponse?.headers?.get("x-answer"), String(i + 1), `${what}: header of the error's raw response`);
      if (!BODYLESS.includes(e.errors[String(end.s.status)])) same(err.body, want, `${what}: body of the error (${end.s.body.k})`);
    }
  }
  return { nontrivial: retried > 0 || c.calls.some((k: any) => k.steps[0].k !== "reply" || k.steps[0].status >= 400), labels: [retried > 0 && "retried", waited > 0 && "hinted wait", aborted > 0 && "aborted", timeouts > 0 && "timed out", slow > 0 && "slow body"] };
}
// every endpoint, every documented status
async function sweep(c: any) {
  const clock = useClock();
  let status = 200;
  const net = new FakeNet(() => (status === -1 ? { networkError: new TypeError("fetch failed") } : status === -2 ? { hang: true } : { status, json: c.body })).install();
  const client = new core.LangfuseAPIClient({ environment: "", baseUrl: "https://lf.example", username: "pk", password: "sk" });
  for (const e of endpoints) {
    const { args } = argsFor(e, c.pool);
    while (args.length < e.params.length) args.push(undefined);
    for (const s of [200, c.status, ...Object.keys(e.errors).map(Number), -1, -2]) {
      status = s;
      net.reqs.length = 0;
      let out: any;
      const t0 = clock.now;
      await clock.drive((async () => { try { out = { ok: await target(client, e)[e.name](...args, { maxRetries: 0 }) }; } catch (err) { out = { err }; } })());
      const what = `${e.client}.${e.name} answered ${s}`;
      same(net.reqs.length, 1, `${what}: requests`);
      if (s === 200) { same(out, { ok: e.nothing ? undefined : c.body }, what); continue; }
      const cls = s === -2 ? (core as any).LangfuseAPITimeoutError : errorClass(e.errors[String(s)] ?? "LangfuseAPIError");
      ensure(out.err?.constructor === cls, () => `${what}: ${show(out)} ${out.err?.constructor?.name}`);
      if (s > 0) { same(out.err.statusCode, s, what); if (!BODYLESS.includes(e.errors[String(s)])) same(out.err.body, c.body, what); }
      if (s === -2) { same(clock.now - t0, 60000, `${what}: default timeout`); ensure(out.err.message.includes(`${e.method} ${e.path}`), () => `${what}: message ${show(out.err.message)}`); }
    }
  }
  return { nontrivial: true };
}
main({
  assumptions: ["Retry-After is an integer number of seconds or an HTTP date", "redirects are followed by the platform"],
  subs: [
    { name: "calls", arb: caseArb, run, quick: 12500, thorough: 60000, rule: "a failure or a retry" },
    { name: "every endpoint", arb: fc.record({ pool, body: answer(1), status: fc.constantFrom(...FINAL.filter((s) => s > 405), 408, 429, 500, 503) }), run: sweep, quick: 6, thorough: 60, rule: "all cases" },
  ],
});
