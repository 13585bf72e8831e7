import fc from "fast-check";
import { main, ensure, same, show, fail, deepEqual, knownOrFail } from "../lib/runner";
import { useClock, Stuck } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, isolated } from "../lib/otel";
import { observeOpenAI } from "@langfuse/openai";
import OpenAI from "openai";
import { jsonValue, ident } from "../lib/arbs";

// ---------- a stand-in client: nested resources, private state, every kind of result
type Beh =
  | { k: "resolve"; v: number; delay: number }
  | { k: "reject"; e: number; delay: number }
  | { k: "return"; v: number }
  | { k: "throw"; e: number }
  | { k: "stream"; chunks: number[]; failAt: number | null; e: number; promised: boolean; delay: number };
// a pool of unusual values; built fresh per case and referred to by index so that identity can be checked
function pool(extra: any[]) {
  const cyc: any = { choices: [] };
  cyc.self = cyc;
  class Resp { constructor(public choices: any, public usage: any) {} }
  const thrower = { get choices(): any { throw new Error("getter"); }, get usage(): any { throw new Error("getter"); } };
  return [
    undefined, null, 0, "", "text", true, Symbol("s"), 10n, () => 1, [], [1, 2], {}, Object.create(null), cyc, thrower,
    { choices: [] }, { choices: [null] }, { choices: [5] }, { choices: ["x"] }, { choices: "x" }, { choices: null }, { choices: [{}] }, { choices: [{ message: null }] }, { choices: [{ message: { content: "hi" } }] }, { choices: [{ text: "hi" }] }, { choices: [{ delta: {} }] },
    { choices: [{ delta: null }] }, { choices: [{ delta: { content: "a" } }] }, { choices: [{ delta: { tool_calls: [] } }] }, { choices: [{ delta: { tool_calls: [null] } }] }, { choices: [{ delta: { tool_calls: null } }] }, { choices: [{ delta: { tool_calls: [{ index: 0, function: { name: "f", arguments: "{" } }] } }] }, { choices: [{ delta: { content: 5 } }] },
    { usage: null }, { usage: 5 }, { usage: "x" }, { usage: {} }, { usage: { prompt_tokens: "x" } }, { usage: { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3 } }, { usage: { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3, prompt_tokens_details: 7, completion_tokens_details: null } }, { usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3, input_tokens_details: { a: "x", b: null } } }, { usage: { input_tokens: null } },
    { output: [] }, { output: [1] }, { output: [1, 2] }, { output: null }, { output_text: "" }, { output_text: "t" }, { output_text: null, output: [] },
    { response: null }, { response: 5 }, { response: { output: [], usage: null } }, { response: { output_text: "done", usage: { input_tokens: 1, output_tokens: 1, total_tokens: 2 } } }, { response: thrower },
    new Resp([{ message: { content: "x" } }], { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 }), Object.freeze({ model: "m", choices: Object.freeze([]) }), new Date(0), new Map(), new Error("value"), { model: 5, temperature: {}, metadata: cyc, error: null, status: 0 }, { big: 10n }, ...extra,
  ];
}
const NPOOL = pool([]).length + 3;
function errs() { return [new Error("boom"), new TypeError("t"), "str", 0, undefined, null, Object.create(null), Symbol("e"), { status: 500, message: "m" }, { toString() { throw new Error("no text"); } }, class X {}, [1]]; }
const NERR = errs().length;
const idx = fc.nat(NPOOL - 1);
const delay = fc.constantFrom(0, 0, 1, 10);
const beh: fc.Arbitrary<Beh> = fc.oneof(
  { weight: 4, arbitrary: fc.record({ k: fc.constant("resolve" as const), v: idx, delay }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("reject" as const), e: fc.nat(NERR - 1), delay }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("return" as const), v: idx }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("throw" as const), e: fc.nat(NERR - 1) }) },
  { weight: 5, arbitrary: fc.record({ k: fc.constant("stream" as const), chunks: fc.array(idx, { maxLength: 6 }), failAt: fc.option(fc.nat(6), { nil: null }), e: fc.nat(NERR - 1), promised: fc.boolean(), delay }) },
);
const PATHS = ["chat.completions.create", "completions.create", "embeddings.create", "ping", "beta.chat.completions.stream", "responses.create", "plain.create", "plain.deep.create", "bare.create", "bare.create", "SYMBOL", "helper.ping", "arrow.create"];
const useArb = fc.oneof({ weight: 3, arbitrary: fc.constant({ k: "full" as const }) }, { weight: 2, arbitrary: fc.record({ k: fc.constant("break" as const), after: fc.nat(4) }) }, { weight: 1, arbitrary: fc.record({ k: fc.constant("throw" as const), after: fc.nat(3) }) }, { weight: 1, arbitrary: fc.constant({ k: "none" as const }) });
const argArb = fc.oneof({ weight: 3, arbitrary: fc.record({ model: fc.constantFrom("gpt", undefined, null, 5), messages: jsonValue(1), stream: fc.boolean(), temperature: fc.constantFrom(0, 1, null), response_format: fc.constantFrom(undefined, null, { type: "json" }), n: fc.nat() }, { requiredKeys: [] }) }, { weight: 1, arbitrary: fc.constantFrom(undefined, null, "id-1", 0, 5, true, [], ["a"]) }, { weight: 1, arbitrary: jsonValue(1) });
const cfgArb = fc.option(fc.record({ generationName: ident, traceName: ident, userId: ident, sessionId: ident, tags: fc.array(ident, { maxLength: 2 }), generationMetadata: fc.dictionary(ident, jsonValue(0), { maxKeys: 2, noNullPrototype: true }), langfusePrompt: fc.record({ name: ident, version: fc.nat(9), isFallback: fc.boolean() }) }, { requiredKeys: [] }), { nil: undefined });
const caseArb = fc.record({ cfg: cfgArb, calls: fc.array(fc.record({ path: fc.constantFrom(...PATHS), args: fc.array(argArb, { maxLength: 5 }), beh, use: useArb, detach: fc.boolean() }), { minLength: 1, maxLength: 4 }), extra: fc.array(jsonValue(2), { minLength: 3, maxLength: 3 }), tracing: fc.constantFrom(true, true, true, false) });

async function run(c: any) {
  const clock = useClock();
  return isolated(async () => {
    const P = pool(c.extra);
    const E = errs();
    let processor: any;
    if (c.tracing) ({ processor } = makeTracing());
    let current: any = null;
    const log: any[] = [];
    const OP = Symbol("op");
    class Resource {
      #secret = {};
      constructor(public label: string) {}
      private call(method: string, args: any[]) {
        ensure(this.#secret, "receiver lost its private state");
        return answer(this, method, args);
      }
      create(...a: any[]) { return this.call("create", a); }
      stream(...a: any[]) { return this.call("stream", a); }
      ping(...a: any[]) { return this.call("ping", a); }
      [OP](...a: any[]) { return this.call("symbol", a); }
    }
    function answer(self: any, method: string, args: any[]) {
        const cur = current;
        cur.seen.push({ self, method, args });
        const b: Beh = cur.beh;
        const wait = async () => { if ((b as any).delay) await clock.sleep((b as any).delay); };
        if (b.k === "throw") throw E[b.e];
        if (b.k === "return") return P[b.v];
        if (b.k === "resolve") return wait().then(() => P[b.v]);
        if (b.k === "reject") return wait().then(() => { throw E[b.e]; });
        const it: any = {
          [Symbol.asyncIterator]() {
            let i = 0;
            cur.iterators++;
            return {
              async next() { await wait(); if (b.failAt !== null && i === b.failAt) { throw E[b.e]; } if (i >= b.chunks.length) return { done: true, value: undefined }; cur.pulled++; return { done: false, value: P[b.chunks[i++]] }; },
              async return(v: any) { cur.returned++; return { done: true, value: v }; },
            };
          },
        };
        return b.promised ? wait().then(() => it) : it;
    }
    const sdk: any = new Resource("root");
    sdk.chat = new Resource("chat"); sdk.chat.completions = new Resource("cc"); sdk.completions = new Resource("c"); sdk.embeddings = new Resource("e"); sdk.responses = new Resource("r");
    sdk.beta = new Resource("b"); sdk.beta.chat = new Resource("bc"); sdk.beta.chat.completions = new Resource("bcc");
    // resources that are no class instances: plain objects, objects without prototype, functions kept as properties
    sdk.plain = { create(...a: any[]) { return answer(this, "create", a); }, deep: { create: function (this: any, ...a: any[]) { return answer(this, "create", a); } } };
    sdk.bare = Object.assign(Object.create(null), { create(this: any, ...a: any[]) { return answer(this, "create", a); } });
    sdk.arrow = { create: (...a: any[]) => answer(sdk.arrow, "create", a) };
    sdk.helper = Object.create(new Resource("proto"), { ping: { configurable: true, writable: true, value(this: any, ...a: any[]) { return answer(this, "ping", a); } } });
    const cfgBefore = structuredClone(c.cfg);
    const obs: any = c.cfg === undefined ? observeOpenAI(sdk) : observeOpenAI(sdk, c.cfg);
    let weird = 0;
    const one = async (call: any) => {
      const rec: any = { beh: call.beh, seen: [], iterators: 0, pulled: 0, returned: 0 };
      const parts = call.path.split(".");
      const m = call.path === "SYMBOL" ? (parts.pop(), parts.push("chat"), OP) : parts.pop();
      const target = parts.reduce((o: any, p: string) => o[p], obs);
      const raw = parts.reduce((o: any, p: string) => o[p], sdk);
      const argsCopy = show(call.args, 5000);
      let res: any, thrown: any, threw = false;
      current = rec;
      try {
        if (call.detach) { const f = target[m]; res = f(...call.args); } else res = target[m](...call.args);
      } catch (e) { threw = true; thrown = e; }
      current = null;
      same(rec.seen.length, 1, "calls of the underlying method");
      ensure(rec.seen[0].self === raw, "underlying method called with another receiver");
      same(rec.seen[0].args.length, call.args.length, "number of arguments");
      rec.seen[0].args.forEach((a: any, i: number) => ensure(Object.is(a, call.args[i]), "argument replaced"));
      same(show(call.args, 5000), argsCopy, "arguments after the call");
      const b: Beh = call.beh;
      if (b.k === "throw") { ensure(threw && Object.is(thrown, E[b.e]), () => `expected the method's own error, got ${show(thrown)}`); return; }
      ensure(!threw, () => `a synchronous error appeared: ${show(thrown?.stack ?? thrown)}`);
      if (b.k === "return") { ensure(Object.is(res, P[b.v]), () => `returned ${show(res)} instead of ${show(P[b.v])}`); return; }
      if (b.k === "resolve" || b.k === "reject" || (b.k === "stream" && b.promised)) {
        ensure(res instanceof Promise, "expected a promise");
        let v: any, err: any, rej = false;
        try { v = await res; } catch (e) { rej = true; err = e; }
        if (b.k === "reject") { ensure(rej && Object.is(err, E[b.e]), () => `expected rejection with ${show(E[b.e])}, got ${rej ? show(err) : "success"}`); return; }
        ensure(!rej, () => `a successful call was turned into a failure: ${show(err?.stack ?? err)}`);
        if (b.k === "resolve") { ensure(Object.is(v, P[b.v]), () => `resolved to ${show(v)} instead of ${show(P[b.v])}`); return; }
        res = v;
      }
      if (b.k !== "stream") return;
      weird++;
      const use = call.use;
      if (use.k === "none") return;
      const got: any[] = [];
      let err: any, failed = false, stopped = false;
      const marker = new Error("consumer");
      try {
        for await (const chunk of res) {
          got.push(chunk);
          if (use.k === "break" && got.length > use.after) { stopped = true; break; }
          if (use.k === "throw" && got.length > use.after) { stopped = true; throw marker; }
        }
      } catch (e) { failed = true; err = e; }
      got.forEach((g, i) => ensure(Object.is(g, P[b.chunks[i]]), () => `stream item ${i}: ${show(g)} instead of ${show(P[b.chunks[i]])}`));
      same(rec.iterators, 1, "iterations of the underlying stream");
      if (stopped) {
        if (use.k === "throw") ensure(failed && err === marker, "consumer's own error was replaced");
        same(rec.returned, 1, "release of the underlying stream after the consumer stopped");
        same(rec.pulled, got.length, "items pulled beyond what the consumer asked for");
      } else if (b.failAt !== null && b.failAt <= b.chunks.length) {
        ensure(failed && Object.is(err, E[b.e]), () => `expected the stream's own error ${show(E[b.e])}, got ${failed ? show(err?.stack ?? err) : "a normal end"}`);
        same(got.length, b.failAt, "items before the failure");
      } else {
        ensure(!failed, () => `the stream failed: ${show(err?.stack ?? err)}`);
        same(got.length, b.chunks.length, "stream items");
      }
    };
    // started one after the other, running concurrently
    await clock.drive(Promise.all(c.calls.map(one)), { what: "calls" });
    if (processor) await clock.drive(processor.forceFlush());
    same(c.cfg, cfgBefore, "configuration object of the application");
    return { nontrivial: true, labels: [...c.calls.map((x: any) => x.beh.k), weird > 0 && "stream", !c.tracing && "no tracing"] };
  });
}

// ---------- properties of the wrapper
const propArb = fc.record({ vals: fc.dictionary(ident.filter((k) => !["constructor", "chat"].includes(k)), fc.constantFrom("s", 0, 1.5, true, false, null, undefined, "", "DATE", "ARR", "OBJ", "DEEP", "BIG", "SYM", "FROZEN", "FROZENFN", "BARE"), { minKeys: 1, maxKeys: 6, noNullPrototype: true }), set: fc.option(fc.tuple(ident, fc.constantFrom(1, "x", null)), { nil: undefined }) });
async function runProp(c: any) {
  const mk = (v: any) => (v === "DATE" ? new Date(5) : v === "ARR" ? [1, { a: 2 }] : v === "OBJ" ? { x: 1, y: { z: "q", w: null } } : v === "DEEP" ? { a: { b: { c: { d: 7 } } } } : v === "FROZEN" ? Object.freeze({ a: { b: [1] }, c: "x" }) : v === "FROZENFN" ? Object.freeze({ sum: (x: number, y: number) => x + y, inner: { k: 1 } }) : v === "BARE" ? Object.assign(Object.create(null), { q: 1, r: { s: 2 } }) : v === "BIG" ? 7n : v === "SYM" ? Symbol.for("q") : v);
  class Sdk { chat = { model: "m" }; get computed() { return (this as any).base + 1; } base = 41; }
  const sdk: any = new Sdk();
  for (const [k, v] of Object.entries(c.vals)) sdk[k] = mk(v);
  const obs: any = observeOpenAI(sdk);
  const walk = (o: any, r: any, at: string, depth: number) => {
    if (r !== null && typeof r === "object" && !Array.isArray(r) && !(r instanceof Date)) {
      same(Object.keys(o), Object.keys(r), `keys at ${at}`);
      ensure(Object.getPrototypeOf(o) === Object.getPrototypeOf(r), `prototype at ${at}`);
      if (depth < 6) for (const k of Object.keys(r)) { ensure(k in o, `${at}.${k} missing`); if (typeof r[k] === "function") same(o[k](2, 3), r[k](2, 3), `calling ${at}.${k}`); else walk(o[k], r[k], `${at}.${k}`, depth + 1); }
    } else ensure(Object.is(o, r), () => `${at}: ${show(o)} instead of ${show(r)}`);
  };
  walk(obs, sdk, "sdk", 0);
  same(obs.computed, sdk.computed, "computed property");
  same(obs.absent, undefined, "absent property");
  ensure(obs instanceof Sdk, "instanceof");
  if (c.set) { obs[c.set[0]] = c.set[1]; same(sdk[c.set[0]], c.set[1], "property written through the wrapper"); obs.chat[c.set[0]] = c.set[1]; same(sdk.chat[c.set[0]], c.set[1], "nested property written through the wrapper"); }
  return { nontrivial: true };
}

// ---------- the real OpenAI client, differentially against the unwrapped client
const realArb = fc.record({ what: fc.constantFrom("chat", "chatStream", "embed", "error", "retrieve", "page", "pageIter", "withResponse"), text: fc.string({ maxLength: 20 }), n: fc.nat(4), status: fc.constantFrom(400, 401, 404, 429, 500) });
async function runReal(c: any) {
  const clock = useClock();
  return isolated(async () => {
    makeTracing();
    const sse = (o: any) => `data: ${JSON.stringify(o)}\n\n`;
    const reqs: any[] = [];
    new FakeNet((r) => {
      reqs.push({ m: r.method, p: r.path, b: r.json });
      if (c.what === "error") return { status: c.status, json: { error: { message: "bad " + c.text } } };
      if (c.what === "chatStream") return { text: Array.from({ length: c.n }, (_, i) => sse({ id: "x", choices: [{ index: 0, delta: { content: c.text + i } }] })).join("") + "data: [DONE]\n\n", headers: { "content-type": "text/event-stream" } };
      if (r.path.endsWith("/models")) return { json: { object: "list", data: Array.from({ length: c.n }, (_, i) => ({ id: "m" + i })) } };
      if (r.path.includes("/models/")) return { json: { id: "m" } };
      if (c.what === "embed") return { json: { data: [{ embedding: [0.5], index: 0 }], usage: { prompt_tokens: 1, total_tokens: 1 } } };
      return { json: { id: "x", model: "gpt", choices: [{ index: 0, message: { role: "assistant", content: c.text } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } } };
    }).install();
    const mk = () => new OpenAI({ apiKey: "k", baseURL: "http://openai.test/v1", maxRetries: 0, fetch: globalThis.fetch as any, dangerouslyAllowBrowser: true });
    const go = async (cl: any): Promise<any> => {
      try {
        if (c.what === "chatStream") { const out: any[] = []; for await (const x of await cl.chat.completions.create({ model: "gpt", stream: true, messages: [{ role: "user", content: c.text }] })) out.push(x); return { out }; }
        if (c.what === "embed") return { out: await cl.embeddings.create({ model: "e", input: c.text, encoding_format: "float" }) };
        if (c.what === "retrieve") return { out: await cl.models.retrieve("m/1") };
        if (c.what === "page") { const p = await cl.models.list(); return { out: p.data }; }
        if (c.what === "pageIter") { const out: any[] = []; for await (const m of cl.models.list()) out.push(m); return { out }; }
        if (c.what === "withResponse") { const p: any = cl.chat.completions.create({ model: "gpt", messages: [] }); if (typeof p.withResponse !== "function") { await p; return { lost: "withResponse" }; } const { data, response } = await p.withResponse(); return { out: data, status: response.status }; }
        return { out: await cl.chat.completions.create({ model: "gpt", messages: [{ role: "user", content: c.text }] }) };
      } catch (e: any) { return { err: e?.constructor?.name, message: e?.message, status: e?.status }; }
    };
    const a = await clock.drive(go(mk()));
    const n = reqs.length;
    const b = await clock.drive(go(observeOpenAI(mk())));
    const ja = JSON.stringify(a), jb = JSON.stringify(b);
    if (c.what === "page" && ja !== jb) { knownOrFail("page-properties", `await client.models.list() gave ${jb} instead of ${ja}`); return { nontrivial: true, labels: ["page"] }; }
    if (c.what === "withResponse" && ja !== jb) { knownOrFail("promise-helpers", `create().withResponse() gave ${jb} instead of ${ja}`); return { nontrivial: true, labels: ["withResponse"] }; }
    same(jb, ja, `outcome of ${c.what} through the wrapper`);
    same(reqs.slice(n), reqs.slice(0, n), "requests sent through the wrapper");
    return { nontrivial: true, labels: [c.what] };
  });
}
main({
  assumptions: ["client methods are represented by a stand-in client whose methods return, throw, resolve, reject or stream arbitrary values, plus the real openai client on an in-memory fetch", "arguments whose property getters throw are not generated"],
  subs: [
    { name: "calls", arb: caseArb, run, quick: 6000, thorough: 80000, rule: "always: every case performs at least one wrapped call" },
    { name: "properties", arb: propArb, run: runProp, quick: 600, thorough: 5000, rule: "always" },
    { name: "real client", arb: realArb, run: runReal, quick: 500, thorough: 3000, rule: "always" },
  ],
});
