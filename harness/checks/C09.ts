import fc from "fast-check";
import { main, ensure, same, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated, trace } from "../lib/otel";
import { anyString } from "../lib/arbs";
import { type V, vArb, build, enc, TYPES } from "../lib/values";
import { observe, startActiveObservation } from "@langfuse/tracing";

const errArb = fc.oneof(
  fc.record({ k: fc.constantFrom("Error", "TypeError", "Custom"), m: fc.oneof(anyString, fc.constant("")) }),
  fc.constantFrom({ k: "string", m: "boom" }, { k: "string", m: "" }, { k: "undefined", m: "" }, { k: "null", m: "" }, { k: "num", m: "" }, { k: "nullproto", m: "" }, { k: "sym", m: "" }, { k: "obj", m: "x" }, { k: "throwsToString", m: "" }, { k: "falsy", m: "" }),
);
class CustomError extends Error {
  extra = 1;
}
function mkErr(d: { k: string; m: string }): any {
  switch (d.k) {
    case "Error": return new Error(d.m);
    case "TypeError": return new TypeError(d.m);
    case "Custom": return new CustomError(d.m);
    case "string": return d.m;
    case "undefined": return undefined;
    case "null": return null;
    case "num": return 42;
    case "falsy": return false;
    case "nullproto": return Object.create(null);
    case "sym": return Symbol("oops");
    case "obj": return { message: d.m };
    case "throwsToString": return { toString() { throw new Error("nope"); } };
  }
}
const callArb = fc.record({
  args: fc.oneof({ weight: 6, arbitrary: fc.array(vArb, { maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(vArb, { minLength: 4, maxLength: 12 }) }),
  beh: fc.constantFrom("sync", "sync", "throw", "async", "async", "reject", "thenable", "promiseSub", "asyncImmediate", "asyncSyncThrow"),
  ret: vArb,
  err: errArb,
  delay: fc.constantFrom(1, 5, 20, 100),
  mutate: fc.boolean(),
  gap: fc.constantFrom(0, 0, 1, 7, 30),
  recv: fc.boolean(),
  nested: fc.boolean(),
});
const caseArb = fc.record({
  wrapper: fc.constantFrom("observe" as const, "observe" as const, "active" as const),
  asType: fc.constantFrom(undefined, ...TYPES),
  captureInput: fc.constantFrom(undefined, true, false),
  captureOutput: fc.constantFrom(undefined, true, false),
  endOnExit: fc.constantFrom(undefined, undefined, true, false),
  name: fc.constantFrom(undefined, "named"),
  fnName: fc.constantFrom(undefined, undefined, "bound handler", "get value", "größe", "async step", "_x$1", ""),
  calls: fc.array(callArb, { minLength: 1, maxLength: 4 }),
});
type Case = typeof caseArb extends fc.Arbitrary<infer T> ? T : never;
class SubPromise<T> extends Promise<T> {}

async function run(c: Case) {
  const clock = useClock();
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  let current: any; // description of the call in progress, handed over synchronously
  const isEvent = c.asType === "event";
  function body(this: any, ...args: any[]): any {
    const cur = current;
    cur.invocations++;
    cur.thisSeen = this;
    cur.argsSeen = args;
    cur.span = trace.getActiveSpan();
    if (cur.d.mutate && args[0] && typeof args[0] === "object" && !Object.isFrozen(args[0])) {
      try { args[0].mutated = true; } catch {}
    }
    const { d, ret, err } = cur;
    if (d.nested) observe(() => {}, { name: "inner" })();
    switch (d.beh) {
      case "sync": return ret;
      case "throw": throw err;
      case "asyncImmediate": return Promise.resolve(ret);
      case "asyncSyncThrow": return Promise.reject(err);
      case "async": return (async () => { await clock.sleep(d.delay); cur.activeAfter = trace.getActiveSpan(); cur.settledAt = clock.now; return ret; })();
      case "reject": return (async () => { await clock.sleep(d.delay); cur.settledAt = clock.now; throw err; })();
      case "promiseSub": return new SubPromise((res) => setTimeout(() => { cur.settledAt = clock.now; res(ret); }, d.delay));
      case "thenable": return cur.thenable;
    }
  }
  if (c.fnName !== undefined) Object.defineProperty(body, "name", { value: c.fnName });
  const opts: any = {};
  for (const k of ["asType", "captureInput", "captureOutput", "endOnExit", "name"] as const) if (c[k] !== undefined) opts[k] = c[k];
  const wrapped: any = c.wrapper === "observe" ? observe(body, opts) : null;
  const curs: any[] = [];
  await isolated(async () => {
    for (const d of c.calls) {
      const args = d.args.map(build);
      const cur: any = { d, args, argCopies: d.args.map(build), ret: build(d.ret), err: mkErr(d.err), invocations: 0, thenable: { then: (f: any) => f(1), x: 1 }, calledAt: clock.now };
      if (d.beh !== "sync" && typeof cur.ret?.then === "function") cur.ret = 1;
      curs.push(cur);
      current = cur;
      const recv = { me: 1 };
      cur.recv = d.recv && c.wrapper === "observe" ? recv : undefined;
      let out: any;
      try {
        if (c.wrapper === "observe") out = { v: d.recv ? wrapped.apply(recv, args) : wrapped(...args) };
        else out = { v: startActiveObservation("act", (obs: any) => { cur.obs = obs; return body.call(undefined, ...args); }, { ...(c.asType ? { asType: c.asType as any } : {}), ...(c.endOnExit !== undefined ? { endOnExit: c.endOnExit } : {}) } as any) };
      } catch (e) {
        out = { e };
      }
      same(cur.invocations, 1, "number of invocations of the wrapped function");
      if (d.beh === "throw") ensure("e" in out && Object.is(out.e, cur.err), () => `thrown ${show(cur.err)} but caller got ${show(out)}`);
      else if (d.beh === "sync") ensure("v" in out && Object.is(out.v, cur.ret), () => `returned ${show(cur.ret)} but caller got ${show(out)}`);
      else if (d.beh === "thenable") ensure(out.v === cur.thenable, () => `returned a thenable but caller got ${show(out)}`);
      else {
        ensure(out.v instanceof Promise, () => `asynchronous function gave ${show(out)}`);
        cur.done = out.v.then((v: any) => { cur.outcome = { v }; }, (e: any) => { cur.outcome = { e }; });
      }
      if (d.gap) await clock.advance(d.gap);
    }
  });
  for (const cur of curs) if (cur.done) await clock.drive(cur.done, { what: "wrapped call" });
  await clock.drive(processor.forceFlush());
  const find = (cur: any) => exporter.spans.filter((x) => x.spanId === cur.span.spanContext().spanId);
  for (const cur of curs) {
    const d = cur.d;
    if (cur.done) {
      const rejects = d.beh === "reject" || d.beh === "asyncSyncThrow";
      ensure(rejects ? "e" in cur.outcome && Object.is(cur.outcome.e, cur.err) : "v" in cur.outcome && Object.is(cur.outcome.v, cur.ret), () => `promise outcome changed: expected ${rejects ? "rejection " + show(cur.err) : show(cur.ret)}, got ${show(cur.outcome)}`);
    }
    ensure(Object.is(cur.thisSeen, cur.recv), "receiver of the wrapped function");
    ensure(cur.argsSeen.length === cur.args.length && cur.argsSeen.every((a: any, i: number) => Object.is(a, cur.args[i])), "arguments of the wrapped function");
    ensure(cur.span, "no observation was active inside the wrapped function");
    if (cur.activeAfter) ensure(cur.activeAfter === cur.span, "the observation is no longer active after an await");
    if (c.endOnExit === false && !isEvent) {
      same(find(cur).length, 0, "exports of an observation the caller asked to end himself");
      cur.span.end();
    }
  }
  same(new Set(curs.map((x) => x.span.spanContext().spanId)).size, curs.length, "distinct observations");
  await clock.drive(processor.forceFlush());
  for (const cur of curs) {
    const d = cur.d;
    const recs = find(cur);
    same(recs.length, 1, "exports of the call's observation");
    const r = recs[0];
    // what a function without a name is called is left open
    if (c.wrapper === "active" || c.name !== undefined || c.fnName !== "") same(r.name, c.wrapper === "active" ? "act" : c.name ?? c.fnName ?? "body", "observation name");
    same(r.attributes["langfuse.observation.type"], c.asType ?? "span", "observation type");
    if (c.endOnExit !== false && !isEvent) same(r.endMs, cur.settledAt ?? cur.calledAt, "end time vs. the moment the function settled");
    const failed = ["throw", "reject", "asyncSyncThrow"].includes(d.beh);
    const a = r.attributes;
    if (isEvent) continue; // events are complete at creation
    if (c.wrapper === "observe") {
      const wantIn = c.captureInput === false || cur.args.length === 0 ? undefined : enc(cur.args.length === 1 ? cur.argCopies[0] : cur.argCopies);
      ensure(deepEqual(a["langfuse.observation.input"], wantIn), () => `input recorded ${show(a["langfuse.observation.input"])}, expected ${show(wantIn)}`);
      if (failed) {
        same(a["langfuse.observation.level"], "ERROR", "level of a failed call");
        const msg = cur.err instanceof Error ? cur.err.message : undefined;
        if (msg) same(a["langfuse.observation.status_message"], msg, "status message of a failed call");
        else ensure(typeof a["langfuse.observation.status_message"] === "string" && a["langfuse.observation.status_message"].length > 0, "a failed call has no status message");
        if (d.err.k === "string" && d.err.m) same(a["langfuse.observation.status_message"], d.err.m, "status message for a thrown string");
        if (c.captureOutput === false) same(a["langfuse.observation.output"], undefined, "output although capture is off");
      } else {
        same(a["langfuse.observation.level"], undefined, "level of a successful call");
        const wantOut = c.captureOutput === false ? undefined : enc(d.beh === "thenable" ? { x: 1 } : d.mutate && cur.args[0] === cur.ret ? cur.ret : cur.ret);
        ensure(deepEqual(a["langfuse.observation.output"], wantOut), () => `output recorded ${show(a["langfuse.observation.output"])}, expected ${show(wantOut)}`);
      }
    } else {
      if (failed) {
        same(r.status.code, 2, "status of a failed active observation");
        if (cur.err instanceof Error) same(r.status.message, cur.err.message, "status message of a failed active observation");
      } else same(r.status.code, 0, "status of a successful active observation");
      same(a["langfuse.observation.input"], undefined, "input recorded without being given");
    }
  }
  return { nontrivial: c.calls.length > 1 || c.calls[0].args.length > 0, labels: [c.wrapper, curs.some((x) => x.done) && "async", c.calls.some((d) => /throw|reject|Throw/.test(d.beh)) && "failing", c.calls.filter((d) => d.gap === 0).length > 1 && "overlapping calls"] };
}
main({
  subs: [{ name: "calls", arb: caseArb, run, quick: 10_000, thorough: 300_000, rule: "1-4 possibly overlapping calls through one wrapper with arbitrary arguments, results and errors; non-trivial = several calls or at least one argument", minNontrivial: 0.5 }],
  assumptions: ["asynchronous results are native promises; other thenables are passed through as plain values"],
});
