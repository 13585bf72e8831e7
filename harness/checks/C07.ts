import fc from "fast-check";
import { main, ensure, same, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated, trace, context, propagation, ROOT_CONTEXT } from "../lib/otel";
import { W3CBaggagePropagator, W3CTraceContextPropagator } from "@opentelemetry/core";
import { cleanString, ident } from "../lib/arbs";
import { startObservation, startActiveObservation, propagateAttributes } from "@langfuse/tracing";

const str = fc.oneof(cleanString.filter((s) => s.length > 0 && s.length <= 200), fc.constantFrom("a=b", "a;b", "100%", "a b", " lead", "trail ", "ü/ñ", "x\"y", "%41", "a,b", "😀".repeat(20), "x".repeat(200)));
const tag = str.filter((s) => !s.includes(","));
const metaKey = fc.oneof(ident, cleanString.filter((s) => s.length > 0 && s.length < 60 && s !== "__proto__"), fc.constantFrom("user_id", "tags", "metadata_x", "a.b", "k=v", "k v", "trace_id"));
const scope = fc.record(
  {
    userId: str, sessionId: str, version: str, traceName: str,
    environment: fc.stringMatching(/^[a-km-z0-9_-][a-z0-9_-]{0,20}$/),
    tags: fc.oneof({ weight: 10, arbitrary: fc.uniqueArray(tag, { minLength: 1, maxLength: 3 }) }, { weight: 1, arbitrary: fc.integer({ min: 5, max: 60 }).map((n) => Array.from({ length: n }, (_, i) => "t" + i)) }),
    metadata: fc.oneof({ weight: 10, arbitrary: fc.dictionary(metaKey, str, { maxKeys: 3, noNullPrototype: true }) }, { weight: 1, arbitrary: fc.integer({ min: 5, max: 40 }).map((n) => Object.fromEntries(Array.from({ length: n }, (_, i) => ["k" + i, "v" + i]))) }),
    prompt: fc.record({ name: str, version: fc.oneof(fc.nat(200), fc.constantFrom(999, 1000, 4096, 20240131, 2 ** 31)) }),
  },
  { requiredKeys: [] },
);
const caseArb = fc.record({
  scopes: fc.array(fc.record({ p: scope, b: fc.boolean() }), { minLength: 1, maxLength: 3 }),
  mode: fc.constantFrom("all" as const, "all" as const, "none" as const, "mixed" as const),
  foreign: fc.dictionary(fc.constantFrom("app", "tenant", "lang", "langfuse", "xlangfuse_user_id"), fc.record({ value: cleanString.filter((s) => s.length > 0 && s.length <= 200), meta: fc.constantFrom(undefined, "prop1", "ttl=5") }), { maxKeys: 3, noNullPrototype: true }),
  active: fc.boolean(),
});
type Case = typeof caseArb extends fc.Arbitrary<infer T> ? T : never;
const RELEVANT = /^(user\.id|session\.id|langfuse\.(version|environment|trace\..*|observation\.prompt\..*))$/s;
const getter = { get: (c: any, k: string) => c[k], keys: (c: any) => Object.keys(c) };
const setter = { set: (c: any, k: string, v: string) => { c[k] = v; } };

async function run(c: Case) {
  const clock = useClock();
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  const bag = new W3CBaggagePropagator();
  const tc = new W3CTraceContextPropagator();
  const carrier: Record<string, string> = {};
  const uniq = (p: any, i: number) => {
    // in mixed mode scalar values are made unique so that a leak is recognisable
    if (c.mode !== "mixed") return p;
    const q: any = { ...p };
    for (const k of ["userId", "sessionId", "version", "traceName"]) if (q[k]) q[k] = `uniq${i}${k}x`;
    return q;
  };
  const want: Record<string, any> = {};
  const lastBy: Record<string, boolean> = {}; // whether the innermost scope giving the attribute uses baggage
  const secrets: string[] = [];
  let meta: Record<string, string> = {};
  let tags: string[] = [];
  let anyValue = false;
  const leaf = () => {
    startObservation("sender").end();
    bag.inject(context.active(), carrier, setter);
    tc.inject(context.active(), carrier, setter);
    const b = propagation.getBaggage(context.active());
    for (const [k, e] of Object.entries(c.foreign)) {
      const x = b?.getEntry(k);
      same(x?.value, e.value, `application baggage entry ${k}`);
      if (e.meta) same(x?.metadata?.toString(), e.meta, `metadata of application baggage entry ${k}`);
    }
    const names = (b?.getAllEntries() ?? []).map(([k]) => k);
    if (c.mode === "none") {
      const allowed = new Set([...Object.keys(c.foreign), "langfuse_trace_id"]);
      for (const k of names) ensure(allowed.has(k), `baggage entry ${k} although baggage propagation was not requested`);
    }
    const all = show(b?.getAllEntries() ?? []) + JSON.stringify(carrier);
    if (c.mode === "mixed") for (const s of secrets) ensure(!all.includes(s), `value ${s} of a scope without baggage propagation appears in the outgoing baggage`);
  };
  const nest = (i: number): void => {
    if (i === c.scopes.length) return leaf();
    const s = c.scopes[i];
    const p = uniq(s.p, i);
    const b = c.mode === "all" ? true : c.mode === "none" ? false : s.b;
    if (!b) for (const k of ["userId", "sessionId", "version", "traceName"]) if ((p as any)[k]) secrets.push((p as any)[k]);
    const m: any = { userId: "user.id", sessionId: "session.id", version: "langfuse.version", traceName: "langfuse.trace.name", environment: "langfuse.environment" };
    for (const k of Object.keys(m)) if ((p as any)[k] !== undefined) { want[m[k]] = (p as any)[k]; anyValue = true; }
    for (const k of Object.keys(m)) if ((p as any)[k] !== undefined) lastBy[m[k]] = b;
    if (p.tags) lastBy["langfuse.trace.tags"] = b;
    if (p.metadata && Object.keys(p.metadata).length) lastBy.metadata = b;
    if (p.prompt) lastBy["langfuse.observation.prompt.name"] = lastBy["langfuse.observation.prompt.version"] = b;
    if (p.tags) { tags = [...new Set([...tags, ...p.tags])]; want["langfuse.trace.tags"] = tags; }
    if (p.metadata) { meta = { ...meta, ...p.metadata }; }
    if (p.prompt) { want["langfuse.observation.prompt.name"] = p.prompt.name; want["langfuse.observation.prompt.version"] = p.prompt.version; }
    propagateAttributes({ ...p, ...(b ? { asBaggage: true } : c.mode === "none" && i === 0 ? { asBaggage: false } : {}) } as any, () => nest(i + 1));
  };
  isolated(() => {
    let b = propagation.createBaggage();
    for (const [k, e] of Object.entries(c.foreign)) b = b.setEntry(k, { value: e.value, ...(e.meta ? { metadata: { toString: () => e.meta, __TYPE__: Symbol("BaggageEntryMetadata") } as any } : {}) });
    const ctx = Object.keys(c.foreign).length ? propagation.setBaggage(ROOT_CONTEXT, b) : ROOT_CONTEXT;
    context.with(ctx, () => {
      if (c.active) startActiveObservation("request", () => nest(0));
      else nest(0);
    });
  });
  for (const [k, v] of Object.entries(meta)) { want["langfuse.trace.metadata." + k] = v; anyValue = true; }
  if (JSON.stringify(carrier).length > 5500) return { nontrivial: false, labels: ["too large for the header format"] };
  // receiving service: only the header text crosses
  isolated(() => {
    const ctx = bag.extract(tc.extract(ROOT_CONTEXT, carrier, getter), carrier, getter);
    const b = propagation.getBaggage(ctx);
    for (const [k, e] of Object.entries(c.foreign)) same(b?.getEntry(k)?.value, e.value, `application baggage entry ${k} at the receiver`);
    context.with(ctx, () => {
      startActiveObservation("r1", () => {
        startObservation("r2").end();
        trace.getTracer("ai").startSpan("r3").end();
      });
      trace.getTracer("ai").startSpan("r4").end();
    });
  });
  await clock.drive(processor.forceFlush());
  const at = (n: string) => Object.fromEntries(Object.entries(exporter.spans.find((x) => x.name === n)!.attributes).filter(([k]) => RELEVANT.test(k)));
  const sender = at("sender");
  for (const k of new Set([...Object.keys(want), ...Object.keys(sender)])) ensure(deepEqual(sender[k], want[k]), () => `sender span: ${k} should be ${show(want[k])} but is ${show(sender[k])}`);
  if (c.mode !== "mixed")
    for (const n of ["r1", "r2", "r3", "r4"]) {
      const got = at(n);
      const exp = c.mode === "all" ? want : {};
      for (const k of new Set([...Object.keys(exp), ...Object.keys(got)])) ensure(deepEqual(got[k], exp[k]), () => `receiver span ${n}: ${k} should be ${show(exp[k])} but is ${show(got[k])} (header ${show(carrier.baggage)})`);
    }
  else
    for (const n of ["r1", "r2", "r3", "r4"]) {
      const got = at(n);
      for (const k of Object.keys(want)) if (k.startsWith("langfuse.trace.metadata.") ? lastBy.metadata : lastBy[k]) ensure(deepEqual(got[k], want[k]), () => `receiver span ${n}: ${k}, last given by a scope with baggage, should be ${show(want[k])} but is ${show(got[k])} (header ${show(carrier.baggage)})`);
    }
  return { nontrivial: anyValue, labels: ["mode:" + c.mode, c.scopes.length > 1 && "nested", Object.keys(c.foreign).length > 0 && "application baggage"] };
}
main({
  subs: [{ name: "wire", arb: caseArb, run, quick: 8000, thorough: 250_000, rule: "nested scopes serialised with the W3C baggage propagator and received in a fresh context; non-trivial = at least one attribute propagated", minNontrivial: 0.5 }],
  assumptions: ["values within the W3C baggage size limits; tags without commas (the tag separator); no lone surrogates (not representable in a header); where scopes with and without baggage are mixed, only attributes last given by a scope with baggage are compared at the receiver"],
});
