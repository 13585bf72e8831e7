import fc from "fast-check";
import { main, ensure, same, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated } from "../lib/otel";
import { anyString, jsonValue, key, opt, ident } from "../lib/arbs";
import { type V, vArb, build, enc, MARK, TYPES } from "../lib/values";
import { observe, startObservation, startActiveObservation, updateActiveObservation, setActiveTraceIO, setActiveTraceAsPublic, getActiveSpanId } from "@langfuse/tracing";

const attrsArb = fc.record(
  {
    input: vArb,
    output: vArb,
    metadata: fc.oneof({ weight: 5, arbitrary: fc.dictionary(key, vArb, { maxKeys: 5, noNullPrototype: true }).map((o) => ({ k: "obj", o })) }, { weight: 1, arbitrary: fc.oneof(anyString.map((v) => ({ k: "json", v })), fc.constantFrom({ k: "null" }, { k: "undefined" }, { k: "json", v: [1, { a: 2 }] }, { k: "json", v: [] }, { k: "json", v: 7 }, { k: "json", v: 0 }, { k: "json", v: false })) }),
    level: opt(fc.constantFrom("DEBUG", "DEFAULT", "WARNING", "ERROR")),
    statusMessage: opt(anyString),
    version: opt(anyString),
    environment: opt(anyString),
    completionStartTime: opt(fc.date({ noInvalidDate: true, min: new Date(0), max: new Date("2100-01-01") })),
    model: opt(anyString),
    modelParameters: opt(fc.dictionary(ident, fc.oneof(anyString, fc.integer(), fc.double({ noNaN: true })), { maxKeys: 3, noNullPrototype: true })),
    usageDetails: opt(fc.dictionary(ident, fc.nat(), { maxKeys: 3, noNullPrototype: true })),
    costDetails: opt(fc.dictionary(ident, fc.double({ noNaN: true, noDefaultInfinity: true }), { maxKeys: 3, noNullPrototype: true })),
    prompt: opt(fc.record({ name: anyString, version: fc.nat(50), isFallback: fc.boolean() })),
  },
  { requiredKeys: [] },
);
type Desc = any;
function buildAttrs(d: Desc): any {
  const a: any = { ...d };
  if ("input" in d) a.input = build(d.input);
  if ("output" in d) a.output = build(d.output);
  if ("metadata" in d) a.metadata = d.metadata.k === "obj" ? Object.fromEntries(Object.entries(d.metadata.o).map(([k, v]) => [k, build(v as V)])) : build(d.metadata);
  return a;
}
/** reference: attributes one create/update call contributes */
function refAttrs(type: string | undefined, d: Desc): Record<string, any> {
  const a = buildAttrs(d);
  const out: Record<string, any> = {};
  const put = (k: string, v: any) => {
    if (v !== undefined && v !== null) out[k] = v;
  };
  put("langfuse.observation.type", type);
  put("langfuse.observation.level", a.level);
  put("langfuse.observation.status_message", a.statusMessage);
  put("langfuse.version", a.version);
  put("langfuse.environment", a.environment);
  put("langfuse.observation.input", enc(a.input));
  put("langfuse.observation.output", enc(a.output));
  put("langfuse.observation.model.name", a.model);
  put("langfuse.observation.usage_details", enc(a.usageDetails));
  put("langfuse.observation.cost_details", enc(a.costDetails));
  put("langfuse.observation.completion_start_time", enc(a.completionStartTime));
  put("langfuse.observation.model.parameters", enc(a.modelParameters));
  if (a.prompt && !a.prompt.isFallback) {
    put("langfuse.observation.prompt.name", a.prompt.name);
    put("langfuse.observation.prompt.version", a.prompt.version);
  }
  const m = a.metadata;
  if (m !== undefined && m !== null) {
    if (typeof m !== "object" || Array.isArray(m)) put("langfuse.observation.metadata", enc(m));
    else for (const k of Object.keys(m)) put("langfuse.observation.metadata." + k, enc(m[k]));
  }
  return out;
}
type Op = { t: "update" | "updateActive" | "updateActiveTyped"; a: Desc; as?: string } | { t: "traceIO" | "activeTraceIO"; input: V; output: V } | { t: "public" | "activePublic" };
const opArb: fc.Arbitrary<Op> = fc.oneof(
  { weight: 5, arbitrary: fc.record({ t: fc.constantFrom("update" as const, "update" as const, "updateActive" as const, "updateActiveTyped" as const), a: attrsArb, as: opt(fc.constantFrom(...TYPES)) }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constantFrom("traceIO" as const, "activeTraceIO" as const), input: vArb, output: vArb }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constantFrom("public" as const, "activePublic" as const) }) },
) as any;

const shape = (v: any) => show(v, 5000);
/** the caller goes on using (and changing) what it passed */
function reuse(v: any, depth = 0) {
  if (depth > 2 || v === null || typeof v !== "object") return;
  const plain = Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype;
  if (!plain || Object.isFrozen(v)) return;
  for (const k of Object.keys(v)) {
    const d = Object.getOwnPropertyDescriptor(v, k)!;
    if ("value" in d) reuse(d.value, depth + 1);
  }
  try {
    if (Array.isArray(v)) v.push("later");
    else v.later = "later";
  } catch {}
}

type Fn = { args: V[]; result: V; async: boolean; captureInput?: boolean; captureOutput?: boolean };
async function run(c: { type: (typeof TYPES)[number]; how: "root" | "child" | "active" | "observe"; create: Desc | null; ops: Op[]; fn: Fn }) {
  useClock();
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  const want: Record<string, any> = {};
  const given: [any, string][] = [];
  const mk = (d: Desc) => {
    const a = buildAttrs(d);
    given.push([a, shape(a)]);
    return a;
  };
  const isEvent = c.type === "event";
  let id = "";
  const body = (obs: any, active: boolean) => {
    id = obs.id;
    for (const o of c.ops) {
      if (isEvent) continue; // an event is complete once created
      if (c.how === "observe" && (o.t === "update" || o.t === "traceIO" || o.t === "public")) continue; // no handle on the observation
      if (o.t === "update") {
        const r = obs.update(mk(o.a));
        ensure(r === obs, "update() returns the observation");
        Object.assign(want, refAttrs(c.type, o.a));
      } else if (o.t === "traceIO") {
        ensure(obs.setTraceIO({ input: build(o.input), output: build(o.output) }) === obs, "setTraceIO does not return the observation");
        const i = enc(build(o.input)), u = enc(build(o.output));
        if (i !== undefined) want["langfuse.trace.input"] = i;
        if (u !== undefined) want["langfuse.trace.output"] = u;
      } else if (o.t === "public") {
        ensure(obs.setTraceAsPublic() === obs, "setTraceAsPublic does not return the observation");
        want["langfuse.trace.public"] = true;
      } else {
        if (o.t === "updateActive") updateActiveObservation(mk(o.a));
        else if (o.t === "updateActiveTyped") updateActiveObservation(mk(o.a), { asType: (o.as ?? c.type) as any });
        else if (o.t === "activeTraceIO") setActiveTraceIO({ input: build(o.input), output: build(o.output) });
        else setActiveTraceAsPublic();
        if (!active) continue; // nothing is active: must be a no-op
        if (o.t === "updateActive") Object.assign(want, refAttrs(undefined, o.a));
        else if (o.t === "updateActiveTyped") Object.assign(want, refAttrs(o.as ?? c.type, o.a));
        else if (o.t === "activeTraceIO") {
          const i = enc(build(o.input)), u = enc(build(o.output));
          if (i !== undefined) want["langfuse.trace.input"] = i;
          if (u !== undefined) want["langfuse.trace.output"] = u;
        } else want["langfuse.trace.public"] = true;
      }
    }
  };
  const settle = () => {
    for (const [o, before] of given) {
      same(shape(o), before, "caller's attribute object after the call");
      for (const k of ["input", "output", "metadata", "modelParameters", "usageDetails", "costDetails"]) reuse(o[k]);
    }
    given.length = 0;
  };
  await isolated(async () => {
    if (c.how === "observe") {
      Object.assign(want, refAttrs(c.type, {}));
      const f = c.fn;
      const fresh = () => f.args.map(build);
      if (f.captureInput !== false && f.args.length > 0) {
        const e = enc(f.args.length === 1 ? fresh()[0] : fresh());
        if (e !== undefined) want["langfuse.observation.input"] = e;
      }
      const args = fresh();
      const work = (...got: any[]) => {
        id = getActiveSpanId()!;
        for (const a of got) reuse(a);
        body({ id, update: () => 0 }, true);
        settle();
        return build(f.result);
      };
      const wrapped: any = observe(f.async ? async (...got: any[]) => work(...got) : work, { name: "obs", asType: c.type as any, captureInput: f.captureInput, captureOutput: f.captureOutput });
      const out = wrapped(...args);
      const value = f.async ? await out : out;
      if (f.captureOutput !== false && !isEvent) {
        const e = enc(build(f.result));
        if (e !== undefined) want["langfuse.observation.output"] = e;
        want["langfuse.observation.type"] = c.type;
      }
      reuse(value);
    } else if (c.how === "active") {
      Object.assign(want, refAttrs(c.type, {}));
      startActiveObservation("obs", (obs: any) => {
        if (!isEvent && c.create) {
          obs.update(mk(c.create));
          Object.assign(want, refAttrs(c.type, c.create));
        }
        body(obs, true);
        settle();
      }, { asType: c.type as any });
    } else {
      const parent = c.how === "child" ? startObservation("parent") : undefined;
      const a = c.create === null ? undefined : mk(c.create);
      Object.assign(want, refAttrs(c.type, c.create ?? {}));
      const obs: any = parent ? parent.startObservation("obs", a, { asType: c.type as any }) : startObservation("obs", a, { asType: c.type as any });
      same(obs.type, c.type, "reported type");
      body(obs, false);
      settle();
      obs.end();
      parent?.end();
    }
  });
  await processor.forceFlush();
  const span = exporter.spans.find((s) => s.spanId === id);
  ensure(span, "observation was not exported");
  const got = { ...span!.attributes };
  delete got["langfuse.internal.is_app_root"];
  for (const k of new Set([...Object.keys(got), ...Object.keys(want)]))
    ensure(deepEqual(got[k], want[k]), () => `attribute ${show(k)}: expected ${show(want[k])}, recorded ${show(got[k])}`);
  return { nontrivial: Object.keys(want).length >= 4 && (isEvent || c.ops.length > 0), labels: [c.type, "how:" + c.how, Object.values(want).includes(MARK) && "unserialisable"] };
}

main({
  subs: [
    {
      name: "observations",
      arb: fc.record({ type: fc.constantFrom(...TYPES), how: fc.constantFrom("root" as const, "child" as const, "active" as const, "observe" as const), fn: fc.record({ args: fc.array(vArb, { maxLength: 3 }), result: vArb, async: fc.boolean(), captureInput: opt(fc.boolean()), captureOutput: opt(fc.boolean()) }), create: fc.option(attrsArb, { nil: null }), ops: fc.array(opArb, { maxLength: 5 }) }),
      run,
      quick: 10_000,
      thorough: 300_000,
      rule: "one observation of any type created directly, as a child, as the active one or by the decorator, with arbitrary attributes and up to five updates, the caller's objects changed after each call; non-trivial = at least four recorded attributes and, unless an event, an update",
    },
  ],
  assumptions: ["top-level metadata is a plain object without throwing accessors, or a primitive/array", "fewer attributes than OpenTelemetry's own per-span limit"],
});
