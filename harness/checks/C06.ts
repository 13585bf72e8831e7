import fc from "fast-check";
import { main, ensure, same, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated, trace, context, propagation, ROOT_CONTEXT } from "../lib/otel";
import { anyString, key, aroundLength } from "../lib/arbs";
import { startObservation, startActiveObservation, propagateAttributes } from "@langfuse/tracing";

type V = { k: string; v?: any };
const odd = fc.constantFrom("num", "zero", "nan", "true", "false", "null", "undefined", "obj", "arr", "fn", "sym", "big", "strObj", "date").map((k): V => ({ k }));
const text = (n: number) =>
  fc.oneof(
    { weight: 3, arbitrary: anyString },
    { weight: 3, arbitrary: aroundLength(n) },
    { weight: 1, arbitrary: aroundLength(n, "é") },
    { weight: 1, arbitrary: aroundLength(Math.floor(n / 2), "😀") },
  ).map((v): V => ({ k: "s", v }));
const val = (n = 200) => fc.oneof({ weight: 3, arbitrary: text(n) }, { weight: 2, arbitrary: odd });
function build(d: V): any {
  switch (d.k) {
    case "s": return d.v;
    case "num": return 42;
    case "zero": return 0;
    case "nan": return NaN;
    case "true": return true;
    case "false": return false;
    case "null": return null;
    case "undefined": return undefined;
    case "obj": return { a: 1 };
    case "arr": return ["x"];
    case "fn": return () => "x";
    case "sym": return Symbol("x");
    case "big": return 10n;
    case "strObj": return Object("boxed");
    case "date": return new Date(0);
  }
}
const envStr = fc.oneof(
  fc.constantFrom("prod", "langfuse", "langfuse-x", "langfus", "xlangfuse", "Prod", "pro d", "prod\n", "\nprod", "prod.eu", "ü", "", "-", "_", "0", "langfuse_", "lang-fuse", "LANGFUSE", "prod\nlangfuse", "a/b", "sdk-experiment"),
  aroundLength(40), aroundLength(40, "-"), fc.stringMatching(/^[a-z0-9_-]{1,41}$/), anyString,
).map((v): V => ({ k: "s", v }));
const promptArb = fc.oneof(
  { weight: 6, arbitrary: fc.record({ name: fc.oneof(anyString.map((v): V => ({ k: "s", v })), aroundLength(200).map((v): V => ({ k: "s", v })), odd), version: fc.oneof(fc.constantFrom<any>(0, 1, 7, 1e6, 1.5, NaN, Infinity, "1", "12", "007", "1.5", " 1", "1 ", "1\n", "-1", "0x10", "1e3", "", "v1", "9".repeat(400), "９"), odd.map((o) => o)), isFallback: fc.constantFrom<any>(undefined, false, true) }) },
  { weight: 1, arbitrary: fc.constantFrom<any>("str", 5, null, undefined, "", [] as any) },
);
const caseArb = fc.record({
  outer: fc.boolean(),
  active: fc.boolean(),
  asBaggage: fc.boolean(),
  p: fc.record({
    userId: val(), sessionId: val(), version: val(), traceName: val(),
    environment: fc.oneof({ weight: 4, arbitrary: envStr }, { weight: 1, arbitrary: odd }),
    tags: fc.option(fc.array(val(), { maxLength: 5 }), { nil: undefined }),
    metadata: fc.option(fc.dictionary(key, val(), { maxKeys: 5, noNullPrototype: true }), { nil: undefined }),
    prompt: promptArb,
  }, { requiredKeys: [] }),
  incomingEnv: fc.option(envStr, { nil: undefined }),
});
type Case = typeof caseArb extends fc.Arbitrary<infer T> ? T : never;
const okStr = (v: any) => typeof v === "string" && v.length <= 200;
const okEnv = (v: any) => typeof v === "string" && v.length >= 1 && v.length <= 40 && [...v].every((ch) => "abcdefghijklmnopqrstuvwxyz0123456789_-".includes(ch)) && v.slice(0, 8) !== "langfuse";
const RELEVANT = /^(user\.id|session\.id|langfuse\.(version|environment|trace\..*|observation\.prompt\..*))$/s;

async function run(c: Case) {
  const clock = useClock();
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  const d: any = c.p;
  const p: any = {};
  for (const k of ["userId", "sessionId", "version", "traceName", "environment"]) if (k in d) p[k] = build(d[k]);
  if (d.tags) p.tags = d.tags.map(build);
  if (d.metadata) p.metadata = Object.fromEntries(Object.entries(d.metadata).map(([k, v]) => [k, build(v as V)]));
  if ("prompt" in d) p.prompt = d.prompt && typeof d.prompt === "object" && !Array.isArray(d.prompt) ? { name: build(d.prompt.name), version: d.prompt.version && typeof d.prompt.version === "object" ? build(d.prompt.version) : d.prompt.version, ...(d.prompt.isFallback === undefined ? {} : { isFallback: d.prompt.isFallback }) } : d.prompt;
  if (c.asBaggage) p.asBaggage = true;
  const base: Record<string, any> = c.outer ? { "user.id": "outer-u", "langfuse.environment": "outer-env", "langfuse.trace.tags": ["t0"], "langfuse.trace.metadata.m0": "v0", "langfuse.observation.prompt.name": "op", "langfuse.observation.prompt.version": 3 } : {};
  const want: Record<string, any> = { ...base };
  let dropped = 0;
  const set = (k: string, v: any, ok: boolean) => {
    if (ok) want[k] = v;
    else if (v) dropped++;
  };
  if (c.incomingEnv && okEnv(c.incomingEnv.v) && !c.outer) want["langfuse.environment"] = c.incomingEnv.v;
  set("user.id", p.userId, okStr(p.userId) && p.userId !== "");
  set("session.id", p.sessionId, okStr(p.sessionId) && p.sessionId !== "");
  set("langfuse.version", p.version, okStr(p.version) && p.version !== "");
  set("langfuse.trace.name", p.traceName, okStr(p.traceName) && p.traceName !== "");
  set("langfuse.environment", p.environment, okEnv(p.environment));
  const good = (p.tags ?? []).filter(okStr);
  dropped += (p.tags ?? []).length - good.length;
  if (good.length) want["langfuse.trace.tags"] = c.outer ? [...new Set(["t0", ...good])] : good;
  for (const [k, v] of Object.entries(p.metadata ?? {})) set("langfuse.trace.metadata." + k, v, okStr(v));
  if (p.prompt && typeof p.prompt === "object") {
    const { name, version, isFallback } = p.prompt;
    const num = typeof version === "number" ? version : typeof version === "string" && version.length > 0 && [...version].every((x) => x >= "0" && x <= "9") ? Number(version) : NaN;
    if (!isFallback && typeof name === "string" && name.length > 0 && Number.isInteger(num)) {
      want["langfuse.observation.prompt.name"] = name;
      want["langfuse.observation.prompt.version"] = num;
    } else dropped++;
  }
  let called = 0;
  const token = {};
  const go = () => {
    const inner = () => {
      const r = propagateAttributes(p, () => {
        called++;
        startObservation("inner").end();
        trace.getTracer("ai").startSpan("foreign").end();
        return token;
      });
      ensure(r === token, "callback result passed through");
    };
    if (c.active) startActiveObservation("act", inner);
    else inner();
  };
  const withOuter = () => (c.outer ? propagateAttributes({ userId: "outer-u", environment: "outer-env", tags: ["t0"], metadata: { m0: "v0" }, prompt: { name: "op", version: 3 } }, go) : go());
  isolated(() => {
    const ctx = c.incomingEnv ? propagation.setBaggage(ROOT_CONTEXT, propagation.createBaggage({ langfuse_environment: { value: c.incomingEnv.v } })) : ROOT_CONTEXT;
    context.with(ctx, withOuter);
  });
  same(called, 1, "number of times the callback ran");
  await clock.drive(processor.forceFlush());
  for (const name of ["inner", "foreign", ...(c.active ? ["act"] : [])]) {
    const e = exporter.spans.find((x) => x.name === name);
    ensure(e, `span ${name} not exported`);
    const got = Object.fromEntries(Object.entries(e!.attributes).filter(([k]) => RELEVANT.test(k)));
    for (const k of new Set([...Object.keys(want), ...Object.keys(got)]))
      ensure(deepEqual(got[k], want[k]), () => `span ${name}: ${k} should be ${show(want[k])} but is ${show(got[k])} for ${show(p)}`);
  }
  return { nontrivial: dropped > 0 && Object.keys(want).length > 0, labels: [dropped > 0 && "invalid value", c.asBaggage && "baggage", c.outer && "nested"] };
}
main({
  subs: [{ name: "validation", arb: caseArb, run, quick: 15_000, thorough: 400_000, rule: "one propagation call with arbitrary valid and invalid values of every field, optionally inside a valid outer scope or active span; non-trivial = at least one dropped and one kept value", minNontrivial: 0.3 }],
  assumptions: ["tags, when given, are an array and metadata a plain object (as typed); their contents are arbitrary"],
});
