import fc from "fast-check";
import { main, ensure, same, deepEqual, show } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, trace, context } from "../lib/otel";
import { anyString, jsonObject, jsonValue, opt, token } from "../lib/arbs";
import { LangfuseClient } from "@langfuse/client";
import { startActiveObservation, startObservation } from "@langfuse/tracing";

const body = fc.record(
  {
    name: anyString,
    value: fc.oneof(fc.double({ noNaN: true, noDefaultInfinity: true }).map((x) => (Object.is(x, -0) ? 0 : x)), fc.constantFrom(0, 1, -1, 1e-9), anyString),
    id: fc.oneof({ weight: 9, arbitrary: token }, { weight: 1, arbitrary: fc.constant("") }),
    comment: opt(anyString),
    metadata: jsonValue(2),
    dataType: fc.constantFrom("NUMERIC", "CATEGORICAL", "BOOLEAN", "TEXT"),
    configId: token,
    queueId: token,
    environment: fc.oneof({ weight: 9, arbitrary: token }, { weight: 1, arbitrary: fc.constant("") }),
  },
  { requiredKeys: ["name", "value"] },
);
// values a caller may leave in the data by mistake; the target of the call decides
const stray = fc.option(fc.record({ traceId: token, observationId: token }, { requiredKeys: [] }), { nil: undefined, freq: 3 });
const target = fc.record({ traceId: token, sessionId: token, observationId: token, datasetRunId: token }, { requiredKeys: [] });

type Node =
  | { k: "create"; body: any; target: any }
  | { k: "active"; which: "activeObservation" | "activeTrace"; body: any; stray?: any }
  | { k: "obj"; which: "observation" | "trace"; up: number; body: any; stray?: any }
  | { k: "sleep"; ms: number }
  | { k: "span"; active: boolean; how: "plain" | "remote" | "otel" | "ended"; type: string; kids: Node[] }
  | { k: "par"; kids: Node[] };

const nodeArb: fc.Arbitrary<Node> = fc.letrec<any>((tie) => ({
  node: fc.oneof(
    { depthSize: "small", maxDepth: 4 },
    { weight: 2, arbitrary: fc.record({ k: fc.constant("create"), body, target }) },
    { weight: 3, arbitrary: fc.record({ k: fc.constant("active"), which: fc.constantFrom("activeObservation", "activeTrace"), body, stray }) },
    { weight: 3, arbitrary: fc.record({ k: fc.constant("obj"), which: fc.constantFrom("observation", "trace"), up: fc.nat(3), body, stray }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant("sleep"), ms: fc.integer({ min: 1, max: 5 }) }) },
    { weight: 4, arbitrary: fc.record({ k: fc.constant("span"), active: fc.boolean(), how: fc.constantFrom("plain", "plain", "remote", "otel", "ended"), type: fc.constantFrom("span", "generation", "tool", "agent", "event"), kids: fc.array(tie("node"), { maxLength: 5 }) }) },
    { weight: 3, arbitrary: fc.record({ k: fc.constant("par"), kids: fc.array(tie("node"), { minLength: 2, maxLength: 4 }) }) },
  ),
})).node;

async function run(c: { prog: Node[]; env?: string; tracing: boolean }) {
  const clock = useClock();
  if (c.env) process.env.LANGFUSE_TRACING_ENVIRONMENT = c.env;
  const events: any[] = [];
  new FakeNet((req) => {
    for (const e of req.json?.batch ?? []) events.push(e);
    return { status: 207, json: { successes: [], errors: [] } };
  }).install();
  if (c.tracing) makeTracing();
  const lf = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const expected: { body: any; at: number; customId: boolean }[] = [];
  let spans = 0;
  let noActive = 0;
  // `cur` is the lexically active observation, `stack` all enclosing observations (innermost last)
  async function exec(n: Node, cur: any, stack: any[]): Promise<void> {
    const expect = (b: any, t: any) =>
      expected.push({
        body: JSON.parse(JSON.stringify({ ...b, environment: b.environment ?? c.env, ...t })),
        at: clock.now,
        customId: b.id !== undefined,
      });
    const frozen = (b: any) => JSON.stringify(b);
    const strayed = (m: any) => ({ ...m.body, ...(m.stray?.traceId ? { traceId: m.stray.traceId } : {}), ...(m.stray?.observationId && /bservation$/.test(m.which) ? { observationId: m.stray.observationId } : {}) });
    switch (n.k) {
      case "sleep":
        return clock.sleep(n.ms);
      case "par":
        await Promise.all(n.kids.map((k) => exec(k, cur, stack)));
        return;
      case "span": {
        spans++;
        // an observation continuing a remote trace, a plain OpenTelemetry span, or one scored after its end
        const opts: any = { asType: n.type, ...(n.how === "remote" ? { parentSpanContext: { traceId: "ab".repeat(15) + String(10 + (spans % 80)), spanId: "cd".repeat(8), traceFlags: 1, isRemote: true } } : {}) };
        if (n.how === "otel") {
          const otelSpan = trace.getTracer("third-party").startSpan("o" + spans);
          const obs = { otelSpan };
          const kids = async () => { for (const k of n.kids) await exec(k, n.active ? obs : cur, [...stack, obs]); };
          if (n.active) await context.with(trace.setSpan(context.active(), otelSpan), kids);
          else await kids();
          otelSpan.end();
          return;
        }
        if (n.active && n.type !== "event")
          return startActiveObservation("s" + spans, async (obs: any) => {
            if (n.how === "ended") obs.end();
            for (const k of n.kids) await exec(k, obs, [...stack, obs]);
          }, opts);
        const obs: any = startObservation("m" + spans, {}, opts);
        if (n.how === "ended") obs.end();
        for (const k of n.kids) await exec(k, cur, [...stack, obs]);
        if (n.how !== "ended") obs.end();
        return;
      }
      case "create": {
        const data = { ...n.body, ...n.target };
        const before = frozen(data);
        expect(n.body, n.target);
        lf.score.create(data);
        same(frozen(data), before, "score data after the call");
        return;
      }
      case "obj": {
        const obs = stack[stack.length - 1 - Math.min(n.up, stack.length - 1)];
        if (!obs) return;
        const sc = obs.otelSpan.spanContext();
        expect(n.body, n.which === "observation" ? { traceId: sc.traceId, observationId: sc.spanId } : { traceId: sc.traceId });
        const data = strayed(n);
        const before = frozen(data);
        (lf.score as any)[n.which](obs, data);
        same(frozen(data), before, "score data after the call");
        return;
      }
      case "active": {
        if (cur) {
          const sc = cur.otelSpan.spanContext();
          expect(n.body, n.which === "activeObservation" ? { traceId: sc.traceId, observationId: sc.spanId } : { traceId: sc.traceId });
        } else noActive++;
        const data = strayed(n);
        const before = frozen(data);
        (lf.score as any)[n.which](data);
        same(frozen(data), before, "score data after the call");
        return;
      }
    }
  }
  await clock.drive(Promise.all(c.prog.map((n) => exec(n, undefined, []))));
  await clock.drive(lf.flush());
  same(events.length, expected.length, "number of score events");
  const ids = new Set(events.map((e) => e.id));
  same(ids.size, events.length, "number of distinct event ids");
  const gen = events.map((e, i) => (expected[i].customId ? null : e.body.id)).filter((x) => x !== null);
  same(new Set(gen).size, gen.length, "number of distinct generated score ids");
  events.forEach((e, i) => {
    const x = expected[i];
    ensure(e.type === "score-create", "event type");
    ensure(typeof e.id === "string" && e.id.length >= 16, `event id ${show(e.id)}`);
    ensure(typeof e.body.id === "string" && (x.customId || e.body.id.length >= 16), `score id ${show(e.body.id)}`);
    const want = x.customId ? x.body : { ...x.body, id: e.body.id };
    ensure(deepEqual(e.body, want), () => `score body: expected ${show(want)} got ${show(e.body)}`);
    const ts = Date.parse(e.timestamp);
    ensure(ts >= x.at && ts <= clock.now, () => `score timestamp ${e.timestamp} is not the time of the call`);
  });
  return { nontrivial: expected.length >= 2 && spans >= 1, labels: [noActive > 0 && "no active span", spans > 1 && "several spans", !!c.env && "environment variable set", !c.tracing && "no tracing provider"] };
}

async function unique(c: { n: number; ms: number }) {
  const clock = useClock();
  process.env.LANGFUSE_FLUSH_AT = "100";
  const ids = new Set<string>();
  let n = 0;
  new FakeNet((req) => {
    for (const e of req.json?.batch ?? []) {
      n++;
      ids.add(e.id);
      ids.add(e.body.id);
    }
    return { status: 207, json: { successes: [], errors: [] } };
  }).install();
  const lf = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  for (let i = 0; i < c.n; i++) {
    lf.score.create({ name: "s", value: i, traceId: "t" });
    if (c.ms && i % 1000 === 999) await clock.advance(c.ms);
  }
  await clock.drive(lf.flush());
  same(n, c.n, "scores sent");
  same(ids.size, 2 * c.n, "distinct event and score ids");
  return { nontrivial: c.n > 1000 };
}

main({
  subs: [
    { name: "unique", arb: fc.record({ n: fc.integer({ min: 1500, max: 12_000 }), ms: fc.constantFrom(0, 1, 1000) }), run: unique, quick: 6, thorough: 60, rule: "thousands of scores without ids created at nearly the same time; non-trivial = more than 1000" },
    {
      name: "programs",
      arb: fc.record({ prog: fc.array(nodeArb, { minLength: 1, maxLength: 4 }), env: opt(token), tracing: fc.constantFrom(true, true, true, true, false) }),
      run,
      quick: 8000,
      thorough: 100_000,
      rule: "random nested/concurrent observation programs that score explicit, object and active targets with arbitrary bodies; non-trivial = at least two scores and one observation",
    },
  ],
});
