import fc from "fast-check";
import { main, ensure, same, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated, trace, context } from "../lib/otel";
import { anyString, key, ident } from "../lib/arbs";
import { startObservation, startActiveObservation, propagateAttributes, observe } from "@langfuse/tracing";

const str = anyString.filter((s) => s.length > 0 && s.length <= 200);
const scopeParams = fc.record(
  {
    userId: str,
    sessionId: str,
    version: str,
    traceName: str,
    environment: fc.stringMatching(/^[a-km-z0-9_-][a-z0-9_-]{0,20}$/),
    tags: fc.oneof({ weight: 12, arbitrary: fc.uniqueArray(str, { maxLength: 3 }) }, { weight: 1, arbitrary: fc.tuple(str, str).map(([a, b]) => [a, b, a, b]) }, { weight: 1, arbitrary: fc.integer({ min: 5, max: 60 }).map((n) => Array.from({ length: n }, (_, i) => "tag" + i)) }),
    metadata: fc.dictionary(fc.oneof(key, fc.constantFrom("a", "b")), fc.oneof(str, fc.constant("")), { maxKeys: 3, noNullPrototype: true }),
    prompt: fc.record({ name: str, version: fc.oneof(fc.nat(99), fc.nat(99).map(String)) }),
    asBaggage: fc.boolean(),
  },
  { requiredKeys: [] },
).map((p: any) => {
  // entries that survive the baggage text format are C07's subject; here baggage only must not disturb local spans
  return p;
});
type Node = any;
const { nodes } = fc.letrec<{ nodes: Node[]; node: Node }>((tie) => ({
  nodes: fc.array(tie("node"), { minLength: 1, maxLength: 4, depthIdentifier: "n" }),
  node: fc.oneof(
    { maxDepth: 5, depthIdentifier: "n", withCrossShrink: true },
    { weight: 3, arbitrary: fc.record({ t: fc.constant("span"), kind: fc.constantFrom("sdk", "foreign", "event", "observe"), under: fc.option(fc.nat(20), { nil: undefined, freq: 3 }), how: fc.constantFrom("parent", "child", "remote"), prompt: fc.option(fc.record({ name: str, version: fc.nat(9) }), { nil: undefined, freq: 3 }), endNow: fc.boolean() }) },
    { weight: 1, arbitrary: fc.record({ t: fc.constant("sleep"), ms: fc.constantFrom(1, 2, 5, 20) }) },
    { weight: 4, arbitrary: fc.record({ t: fc.constant("scope"), p: scopeParams, mode: fc.constantFrom("sync", "async", "asyncThrow", "syncThrow", "nonfn"), body: tie("nodes") }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant("active"), foreign: fc.boolean(), under: fc.option(fc.nat(20), { nil: undefined, freq: 5 }), body: tie("nodes"), endEarly: fc.boolean() }) },
    { weight: 1, arbitrary: fc.record({ t: fc.constant("adopt"), of: fc.nat(20), body: tie("nodes") }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant("par"), branches: fc.array(tie("nodes"), { minLength: 2, maxLength: 3, depthIdentifier: "n" }) }) },
    { weight: 1, arbitrary: fc.record({ t: fc.constant("detach"), ms: fc.constantFrom(1, 3, 50), body: tie("nodes") }) },
  ),
}));
const caseArb = fc.record({ env: fc.constantFrom(undefined, "prod"), body: nodes });

interface St { sc: Record<string, any>; tags?: string[]; meta: Record<string, string> }
interface Rec { span: any; want: Record<string, any>; ended: boolean; name: string; obs?: any }

const KEYS: Record<string, string> = { userId: "user.id", sessionId: "session.id", version: "langfuse.version", traceName: "langfuse.trace.name", environment: "langfuse.environment" };
const RELEVANT = (k: string) => Object.values(KEYS).includes(k) || k === "langfuse.trace.tags" || k.startsWith("langfuse.trace.metadata") || k.startsWith("langfuse.observation.prompt.");

async function run(c: { env?: string; body: Node[] }) {
  const clock = useClock();
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false, environment: c.env });
  const recs: Rec[] = [];
  const detached: Promise<any>[] = [];
  let n = 0, explicitParents = 0, inScope = 0, concurrent = 0, maxDepth = 0;
  const enter = (st: St, p: any): St => {
    const sc = { ...st.sc };
    for (const k of Object.keys(KEYS)) if (p[k] !== undefined) sc[KEYS[k]] = p[k];
    if (p.prompt) {
      sc["langfuse.observation.prompt.name"] = p.prompt.name;
      sc["langfuse.observation.prompt.version"] = Number(p.prompt.version);
    }
    return {
      sc,
      tags: p.tags?.length ? [...new Set([...(st.tags ?? []), ...p.tags])] : st.tags,
      meta: p.metadata ? { ...st.meta, ...p.metadata } : st.meta,
    };
  };
  const attrsOf = (st: St): Record<string, any> => ({
    ...st.sc,
    ...(st.tags ? { "langfuse.trace.tags": st.tags } : {}),
    ...Object.fromEntries(Object.entries(st.meta).map(([k, v]) => ["langfuse.trace.metadata." + k, v])),
  });
  const record = (span: any, st: St, explicit?: any): Rec => {
    const want: Record<string, any> = { ...(c.env ? { "langfuse.environment": c.env } : {}), ...attrsOf(st) };
    if (explicit) {
      want["langfuse.observation.prompt.name"] = explicit.name;
      want["langfuse.observation.prompt.version"] = explicit.version;
    }
    if (Object.keys(attrsOf(st)).length) inScope++;
    const r: Rec = { span, want, ended: false, name: span.name };
    recs.push(r);
    return r;
  };
  const exec = async (body: Node[], st: St, active: Rec | undefined, depth: number): Promise<void> => {
    maxDepth = Math.max(maxDepth, depth);
    for (const nd of body) {
      if (nd.t === "sleep") await clock.sleep(nd.ms);
      else if (nd.t === "span") {
        const name = "s" + n++;
        // an explicitly chosen parent does not take the observation out of the scope it is started in
        const opts: any = {};
        if (nd.under !== undefined) {
          if (nd.how === "remote") opts.parentSpanContext = { traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: 1, isRemote: true };
          else if (recs.length) opts.parentSpanContext = recs[nd.under % recs.length].span.spanContext();
        }
        const withObs = recs.filter((r) => r.obs);
        const creator = nd.under !== undefined && nd.how === "child" && withObs.length ? withObs[nd.under % withObs.length].obs : undefined;
        if (opts.parentSpanContext || creator) explicitParents++;
        if (nd.kind === "observe") {
          let rec!: Rec;
          observe(() => { rec = record(trace.getActiveSpan(), st); }, { name, ...opts })();
          rec.ended = true;
        } else if (nd.kind === "foreign") {
          const sp: any = trace.getTracer("ai").startSpan(name, nd.prompt ? { attributes: { "langfuse.observation.prompt.name": nd.prompt.name, "langfuse.observation.prompt.version": nd.prompt.version } } : {});
          const rec = record(sp, st, nd.prompt);
          if (nd.endNow) { sp.end(); rec.ended = true; }
        } else {
          const start: any = creator ? creator.startObservation.bind(creator) : startObservation;
          const o: any = start(name, nd.prompt && nd.kind === "sdk" ? { prompt: { ...nd.prompt, isFallback: false } } as any : {}, { asType: (nd.kind === "event" ? "event" : nd.prompt ? "generation" : "span") as any, ...(creator ? {} : opts) });
          const rec = record(o.otelSpan, st, nd.kind === "sdk" ? nd.prompt : undefined);
          rec.obs = o;
          if (nd.endNow) { o.end(); rec.ended = true; }
          if (nd.kind === "event") rec.ended = true;
        }
      } else if (nd.t === "scope") {
        const p = structuredClone(nd.p);
        // whether duplicates within the very first list of tags are kept is left open
        if (p.tags && !st.tags) p.tags = [...new Set(p.tags)];
        const before = show(p);
        const inner = enter(st, p);
        if (active?.span.isRecording()) {
          // the observation that is active when a scope is opened receives the scope's values as well
          const add: any = {};
          const ia = attrsOf(inner);
          for (const k of Object.keys(KEYS)) if (p[k] !== undefined) add[KEYS[k]] = p[k];
          if (p.prompt) { add["langfuse.observation.prompt.name"] = p.prompt.name; add["langfuse.observation.prompt.version"] = Number(p.prompt.version); }
          if (p.tags?.length) add["langfuse.trace.tags"] = inner.tags;
          if (p.metadata && Object.keys(p.metadata).length) for (const k of Object.keys(inner.meta)) add["langfuse.trace.metadata." + k] = ia["langfuse.trace.metadata." + k];
          Object.assign(active.want, add);
        }
        const token = { token: n };
        const err = new Error("scope error");
        if (nd.mode === "async" || nd.mode === "asyncThrow" || nd.mode === "nonfn") {
          let inside!: Promise<any>;
          const ret = propagateAttributes(p, () => {
            inside = exec(nd.body, inner, active, depth + 1).then(() => {
              if (nd.mode === "asyncThrow") throw err;
              return token;
            });
            return inside;
          });
          ensure(ret === inside, "propagateAttributes did not return the callback's own promise");
          const r = await (ret as Promise<any>).then((v) => ({ v }), (e) => ({ e }));
          if (nd.mode === "asyncThrow") ensure((r as any).e === err, () => "rejection not passed through: " + show(r));
          else ensure((r as any).v === token, "result not passed through");
        } else {
          // synchronous scope: the body continues after the scope has returned, in the scope's async context
          let r: any;
          try {
            r = { v: propagateAttributes(p, () => {
              detached.push(exec(nd.body, inner, active, depth + 1));
              if (nd.mode === "syncThrow") throw err;
              return token;
            }) };
          } catch (e) {
            r = { e };
          }
          if (nd.mode === "syncThrow") ensure(r.e === err, () => "thrown error not passed through: " + show(r));
          else ensure(r.v === token, "result not passed through synchronously");
        }
        same(show(p), before, "caller's parameters after the call");
      } else if (nd.t === "active") {
        const name = "s" + n++;
        if (nd.foreign) {
          await trace.getTracer("ai").startActiveSpan(name, async (sp: any) => {
            const rec = record(sp, st);
            if (nd.endEarly) { sp.end(); rec.ended = true; }
            await exec(nd.body, st, rec, depth + 1);
            sp.end();
            rec.ended = true;
          });
        } else {
          let rec!: Rec;
          await startActiveObservation(name, async (o: any) => {
            rec = record(o.otelSpan, st);
            rec.obs = o;
            if (nd.endEarly) { o.end(); rec.ended = true; }
            await exec(nd.body, st, rec, depth + 1);
          }, nd.under !== undefined && recs.length ? { parentSpanContext: recs[nd.under % recs.length].span.spanContext() } : undefined);
          rec.ended = true;
        }
      } else if (nd.t === "adopt") {
        // make an observation that was started elsewhere (perhaps outside every scope) the active one
        const open = recs.filter((r) => r.span.isRecording());
        if (!open.length) continue;
        const rec = open[nd.of % open.length];
        await context.with(trace.setSpan(context.active(), rec.span), () => exec(nd.body, st, rec, depth + 1));
      } else if (nd.t === "par") {
        concurrent++;
        await Promise.all(nd.branches.map((b: Node[]) => exec(b, st, active, depth + 1)));
      } else if (nd.t === "detach") {
        detached.push(new Promise<void>((res, rej) => setTimeout(() => exec(nd.body, st, active, depth + 1).then(res, rej), nd.ms)));
      }
    }
  };
  await clock.drive(isolated(() => exec(c.body, { sc: {}, meta: {} }, undefined, 0)), { what: "program" });
  for (let i = 0; i < detached.length; i++) await clock.drive(detached[i], { what: "detached work" });
  for (const r of recs) r.span.end();
  await clock.drive(processor.forceFlush());
  for (const r of recs) {
    const e = exporter.spans.find((x) => x.spanId === r.span.spanContext().spanId);
    ensure(e, `span ${r.name} was not exported`);
    const got = Object.fromEntries(Object.entries(e!.attributes).filter(([k]) => RELEVANT(k)));
    ensure(deepEqual(got, r.want), () => `span ${r.name}: expected propagated attributes ${show(r.want)}, got ${show(got)}`);
  }
  return { nontrivial: inScope >= 1 && recs.length >= 2 && maxDepth >= 1, labels: [explicitParents > 0 && "explicit parents", concurrent > 0 && "concurrent", detached.length > 0 && "detached continuation", maxDepth >= 3 && "deep nesting"] };
}
main({
  subs: [{ name: "programs", arb: caseArb, run, quick: 16000, thorough: 250_000, rule: "program of nested/concurrent/detached scopes and spans; non-trivial = at least two spans of which one inside a scope", minNontrivial: 0.3 }],
  assumptions: ["a context manager that follows asynchronous continuations (as in Node) is installed", "values valid per C06; metadata keys other than __proto__"],
});
