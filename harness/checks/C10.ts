import fc from "fast-check";
import { main, ensure, same, show, deepEqual } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated, trace, context } from "../lib/otel";
import { anyString } from "../lib/arbs";
import { TYPES } from "../lib/values";
import { startObservation, startActiveObservation, observe, updateActiveObservation, setActiveTraceIO, getActiveSpanId, getActiveTraceId } from "@langfuse/tracing";

const nameArb = fc.oneof(fc.constantFrom("a", "b", "step"), anyString.filter((s) => s.length > 0));
const when = fc.option(fc.oneof({ weight: 5, arbitrary: fc.integer({ min: -10_000, max: 10_000 }).map((d) => ({ d })) }, { weight: 1, arbitrary: fc.constantFrom(0, 1, -1000, -86_400_000, 999, 4_102_444_800_000).map((at) => ({ at })) }), { nil: undefined, freq: 3 });
const resolve = (w: any, now: number) => new Date("at" in w ? w.at : now + w.d);
const { nodes } = fc.letrec<any>((tie) => ({
  nodes: fc.array(tie("node"), { minLength: 1, maxLength: 4, depthIdentifier: "n" }),
  node: fc.oneof(
    { maxDepth: 5, depthIdentifier: "n", withCrossShrink: true },
    { weight: 4, arbitrary: fc.record({ t: fc.constant("start"), type: fc.constantFrom(undefined, ...TYPES), name: nameArb, startAt: when, parent: fc.option(fc.nat(20), { nil: undefined, freq: 4 }), remote: fc.nat(9).map((x) => (x === 0 ? 1 : x === 1 ? 2 : 0)), end: fc.constantFrom("now", "late", "at"), endForm: fc.constantFrom("date", "ms", "hr"), endAt: fc.oneof(fc.nat(5000), fc.constantFrom(0, 1)) }) },
    { weight: 3, arbitrary: fc.record({ t: fc.constant("child"), of: fc.nat(20), type: fc.constantFrom(undefined, ...TYPES), name: nameArb, end: fc.constantFrom("now", "late") }) },
    { weight: 1, arbitrary: fc.record({ t: fc.constant("sleep"), ms: fc.constantFrom(1, 2, 5, 20) }) },
    { weight: 1, arbitrary: fc.record({ t: fc.constant("update"), as: fc.option(fc.constantFrom(...TYPES), { nil: undefined, freq: 2 }) }) },
    { weight: 4, arbitrary: fc.record({ t: fc.constant("active"), how: fc.constantFrom("active", "observe", "foreign", "manual"), type: fc.constantFrom(undefined, ...TYPES), name: nameArb, startAt: when, parent: fc.option(fc.nat(20), { nil: undefined, freq: 6 }), sync: fc.boolean(), native: fc.boolean(), body: tie("nodes") }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant("par"), branches: fc.array(tie("nodes"), { minLength: 2, maxLength: 3, depthIdentifier: "n" }) }) },
    { weight: 1, arbitrary: fc.record({ t: fc.constant("detach"), ms: fc.constantFrom(1, 3, 50), body: tie("nodes") }) },
  ),
}));
interface R { span: any; obs?: any; name: string; type?: string; parent?: { traceId: string; spanId: string }; startMs?: number; endMs?: number; updates: string[]; ended: boolean; seq: number; sampled: boolean }

async function run(body: any[]) {
  const clock = useClock();
  const { exporter, processor } = makeTracing({ mediaUploadEnabled: false });
  const recs: R[] = [];
  const detached: Promise<any>[] = [];
  let u = 0, conc = 0, linked = 0;
  const add = (r: Partial<R> & { span: any; name: string }): R => {
    const x: R = { updates: [], ended: false, seq: recs.length, sampled: !(r.parent && (r.parent as any).traceFlags === 0), ...r };
    recs.push(x);
    if (x.parent) linked++;
    return x;
  };
  const checkObs = (obs: any, type?: string) => {
    const sc = obs.otelSpan.spanContext();
    same(obs.id, sc.spanId, "reported observation id");
    same(obs.traceId, sc.traceId, "reported trace id");
    same(obs.type, type ?? "span", "reported type");
  };
  const here = (active?: R) => {
    same(getActiveSpanId(), active?.span.spanContext().spanId, "active span id");
    same(getActiveTraceId(), active?.span.spanContext().traceId, "active trace id");
  };
  const exec = async (ns: any[], active: R | undefined): Promise<void> => {
    for (const n of ns) {
      here(active);
      if (n.t === "sleep") {
        await clock.sleep(n.ms);
        here(active);
      } else if (n.t === "update") {
        const tok = "tok" + u++;
        if (n.as) updateActiveObservation({ output: tok } as any, { asType: n.as });
        else updateActiveObservation({ output: tok } as any);
        if (active?.span.isRecording()) {
          active.updates = [tok];
          if (n.as) active.type = n.as;
        }
      } else if (n.t === "start") {
        let parent: any = active?.span.spanContext();
        const opts: any = {};
        if (n.type) opts.asType = n.type;
        if (n.startAt !== undefined) opts.startTime = resolve(n.startAt, clock.now);
        if (n.remote) parent = opts.parentSpanContext = { traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b716920333" + (n.endAt % 10), traceFlags: n.remote === 2 ? 0 : 1, isRemote: true };
        else if (n.parent !== undefined && recs.length) parent = opts.parentSpanContext = recs[n.parent % recs.length].span.spanContext();
        const obs: any = startObservation(n.name, undefined, opts);
        checkObs(obs, n.type);
        const r = add({ span: obs.otelSpan, obs, name: n.name, type: n.type ?? "span", parent, startMs: opts.startTime?.getTime() ?? clock.now });
        if (n.type === "event") { r.ended = true; r.endMs = r.startMs; }
        else if (n.end === "now") { r.endMs = Math.max(clock.now, r.startMs!); r.ended = true; obs.end(); }
        else if (n.end === "at") { const at = r.startMs! + n.endAt; r.endMs = at; r.ended = true; obs.end(n.endForm === "hr" ? [Math.floor(at / 1000), (((at % 1000) + 1000) % 1000) * 1e6] : n.endForm === "ms" && at > 1e10 ? at : new Date(at)); }
      } else if (n.t === "child") {
        const ps = recs.filter((r) => r.obs);
        if (!ps.length) continue;
        const p = ps[n.of % ps.length];
        const obs: any = p.obs.startObservation(n.name, undefined, n.type ? { asType: n.type } : undefined);
        checkObs(obs, n.type);
        const r = add({ span: obs.otelSpan, obs, name: n.name, type: n.type ?? "span", parent: p.span.spanContext(), startMs: clock.now });
        if (n.type === "event") { r.ended = true; r.endMs = r.startMs; }
        else if (n.end === "now") { r.endMs = clock.now; r.ended = true; obs.end(); }
      } else if (n.t === "active") {
        let parent: any = active?.span.spanContext();
        const opts: any = {};
        if (n.parent !== undefined && recs.length && n.how !== "foreign" && n.how !== "manual") parent = opts.parentSpanContext = recs[n.parent % recs.length].span.spanContext();
        let r!: R;
        const go = (span: any, obs?: any) => {
          r = add({ span, obs, name: n.name, type: n.how === "foreign" ? undefined : n.type ?? "span", parent, startMs: opts.startTime?.getTime() ?? clock.now });
          if (obs) checkObs(obs, n.type);
          if (n.type === "event" && n.how !== "foreign") { r.ended = true; r.endMs = r.startMs; }
          if (n.sync) { detached.push(exec(n.body, r)); return undefined; }
          return exec(n.body, r);
        };
        const mark = () => { if (r.ended) return; r.endMs = Math.max(clock.now, r.startMs!); r.ended = true; };
        if (n.how === "foreign") {
          await trace.getTracer("ai").startActiveSpan(n.name, async (sp: any) => { await go(sp); mark(); sp.end(); });
        } else if (n.how === "manual") {
          const obs: any = startObservation(n.name, undefined, n.type ? { asType: n.type } : {});
          await context.with(trace.setSpan(context.active(), obs.otelSpan), () => go(obs.otelSpan, obs));
          mark();
          obs.end();
        } else if (n.how === "observe") {
          const res = observe(n.native && !n.sync ? async () => { await go(trace.getActiveSpan()); mark(); } : () => { const p = go(trace.getActiveSpan()); return p?.then(() => { mark(); }); }, { name: n.name, captureOutput: false, ...(n.type ? { asType: n.type } : {}), ...opts })();
          if (n.sync) mark();
          await res;
        } else {
          if (n.startAt !== undefined) opts.startTime = resolve(n.startAt, clock.now);
          const res = startActiveObservation(n.name, n.native && !n.sync ? async (obs: any) => { await go(obs.otelSpan, obs); mark(); } : (obs: any) => { const p = go(obs.otelSpan, obs); return p?.then(() => { mark(); }) as any; }, { ...(n.type ? { asType: n.type } : {}), ...opts });
          if (n.sync) mark();
          await res;
        }
        here(active);
      } else if (n.t === "par") {
        conc++;
        await Promise.all(n.branches.map((b: any[]) => exec(b, active)));
      } else if (n.t === "detach") {
        detached.push(new Promise<void>((res, rej) => setTimeout(() => exec(n.body, active).then(res, rej), n.ms)));
      }
    }
  };
  await clock.drive(isolated(() => exec(body, undefined)), { what: "program" });
  for (let i = 0; i < detached.length; i++) await clock.drive(detached[i], { what: "detached work" });
  for (const r of recs) if (!r.ended) { r.endMs = Math.max(clock.now, r.startMs!); r.span.end(); }
  await clock.drive(processor.forceFlush());
  same(exporter.spans.length, recs.filter((r) => r.sampled).length, "number of exported spans");
  const ids = new Set<string>();
  const rootTraces = new Map<string, R>();
  for (const r of recs) {
    const sc = r.span.spanContext();
    ensure(!ids.has(sc.spanId), "span id used twice");
    ids.add(sc.spanId);
    if (r.parent) same(sc.traceId, r.parent.traceId, `reported trace of ${show(r.name)}`);
    if (!r.sampled) continue;
    const e = exporter.spans.find((x) => x.spanId === sc.spanId);
    ensure(e, `observation ${show(r.name)} not exported under its reported id`);
    same(e!.traceId, sc.traceId, "exported trace id vs. reported one");
    same(e!.name, r.name, "exported name");
    same(e!.attributes["langfuse.observation.type"], r.type, "exported type");
    same(e!.parentId, r.parent?.spanId, `parent of ${show(r.name)}`);
    if (r.parent) same(e!.traceId, r.parent.traceId, `trace of ${show(r.name)}`);
    else {
      ensure(!rootTraces.has(e!.traceId), "two parentless observations share a trace");
      rootTraces.set(e!.traceId, r);
      ensure(/^(?!0{32})[0-9a-f]{32}$/.test(e!.traceId), "malformed trace id");
    }
    same(e!.startMs, r.startMs, `start time of ${show(r.name)}`);
    same(e!.endMs, r.endMs, `end time of ${show(r.name)} (start ${r.startMs})`);
    same(e!.attributes["langfuse.observation.output"], r.updates[0], `update made while ${show(r.name)} was active`);
  }
  return { nontrivial: linked >= 1 && recs.length >= 3, labels: [conc > 0 && "concurrent", detached.length > 0 && "detached", recs.length >= 8 && "large"] };
}
main({
  subs: [{ name: "programs", arb: nodes, run, quick: 15000, thorough: 200_000, rule: "program of nested, concurrent and detached observations of all types and creation styles; non-trivial = at least three observations, one with a parent", minNontrivial: 0.3 }],
  assumptions: ["a context manager that follows asynchronous continuations is installed", "explicit end times not before the start"],
});
