import fc from "fast-check";
import { main, ensure, same, show } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated, trace, context, propagation, ROOT_CONTEXT } from "../lib/otel";
import { startObservation, startActiveObservation, observe } from "@langfuse/tracing";

type Op =
  | { t: "start"; how: "sdk" | "active" | "observe" | "child" | "genai" | "plain"; ctx: number; drop: boolean; explicitParent: number | null }
  | { t: "end"; i: number }
  | { t: "claim"; ctx: number; of: number; upper: boolean; foreign: boolean }
  | { t: "remote"; ctx: number; join: number | null };
const opArb: fc.Arbitrary<Op> = fc.oneof(
  { weight: 6, arbitrary: fc.record({ t: fc.constant("start" as const), how: fc.constantFrom("sdk" as const, "active" as const, "observe" as const, "child" as const, "genai" as const, "plain" as const, "plain" as const), ctx: fc.nat(20), drop: fc.nat(4).map((x) => x === 0), explicitParent: fc.option(fc.nat(9), { nil: null, freq: 6 }) }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("end" as const), i: fc.nat(9) }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("claim" as const), ctx: fc.nat(20), of: fc.nat(9), upper: fc.boolean(), foreign: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("remote" as const), ctx: fc.nat(20), join: fc.option(fc.nat(9), { nil: null }) }) },
) as any;
const caseArb = fc.record({ ops: fc.array(opArb, { minLength: 2, maxLength: 16, size: "max" }), filter: fc.constantFrom("default" as const, "default" as const, "custom" as const, "throwing" as const) });
type Case = typeof caseArb extends fc.Arbitrary<infer T> ? T : never;

async function run(c: Case) {
  const clock = useClock();
  const { exporter, processor } = makeTracing({
    mediaUploadEnabled: false,
    ...(c.filter === "default" ? {} : {
      shouldExportSpan: ({ otelSpan }: any) => {
        if (/drop/.test(otelSpan.name)) {
          if (c.filter === "throwing") throw new Error("x");
          return false;
        }
        return true;
      },
    }),
  });
  interface S { span: any; obs?: any; acc: boolean; running: boolean; flagged: boolean; why: string }
  interface C { ctx: any; span?: { traceId: string; spanId: string }; claim?: string }
  const spans: S[] = [];
  const ctxs: C[] = [{ ctx: ROOT_CONTEXT }];
  let n = 0;
  let roots = 0, nonRoots = 0;
  await isolated(async () => {
    for (const o of c.ops) {
      const base = ctxs[(o as any).ctx === undefined ? 0 : (o as any).ctx % ctxs.length];
      if (o.t === "end") {
        const open = spans.filter((s) => s.running);
        if (!open.length) continue;
        const s = open[o.i % open.length];
        s.running = false;
        s.span.end();
      } else if (o.t === "claim") {
        if (!spans.length && !o.foreign) continue;
        const id = o.foreign || !spans.length ? "f".repeat(31) + (o.of % 10) : spans[o.of % spans.length].span.spanContext().traceId;
        const value = o.upper ? id.toUpperCase() : id;
        const b = (propagation.getBaggage(base.ctx) ?? propagation.createBaggage()).setEntry("langfuse_trace_id", { value }).setEntry("other", { value: "1" });
        ctxs.push({ ...base, ctx: propagation.setBaggage(base.ctx, b), claim: id });
      } else if (o.t === "remote") {
        const traceId = o.join !== null && spans.length ? spans[o.join % spans.length].span.spanContext().traceId : "abcdef" + String(n).padStart(26, "0");
        const sc = { traceId, spanId: "0123" + String(++n).padStart(12, "0"), traceFlags: 1, isRemote: true };
        ctxs.push({ ...base, ctx: trace.setSpanContext(base.ctx, sc), span: sc });
      } else {
        const name = `n${n++}` + (o.drop && c.filter !== "default" ? "-drop" : "");
        let parent: { traceId: string; spanId: string } | undefined = base.span;
        let span: any, obs: any;
        const pSel = o.explicitParent !== null && spans.length ? spans[o.explicitParent % spans.length].span.spanContext() : undefined;
        let claimOfChild = base.claim;
        const newCtxs: C[] = [];
        context.with(base.ctx, () => {
          if (o.how === "sdk") {
            obs = startObservation(name, {}, pSel ? { parentSpanContext: pSel } : {});
            if (pSel) parent = pSel;
          } else if (o.how === "child" && spans.some((s) => s.obs)) {
            const ps = spans.filter((s) => s.obs);
            const p = ps[(o.explicitParent ?? 0) % ps.length];
            obs = p.obs.startObservation(name);
            parent = p.span.spanContext();
          } else if (o.how === "active" || o.how === "child") {
            if (pSel) parent = pSel;
            startActiveObservation(name, (ob: any) => {
              obs = ob;
              newCtxs.push({ ctx: context.active(), span: ob.otelSpan.spanContext(), claim: ob.traceId });
            }, { endOnExit: false, ...(pSel ? { parentSpanContext: pSel } : {}) });
          } else if (o.how === "observe") {
            if (pSel) parent = pSel;
            observe(() => {
              span = trace.getActiveSpan();
              newCtxs.push({ ctx: context.active(), span: span.spanContext(), claim: span.spanContext().traceId });
            }, { name, endOnExit: false, ...(pSel ? { parentSpanContext: pSel } : {}) } as any)();
          } else {
            span = trace.getTracer("my-lib").startSpan(name, o.how === "genai" ? { attributes: { "gen_ai.system": "x" } } : {});
          }
        });
        span = obs ? obs.otelSpan : span;
        const sc = span.spanContext();
        const isSdk = !!obs || o.how === "observe";
        const acc = c.filter === "default" ? isSdk || o.how === "genai" : !(o.drop);
        const p = parent ? spans.find((s) => s.span.spanContext().spanId === parent!.spanId) : undefined;
        same(sc.traceId === parent?.traceId, !!parent, "span joins its parent's trace");
        const parentCovers = !!p && p.running && p.acc;
        const flagged = acc && !parentCovers && base.claim !== sc.traceId;
        spans.push({ span, obs, acc, running: true, flagged, why: `${name} (${o.how}${acc ? "" : ", rejected"}; parent ${p ? (p.running ? "running" : "ended") + (p.acc ? " accepted" : " rejected") : parent ? "remote" : "none"}; claim ${base.claim === undefined ? "none" : base.claim === sc.traceId ? "same trace" : "other trace"})` });
        flagged ? roots++ : nonRoots++;
        ctxs.push(...(newCtxs.length ? newCtxs : [{ ...base, ctx: trace.setSpan(base.ctx, span), span: sc }]));
      }
    }
    for (const s of spans) {
      same(s.span.attributes["langfuse.internal.is_app_root"] === true, s.flagged, `app-root flag of ${s.why}`);
      if (s.running) s.span.end();
    }
  });
  await clock.drive(processor.forceFlush());
  for (const r of exporter.spans) {
    const s = spans.find((x) => x.span.spanContext().spanId === r.spanId)!;
    same(r.attributes["langfuse.internal.is_app_root"] ?? false, s.flagged, `exported app-root flag of ${s.why}`);
  }
  return { nontrivial: roots > 0 && nonRoots > 0, labels: [c.filter, c.ops.some((o) => o.t === "claim") && "claims", c.ops.some((o) => o.t === "remote") && "remote parents"] };
}
// ---- many spans open at once
const manyArb = fc.record({ n: fc.constantFrom(10, 70, 140, 300, 600, 1100, 2100), how: fc.constantFrom("fan" as const, "chain" as const, "roots" as const), endEvery: fc.constantFrom(0, 2, 3, 7), kids: fc.array(fc.tuple(fc.nat(), fc.boolean()), { minLength: 1, maxLength: 6 }) });
async function runMany(c: any) {
  useClock();
  makeTracing({ mediaUploadEnabled: false, exportMode: "batched" });
  return isolated(() => {
    const flag = (o: any) => o.otelSpan.attributes["langfuse.internal.is_app_root"] === true;
    const all: { o: any; open: boolean }[] = [];
    const add = (parent?: { o: any; open: boolean }) => {
      const o: any = parent ? parent.o.startObservation("x") : startObservation("x");
      same(flag(o), !parent || !parent.open, `app-root flag of span ${all.length} (${parent ? (parent.open ? "parent running" : "parent ended") : "no parent"}, ${all.filter((x) => x.open).length} spans open)`);
      const s = { o, open: true };
      all.push(s);
      return s;
    };
    let last = add();
    const root = last;
    for (let i = 1; i < c.n; i++) {
      last = add(c.how === "fan" ? root : c.how === "chain" ? last : undefined);
      if (c.endEvery && i % c.endEvery === 0 && all.length > 2) { const v = all[(i * 7) % all.length]; if (v !== root && v !== last && v.open) { v.open = false; v.o.end(); } }
    }
    for (const [i, end] of c.kids) { const p = all[i % all.length]; if (end && p.open) { p.open = false; p.o.end(); } add(p); }
    add(root);
    root.o.end(); root.open = false;
    add(root);
    for (const s of all) if (s.open) s.o.end();
    return { nontrivial: c.n > 60, labels: [c.how, `n:${c.n}`] };
  });
}
main({
  subs: [{ name: "roots", arb: caseArb, run, quick: 12_000, thorough: 400_000, rule: "history of span starts in arbitrary contexts (active, child, remote parent, with or without claims), ends in any order; non-trivial = both a root and a non-root span occur", minNontrivial: 0.3 },
    { name: "many open", arb: manyArb, run: runMany, quick: 150, thorough: 2000, rule: "more than 60 spans are open at some point" }],
  assumptions: ["custom filters return booleans or throw"],
});
