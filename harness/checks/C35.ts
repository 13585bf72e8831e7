import fc from "fast-check";
import { createRequire } from "node:module";
import path from "node:path";
import { main, ensure, same, show } from "../lib/runner";
import { useClock, turn } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, isolated, trace, BasicTracerProvider } from "../lib/otel";
import * as T from "@langfuse/tracing";
import { observeOpenAI } from "@langfuse/openai";
import { CallbackHandler } from "@langfuse/langchain";
import { LangfuseClient } from "@langfuse/client";

// a second copy of the tracing package, as bundlers and mixed module formats produce
const req = createRequire("/opt/veriftools/node/node_modules/x.js");
let copyP: any;
async function secondCopy(): Promise<any> {
  copyP ??= (async () => {
    const REPO = process.env.VERIF_REPO || "/repo";
    const r = await req("esbuild").build({
      stdin: { contents: `export * from ${JSON.stringify(path.join(REPO, "packages/tracing/src/index.ts"))};`, resolveDir: path.join(REPO, "packages/tracing") },
      bundle: true, format: "cjs", platform: "node", write: false, logLevel: "silent",
      alias: { "@langfuse/core": path.join(REPO, "packages/core/src/index.ts") }, nodePaths: [`${REPO}/packages/otel/node_modules`],
    });
    const m: any = { exports: {} };
    new Function("module", "exports", "require", r.outputFiles[0].text)(m, m.exports, createRequire(REPO + "/packages/tracing/x.js"));
    return m.exports;
  })();
  return copyP;
}

class Rec {
  started: string[] = [];
  ended: { name: string; span: any; scope: string }[] = [];
  ids = new Map<string, string>();
  onStart(s: any) { this.started.push(s.name); this.ids.set(s.spanContext().spanId, s.name); }
  onEnd(s: any) { this.ended.push({ name: s.name, span: s, scope: s.instrumentationScope?.name }); }
  async forceFlush() {}
  async shutdown() {}
}
const TYPES = ["span", "generation", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding", "event"] as const;
const far = fc.constantFrom(false, false, true); // attach to a parent named by its span context
const parentOpt = (o: any) => (o.far ? { parentSpanContext: { traceId: "0123456789abcdef0123456789abcdef", spanId: "0123456789abcdef", traceFlags: 1 } } : {});
const who = fc.constantFrom("main", "main", "main", "copy");
const leaf = [
  { weight: 5, arbitrary: fc.record({ t: fc.constant("set"), to: fc.constantFrom(null, 1, 2, 3), who }) },
  { weight: 4, arbitrary: fc.record({ t: fc.constant("start"), as: fc.constantFrom(...TYPES), end: fc.boolean(), who, far }) },
  { weight: 3, arbitrary: fc.record({ t: fc.constant("child"), of: fc.nat(9), as: fc.constantFrom(...TYPES), end: fc.boolean() }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("end"), of: fc.nat(9) }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("foreign") }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("tracer"), who }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("openai"), fail: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("openai-stream") }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("langchain") }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("experiment") }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("wait"), n: fc.integer({ min: 1, max: 4 }) }) },
];
const opsArb = fc.letrec<any>((tie) => ({
  ops: fc.array(tie("op"), { minLength: 1, maxLength: 7 }),
  op: fc.oneof(
    { maxDepth: 3, depthSize: "small" },
    { weight: 14, arbitrary: fc.oneof(...leaf) },
    { weight: 3, arbitrary: fc.record({ t: fc.constant("active"), as: fc.constantFrom(...TYPES.slice(0, 9)), body: tie("ops"), keep: fc.constantFrom(false, false, true), throws: fc.boolean(), who, far }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant("observe"), as: fc.constantFrom(...TYPES.slice(0, 9)), body: tie("ops"), throws: fc.boolean(), who, far }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant("foreign-active"), body: tie("ops") }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant("par"), a: tie("ops"), b: tie("ops") }) },
  ),
})).ops;
const caseArb = fc.record({ ops: opsArb, global: fc.constantFrom(true, true, true, false), lateGlobal: fc.boolean() });

async function run(c: any) {
  useClock();
  const copy = await secondCopy();
  const M = (w: string): any => (w === "copy" ? copy : T);
  const recs = [new Rec(), new Rec(), new Rec(), new Rec()];
  const provs = recs.map((r) => new BasicTracerProvider({ spanProcessors: [r as any] }));
  new FakeNet(() => ({ json: { id: "x" } })).install();
  if (c.global && !c.lateGlobal) trace.setGlobalTracerProvider(provs[0]);
  let globalOn = c.global && !c.lateGlobal;
  let cur: number | null = null;
  // the model: names expected per provider (started / ended)
  const started: string[][] = [[], [], [], []];
  const ended: string[][] = [[], [], [], []];
  let n = 0, sw = 0, spansAfterSwitch = 0;
  const kinds = new Set<string>();
  const begin = (name: string) => { const p = cur ?? (globalOn ? 0 : -1); if (p >= 0) started[p].push(name); if (sw) spansAfterSwitch++; return p; };
  const finish = (p: number, name: string) => { if (p >= 0) ended[p].push(name); };
  const open: { o: any; name: string; p: number }[] = [];
  const all: { o: any; name: string; p: number }[] = [];
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const exec = async (ops: any[]): Promise<void> => {
    for (const o of ops) {
      kinds.add(o.t);
      const name = `${o.t}-${n++}`;
      switch (o.t) {
        case "set":
          M(o.who).setLangfuseTracerProvider(o.to === null ? null : provs[o.to]);
          cur = o.to;
          sw++;
          for (const m of [T, copy]) {
            const want = o.to === null ? trace.getTracerProvider() : provs[o.to];
            if (o.to !== null || m === T) ensure(m.getLangfuseTracerProvider() === want, "getLangfuseTracerProvider does not return the provider in force");
          }
          break;
        case "start": case "child": {
          const parent = o.t === "child" ? all[o.of % Math.max(1, all.length)] : null;
          if (o.t === "child" && !parent) break;
          const p = begin(name);
          const ob = parent ? parent.o.startObservation(name, {}, { asType: o.as }) : M(o.who).startObservation(name, {}, { asType: o.as, ...parentOpt(o) });
          const e = { o: ob, name, p };
          all.push(e);
          if (o.as === "event") finish(p, name);
          else if (o.end) { ob.end(); finish(p, name); }
          else open.push(e);
          break;
        }
        case "end": {
          if (!open.length) break;
          const [e] = open.splice(o.of % open.length, 1);
          e.o.end();
          finish(e.p, e.name);
          break;
        }
        case "foreign": {
          const s = trace.getTracer("other-lib").startSpan(name);
          s.end();
          if (globalOn) { started[0].push(name); ended[0].push(name); }
          break;
        }
        case "tracer": {
          const p = begin(name);
          M(o.who).getLangfuseTracer().startSpan(name).end();
          finish(p, name);
          break;
        }
        case "openai": case "openai-stream": {
          const sdk: any = { chat: { completions: { create: async () => {
            if (o.t === "openai-stream") return (async function* () { yield { choices: [{ delta: { content: "a" } }] }; await turn(1); yield { choices: [{ delta: { content: "b" } }] }; })();
            await turn(1);
            if (o.fail) throw new Error("api");
            return { choices: [{ message: { role: "assistant", content: "hi" } }], model: "m" };
          } } } };
          const w: any = observeOpenAI(sdk, { generationName: name });
          const p = begin(name);
          const pr = w.chat.completions.create({ model: "m", messages: [], stream: o.t === "openai-stream" });
          if (o.t === "openai-stream") for await (const _ of await pr) void _;
          else await pr.catch(() => {});
          finish(p, name);
          break;
        }
        case "langchain": {
          const h: any = new CallbackHandler({});
          const id = "run-" + name;
          const p = begin(name);
          await h.handleChainStart({ id: ["x"] }, { a: 1 }, id, undefined, [], {}, "chain", name);
          await turn(1);
          await h.handleChainEnd({ b: 2 }, id);
          finish(p, name);
          break;
        }
        case "experiment": {
          const at: { p: number; nm: string }[] = [];
          let before = cur;
          const p0 = before ?? (globalOn ? 0 : -1);
          let inTask = -2;
          await client.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => {
            const here = trace.getActiveSpan()?.spanContext().spanId ?? "";
            inTask = recs.findIndex((r) => r.ids.get(here) === "experiment-item-run");
            const q = begin(name);
            T.startObservation(name).end();
            finish(q, name);
            at.push({ p: q, nm: name });
            return "out";
          } } as any);
          // the provider may be switched by a concurrent branch before the item starts; the item belongs to the provider that recorded it
          void p0;
          const found = inTask;
          const allowed = new Set<number>([p0, ...sets]);
          ensure(allowed.has(found), () => `the experiment's item span went to provider ${found}, in force: ${[...allowed]}`);
          if (found >= 0) { started[found].push("experiment-item-run"); ended[found].push("experiment-item-run"); }
          break;
        }
        case "wait":
          await turn(o.n);
          break;
        case "active": {
          const p = begin(name);
          const endNow = !o.keep;
          try {
            await M(o.who).startActiveObservation(name, async (ob: any) => {
              all.push({ o: ob, name, p });
              if (o.keep) open.push({ o: ob, name, p });
              await exec(o.body);
              if (o.throws) throw new Error("user");
            }, { asType: o.as, ...parentOpt(o), ...(o.keep ? { endOnExit: false } : {}) });
          } catch (e: any) { if (e?.message !== "user") throw e; }
          if (endNow) finish(p, name);
          break;
        }
        case "observe": {
          const f = M(o.who).observe(async () => { await exec(o.body); if (o.throws) throw new Error("user"); return 1; }, { name, asType: o.as, ...parentOpt(o) });
          const p = begin(name);
          try { await f(); } catch (e: any) { if (e?.message !== "user") throw e; }
          finish(p, name);
          break;
        }
        case "foreign-active":
          if (globalOn) started[0].push(name);
          await trace.getTracer("other-lib").startActiveSpan(name, async (s) => { await exec(o.body); s.end(); });
          if (globalOn) ended[0].push(name);
          break;
        case "par":
          await Promise.all([exec(o.a), exec(o.b)]);
          break;
      }
    }
  };
  // every provider some operation of this case puts in force
  const sets = new Set<number>();
  (function walk(ops: any[]) { for (const o of ops) { if (o.t === "set") sets.add(o.to ?? (c.global ? 0 : -1)); for (const k of ["body", "a", "b"]) if (o[k]) walk(o[k]); } })(c.ops);
  const main1 = async () => {
    if (c.global && c.lateGlobal) {
      // a provider registered after the SDK was first used
      T.startObservation("before-global").end();
      trace.setGlobalTracerProvider(provs[0]);
      globalOn = true;
    }
    await exec(c.ops);
    for (const e of open.splice(0)) { e.o.end(); finish(e.p, e.name); }
  };
  await isolated(main1);
  for (let i = 0; i < 4; i++) {
    same([...recs[i].started].sort(), [...started[i]].sort(), `spans started on ${i ? "isolated provider " + i : "the global provider"}`);
    same(recs[i].ended.map((e) => e.name).sort(), [...ended[i]].sort(), `spans ended on ${i ? "isolated provider " + i : "the global provider"}`);
    for (const e of recs[i].ended) if (!e.name.startsWith("foreign")) same(e.scope, "langfuse-sdk", `tracer of ${e.name}`);
  }
  return { nontrivial: sw > 0 && spansAfterSwitch > 0, labels: [...kinds] };
}

// ---------- with the Langfuse span processor on either side: each observation is exported exactly once
const expArb = fc.array(fc.oneof(
  fc.record({ t: fc.constant("set"), on: fc.boolean() }),
  fc.record({ t: fc.constant("obs"), n: fc.integer({ min: 1, max: 3 }) }),
  fc.record({ t: fc.constant("flush") }),
), { minLength: 1, maxLength: 12 });
async function runExport(c: any) {
  const clock = useClock();
  new FakeNet(() => ({ json: {} })).install();
  const g = makeTracing({ exportMode: "batched", flushAt: 3, flushInterval: 1 });
  const iso = makeTracing({ exportMode: "batched", flushAt: 3, flushInterval: 1 }, { raw: true });
  let on = false, k = 0;
  const want: string[][] = [[], []];
  const body = async () => {
    for (const o of c) {
      if (o.t === "set") { on = o.on; T.setLangfuseTracerProvider(on ? (iso.provider as any) : null); }
      else if (o.t === "flush") await Promise.all([g.processor.forceFlush(), iso.processor.forceFlush()]);
      else for (let i = 0; i < o.n; i++) { const nm = `o${k++}`; want[on ? 1 : 0].push(nm); T.startActiveObservation(nm, () => {}); }
    }
    await Promise.all([g.processor.forceFlush(), iso.processor.forceFlush()]);
  };
  await clock.drive(isolated(body));
  same(g.exporter.spans.map((s) => s.name).sort(), want[0].sort(), "observations exported through the global provider");
  same(iso.exporter.spans.map((s) => s.name).sort(), want[1].sort(), "observations exported through the isolated provider");
  return { nontrivial: want[0].length > 0 && want[1].length > 0 };
}

await main({
  subs: [
    { name: "routing", arb: caseArb, run, quick: 7500, thorough: 40000, rule: "the provider was switched and spans were created afterwards", minNontrivial: 0.4 },
    { name: "export", arb: expArb, run: runExport, quick: 2000, thorough: 8000, rule: "observations went to both providers" },
  ],
  assumptions: ["OpenTelemetry context stays shared between providers, as documented; only the destination of spans is decided here"],
});
