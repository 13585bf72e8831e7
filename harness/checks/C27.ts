import fc from "fast-check";
import { main, ensure, same, show } from "../lib/runner";
import { useClock } from "../lib/env";
import { makeTracing, isolated } from "../lib/otel";
import { histArb, playHistory, A, checkMsg, checkVal, type Run } from "../lib/langchain";
import { CallbackHandler } from "@langfuse/langchain";
import { RunnableLambda, RunnableSequence, RunnableParallel } from "@langchain/core/runnables";
import { FakeListChatModel } from "@langchain/core/utils/testing";
import { DynamicTool } from "@langchain/core/tools";
import { BaseTracer } from "@langchain/core/tracers/base";
import { PromptTemplate } from "@langchain/core/prompts";

async function run(c: any) {
  const h = await playHistory(c);
  const byRun = new Map<Run, any>();
  for (const r of h.runs) { const s = h.span(r); if (s) byRun.set(r, s); }
  const actions = h.runs.reduce((n, r) => n + r.actions.length, 0);
  const actives = h.runs.filter((r) => r.active).length;
  // nothing but the runs, their agent actions and the harness' own parents
  // (malformed starts may or may not leave an unfinished observation; unfinished ones are not exported)
  same(h.spans.length, h.runs.length + actions + actives, "finished observations");
  for (const r of h.runs) {
    const s = byRun.get(r);
    if (!s) continue;
    const nd = r.node, at = s.attributes, what = `run ${r.n} (${nd.kind})`;
    same(at[A.type], nd.kind === "llm" || nd.kind === "chat" ? "generation" : nd.kind === "tool" ? "tool" : "span", `type of ${what}`);
    ensure(s.name.length > 0, `${what} has no name`);
    if (r.parent) { const p = byRun.get(r.parent); if (p) { same(s.parentId, p.spanId, `parent of ${what}`); same(s.traceId, p.traceId, `trace of ${what}`); } else ensure(s.parentId, `${what} lost its parent`); }
    else if (r.active) { same(s.parentId, r.active.id, `active parent of ${what}`); same(s.traceId, r.active.traceId, `trace of ${what}`); }
    else same(s.parentId, undefined, `parent of root ${what}`);
    same(s.startMs, r.startMs, `start of ${what}`);
    same(s.endMs, r.endMs, `end of ${what}`);
    if (nd.kind === "chain" || nd.kind === "agent") {
      if (r.inMsgs) { const got = JSON.parse(at[A.input]); const list = Array.isArray(got) ? got : got.messages ?? got.input; same(list.length, r.inMsgs.length, `messages of ${what}`); r.inMsgs.forEach((m, i) => checkMsg(list[i], m, `${what} message ${i}`)); }
      else checkVal(at[A.input], r.input, `input of ${what}`);
    } else if (nd.kind === "tool" || nd.kind === "retriever") checkVal(at[A.input], r.input, `input of ${what}`);
    if (r.failed) {
      same(at[A.level], "ERROR", `level of failed ${what}`);
      let t: any; try { t = String(r.err); } catch {}
      if (t !== undefined) ensure(String(at[A.msg]).startsWith(t), () => `status message of ${what}: ${show(at[A.msg])} instead of ${show(t)}`);
      else ensure(at[A.msg] !== undefined, `no status message on failed ${what}`);
      if (r.err && (r.err as any).error) { if (nd.kind !== "tool" && nd.kind !== "retriever") ensure(at[A.msg].includes("content_filter") && at[A.msg].includes("hate"), `refusal details missing on ${what}`); }
      same(at[A.output], undefined, `output of failed ${what}`);
    } else {
      same(at[A.level] ?? "DEFAULT", nd.tags?.includes("langsmith:hidden") ? "DEBUG" : "DEFAULT", `level of ${what}`);
      same(at[A.msg], undefined, `status message of ${what}`);
      if (nd.nullOut && nd.kind !== "tool" && nd.kind !== "retriever") ensure(at[A.output] === undefined || at[A.output] === "", () => `output of ${what} that returned nothing: ${show(at[A.output])}`);
      else if (nd.kind === "chat") checkMsg(JSON.parse(at[A.output]), r.outMsgs, `output of ${what}`);
      else if (r.outMsgs) { const got = JSON.parse(at[A.output]); const list = got[r.outKind!]; same(list?.length, r.outMsgs.length, `output messages of ${what}`); if (r.outKind === "messages") r.outMsgs.forEach((m: any, i: number) => checkMsg(list[i], m, `output of ${what} message ${i}`)); }
      else checkVal(at[A.output], r.output, `output of ${what}`);
    }
    r.actions.forEach((a, i) => {
      const found = h.spans.filter((x) => x.name === a.input.tool);
      same(found.length, 1, `observations of agent action ${i} of ${what}`);
      same(found[0].parentId, s.spanId, `parent of agent action`);
      checkVal(found[0].attributes[A.input], a.input, "input of agent action");
      same(found[0].startMs, a.startMs, "start of agent action"); same(found[0].endMs, a.endMs, "end of agent action");
      checkVal(found[0].attributes[A.output], a.output, "output of agent action");
    });
  }
  if (!h.malformed) same(h.retained(), 0, "entries the handler still holds after all runs finished");
  const last = byRun.get(h.lastEnded!);
  if (last) same(h.handler.last_trace_id, last.traceId, "last trace id");
  return { nontrivial: h.runs.length > 1, labels: [h.overlap && "overlapping runs", h.malformed > 0 && "malformed events", actions > 0 && "agent actions", h.runs.some((r) => r.failed) && "failures", c.outlive && "children outliving parents"] };
}

// more than a thousand runs open at once, ended in a scrambled order
async function runCrowd(c: any) {
  const clock = useClock();
  return isolated(async () => {
    const { exporter, processor } = makeTracing();
    const handler: any = new CallbackHandler();
    const par = (i: number) => (i && c.h.mix[i % 40] % 3 ? ((i - 1) / 2) | 0 : -1);
    for (let i = 0; i < c.n; i++) {
      const pid = par(i) < 0 ? undefined : "r" + par(i);
      if (i % 3) await handler.handleToolStart({ id: [] } as any, "in" + i, "r" + i, pid, undefined, undefined, "n" + i);
      else await handler.handleChainStart({ id: [] } as any, { v: i }, "r" + i, pid, undefined, undefined, undefined, "n" + i);
    }
    await clock.advance(5);
    let left = Array.from({ length: c.n }, (_, i) => i).sort((a, b) => ((a * 7919) % c.n) - ((b * 7919) % c.n) || a - b);
    for (const i of left) if (i % 3) await handler.handleToolEnd("out" + i, "r" + i); else await handler.handleChainEnd({ output: "out" + i }, "r" + i);
    await clock.drive(processor.forceFlush());
    same(exporter.spans.length, c.n, "finished observations");
    const by = new Map(exporter.spans.map((s: any) => [s.name, s]));
    for (let i = 0; i < c.n; i++) {
      const s: any = by.get("n" + i);
      ensure(s, `run ${i} has no finished observation`);
      same(s.parentId, par(i) < 0 ? undefined : (by.get("n" + par(i)) as any).spanId, `parent of run ${i}`);
      checkVal(s.attributes[A.output], "out" + i, `output of run ${i}`);
      checkVal(s.attributes[A.input], i % 3 ? "in" + i : { v: i }, `input of run ${i}`);
    }
    return { nontrivial: true };
  });
}

// ---------- real LangChain runnables, against LangChain's own run tracer
const tree: fc.Arbitrary<any> = fc.letrec<any>((tie) => ({
  t: fc.oneof({ depthSize: "small", maxDepth: 3 },
    fc.record({ k: fc.constant("lambda"), fail: fc.constantFrom(false, false, false, true), delay: fc.nat(10) }),
    fc.record({ k: fc.constant("model"), fail: fc.constantFrom(false, false, true), delay: fc.nat(10) }),
    fc.record({ k: fc.constant("tool"), fail: fc.constantFrom(false, false, true), delay: fc.nat(10) }),
    fc.record({ k: fc.constant("prompt") }),
    fc.record({ k: fc.constant("seq"), c: fc.array(tie("t"), { minLength: 2, maxLength: 3 }) }),
    fc.record({ k: fc.constant("par"), c: fc.array(tie("t"), { minLength: 1, maxLength: 3 }) }),
    fc.record({ k: fc.constant("nest"), c: fc.array(tie("t"), { minLength: 1, maxLength: 2 }), delay: fc.nat(10) }),
  ),
})).t;
async function runReal(c: any) {
  const clock = useClock();
  return isolated(async () => {
    process.env.LANGCHAIN_CALLBACKS_BACKGROUND = "false";
    const { exporter, processor } = makeTracing();
    let n = 0;
    const text = (x: any): string => (typeof x === "string" ? x : typeof x?.content === "string" ? x.content : JSON.stringify(x));
    const build = (t: any): any => {
      const id = `${t.k}#${n++}`;
      const wait = async () => { if (t.delay) await clock.sleep(t.delay); if (t.fail) throw new Error(`fail ${id}`); };
      const norm = (r: any) => r.withConfig({ runName: id });
      if (t.k === "lambda") return norm(RunnableLambda.from(async (x: any) => { await wait(); return `${id}(${text(x).slice(0, 30)})`; }));
      if (t.k === "model") { const m = new FakeListChatModel({ responses: [`answer ${id}`] }); if (t.fail) (m as any)._generate = async () => { await wait(); throw new Error("unreached"); }; const inner = m.withConfig({ runName: id }); const w = `wrap#${n++}`; return RunnableLambda.from(async (x: any, cfg: any) => text(await inner.invoke(text(x), cfg))).withConfig({ runName: w }); }
      if (t.k === "tool") { const tool = new DynamicTool({ name: id, description: "d", func: async (x: string) => { await wait(); return `tool ${id}`; } }); const w = `wrap#${n++}`; return RunnableLambda.from(async (x: any, cfg: any) => await tool.invoke(text(x), cfg)).withConfig({ runName: w }); }
      if (t.k === "prompt") { const p = PromptTemplate.fromTemplate("Q {q}").withConfig({ runName: id }); const w = `wrap#${n++}`; return RunnableLambda.from(async (x: any, cfg: any) => (await p.invoke({ q: text(x) }, cfg)).toString()).withConfig({ runName: w }); }
      const ch = t.c.map(build);
      if (t.k === "seq") return norm(RunnableSequence.from(ch as any));
      if (t.k === "par") return norm(RunnableParallel.from(Object.fromEntries(ch.map((x: any, i: number) => [`b${i}`, x])) as any));
      return norm(RunnableLambda.from(async (x: any, cfg: any) => { await wait(); const rs = await Promise.allSettled(ch.map((r: any) => r.invoke(x, cfg))); const bad = rs.find((r) => r.status === "rejected") as any; if (bad) throw bad.reason; return rs.map((r: any) => text(r.value)).join("|").slice(0, 60); }));
    };
    class Ref extends BaseTracer { name = "ref"; all: any[] = []; protected async persistRun() {} onRunCreate(r: any) { this.all.push(r); } }
    const ref = new Ref();
    const handler = new CallbackHandler();
    const roots = c.trees.map(build);
    const outs = await clock.drive(Promise.all(roots.map(async (r: any, i: number) => { try { return { v: await r.invoke(`in${i}`, { callbacks: [ref, handler] }) }; } catch (e) { return { e: String(e) }; } })), { what: "runnables" });
    await clock.settle?.();
    await clock.drive(processor.forceFlush());
    const spans = exporter.spans;
    same(spans.length, ref.all.length, "observations vs. LangChain runs");
    const byId = new Map<string, any>();
    for (const r of ref.all) { const f = spans.filter((s) => s.name === r.name); same(f.length, ref.all.filter((q) => q.name === r.name).length, `observations named ${r.name}`); if (f.length === 1) byId.set(r.id, f[0]); }
    for (const r of ref.all) {
      const s = byId.get(r.id);
      if (!s) continue;
      same(s.attributes[A.type], r.run_type === "llm" ? "generation" : r.run_type === "tool" ? "tool" : "span", `type of ${r.name}`);
      if (r.parent_run_id) { const p = byId.get(r.parent_run_id); if (p) same(s.parentId, p.spanId, `parent of ${r.name}`); } else same(s.parentId, undefined, `parent of ${r.name}`);
      if (r.error) { same(s.attributes[A.level], "ERROR", `level of ${r.name}`); ensure(String(s.attributes[A.msg]).includes("fail "), `status message of ${r.name}`); }
      else ensure(s.attributes[A.level] !== "ERROR", `${r.name} recorded as failed`);
      if (r.run_type === "chain" && typeof r.outputs?.output === "string") same(s.attributes[A.output], r.outputs.output, `output of ${r.name}`);
      if (r.run_type === "llm" && !r.error) ensure(String(s.attributes[A.output]).includes(`answer ${r.name}`), () => `output of ${r.name}: ${show(s.attributes[A.output])}`);
    }
    return { nontrivial: ref.all.length > 2, labels: [outs.some((o: any) => o.e) && "failing", roots.length > 1 && "concurrent roots"] };
  });
}
main({
  assumptions: ["children start while their parent run is active; a parent's end may precede a child's end", "chain inputs and outputs of the special one-key forms (input, messages, content, output) have only that key"],
  subs: [
    { name: "events", arb: histArb(), run, quick: 1800, thorough: 30000, rule: "more than one run" },
    { name: "many runs", arb: fc.record({ h: histArb({ malformed: false, kinds: ["chain", "chain", "llm", "chat", "tool"] }), n: fc.integer({ min: 40, max: 160 }) }).map(({ h, n }) => ({ ...h, roots: Array.from({ length: n }, () => ({ ...h.roots[0], node: { ...h.roots[0].node, children: h.roots[0].node.children.slice(0, 2).map((x: any) => ({ ...x, children: [] })) } })) })), run, quick: 12, thorough: 200, rule: "more than one run" },
    { name: "crowd", arb: fc.record({ h: histArb({ malformed: false, kinds: ["chain", "tool"] }), n: fc.constantFrom(1100, 1700, 2100) }).map(({ h, n }) => ({ h, n })), run: runCrowd, quick: 2, thorough: 20, rule: "more than a thousand runs open at once" },
    { name: "runnables", arb: fc.record({ trees: fc.array(tree, { minLength: 1, maxLength: 3 }) }), run: runReal, quick: 1000, thorough: 12000, rule: "more than two LangChain runs" },
  ],
});
