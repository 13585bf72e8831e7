// Random, valid histories of LangChain callback events, and the observations they have to produce.
import fc from "fast-check";
import { ensure, same, show, fail } from "./runner";
import { useClock } from "./env";
import { makeTracing, isolated, trace, context } from "./otel";
import { CallbackHandler } from "@langfuse/langchain";
import { startObservation } from "@langfuse/tracing";
import { HumanMessage, AIMessage, AIMessageChunk, SystemMessage, ToolMessage, ChatMessage, FunctionMessage, BaseMessage } from "@langchain/core/messages";
import { jsonValue, ident, cleanString } from "./arbs";

export const A = { type: "langfuse.observation.type", input: "langfuse.observation.input", output: "langfuse.observation.output", model: "langfuse.observation.model.name", params: "langfuse.observation.model.parameters", usage: "langfuse.observation.usage_details", level: "langfuse.observation.level", msg: "langfuse.observation.status_message", cst: "langfuse.observation.completion_start_time", pname: "langfuse.observation.prompt.name", pver: "langfuse.observation.prompt.version", meta: "langfuse.observation.metadata.", tmeta: "langfuse.trace.metadata." };
const PARAMS = ["temperature", "max_tokens", "top_p", "frequency_penalty", "presence_penalty", "request_timeout"];
const count = fc.oneof(fc.constantFrom(0, 1), fc.nat(50), fc.nat(100000));
const toolCall = fc.record({ name: ident, args: fc.dictionary(ident, jsonValue(0), { maxKeys: 2, noNullPrototype: true }), id: ident });
const content = fc.oneof({ weight: 3, arbitrary: cleanString }, { weight: 1, arbitrary: fc.array(fc.oneof(cleanString.map((text) => ({ type: "text", text })), fc.constant({ type: "image_url", image_url: { url: "http://x/y.png" } })), { minLength: 1, maxLength: 2 }) });
export const msgArb = fc.record({ t: fc.constantFrom("human", "ai", "ai", "system", "tool", "generic", "function", "custom", "customNamed"), content, calls: fc.array(toolCall, { maxLength: 2 }), legacy: fc.constantFrom("none", "none", "tool_calls", "function_call"), name: ident });
const ioArb = fc.record({ form: fc.constantFrom("plain", "plain", "input", "messages", "content", "contentPlus", "text", "empty", "mixed", "rawMsgs", "otherOutput", "otherMessages", "otherContent"), value: jsonValue(2), msgs: fc.array(msgArb, { minLength: 1, maxLength: 3 }) });
const detail = (keys: string[]) => fc.option(fc.dictionary(fc.constantFrom(...keys), count, { maxKeys: 3, noNullPrototype: true }), { nil: undefined });
const genArb = fc.record({
  inv: fc.constantFrom("full", "full", "full", "nomodel", "none", "noextra"),
  lsModel: fc.boolean(),
  params: fc.record(Object.fromEntries(PARAMS.map((p) => [p, fc.constantFrom(0, 1, 0.5, -1, null)])) as any, { requiredKeys: [] }),
  tools: fc.constantFrom(undefined, undefined, [], [{ type: "function", function: { name: "f" } }]),
  choice: fc.constantFrom(undefined, undefined, "auto", { type: "x" }),
  prompts: fc.array(cleanString, { maxLength: 2 }),
  msgs: fc.array(msgArb, { minLength: 1, maxLength: 3 }),
  batches: fc.boolean(),
  out: msgArb,
  chunk: fc.boolean(),
  usage: fc.constantFrom("metadata", "metadata", "tokenUsage", "both", "none"),
  u: fc.record({ i: count, o: count, t: count, di: detail(["cache_read", "cache_creation", "audio"]), do: detail(["reasoning", "audio"]) }),
  respModel: fc.boolean(),
  partial: fc.constantFrom(false, false, false, true),
  further: fc.constantFrom(0, 0, 0, 1, 2),
  furtherBatch: fc.boolean(),
  emptyTokens: fc.nat(7),
  tokens: fc.constantFrom(0, 0, 1, 3),
});
const errIdx = fc.nat(9);
const promptArb = fc.record({ name: ident, version: fc.nat(20), isFallback: fc.constantFrom(false, false, true) });
const metaArb = () => fc.record({ user: fc.dictionary(ident.map((k) => "k_" + k), fc.oneof(cleanString.filter((s) => s !== ""), fc.nat(), fc.boolean(), fc.constant({ a: [1] })), { maxKeys: 3, noNullPrototype: true }), prompt: fc.option(promptArb, { nil: undefined, freq: 3 }), userId: fc.option(fc.oneof(ident, fc.constant(5 as any)), { nil: undefined, freq: 3 }), sessionId: fc.option(fc.oneof({ weight: 3, arbitrary: ident }, { weight: 1, arbitrary: fc.constant(7 as any) }), { nil: undefined, freq: 3 }), present: fc.constantFrom(true, true, true, false) });
const sharedTag = fc.constantFrom("shared-a", "shared-b", "shared-c");
const nodeArb = (kinds: any[], maxDepth: number): fc.Arbitrary<any> => fc.letrec<any>((tie) => ({
  node: fc.record({
    kind: fc.constantFrom(...kinds),
    named: fc.constantFrom("name", "name", "id", "noid"),
    tags: fc.option(fc.uniqueArray(fc.oneof({ weight: 3, arbitrary: ident }, { weight: 2, arbitrary: sharedTag }, { weight: 1, arbitrary: fc.constant("langsmith:hidden") }), { maxLength: 3 }), { nil: undefined }),
    meta: metaArb(),
    input: ioArb, output: ioArb, gen: genArb,
    fail: fc.option(errIdx, { nil: undefined, freq: 3 }),
    nullOut: fc.constantFrom(false, false, false, true),
    actions: fc.nat(2), finish: fc.boolean(),
    toolOut: fc.constantFrom("text", "text", "text", "object", "list", "message"),
    children: fc.oneof({ depthSize: "medium", maxDepth }, { weight: 1, arbitrary: fc.constant([] as any[]) }, { weight: 3, arbitrary: fc.array(tie("node"), { minLength: 1, maxLength: 4 }) }),
  }),
})).node;
export const histArb = (o: { kinds?: any[]; malformed?: boolean } = {}) =>
  fc.record({
    handler: fc.record({ userId: ident, sessionId: ident, tags: fc.array(fc.oneof(ident, sharedTag), { maxLength: 3 }), version: ident, traceMetadata: fc.dictionary(ident, fc.oneof(ident, fc.nat(), fc.constantFrom({ x: [1, "y"] } as any, false, null, ["a", 2], "UNJSON")), { maxKeys: 2, noNullPrototype: true }) }, { requiredKeys: [] }),
    roots: fc.array(fc.record({ node: nodeArb(o.kinds ?? ["chain", "chain", "chain", "agent", "llm", "chat", "chat", "tool", "retriever"], 3), active: fc.constantFrom(false, false, true), orphan: fc.constantFrom(false, false, false, false, true) }), { minLength: 1, maxLength: 3 }),
    mix: fc.array(fc.nat(9999), { minLength: 40, maxLength: 40 }),
    malformed: o.malformed === false ? fc.constant([] as number[]) : fc.array(fc.nat(15), { maxLength: 6 }),
    outlive: fc.boolean(),
    twin: fc.constantFrom("none", "none", "before", "after"),
    stride: fc.constantFrom(1, 1, 1, 1000, 600_000, 8_000_000),
  });

export function errors(): any[] {
  return [new Error("boom"), new TypeError("bad type"), "just text", undefined, null, 0, { toString: () => "custom" }, Object.create(null), Symbol("s"), Object.assign(new Error("refused"), { error: { code: "content_filter", detail: "hate" } })];
}
const errText = (e: any) => { try { return String(e); } catch { return null; } };

// a message type the SDK does not know
class CustomMessage extends BaseMessage {
  _getType(): any { return "custom"; }
  getType(): any { return "custom"; }
}
export function buildMsg(m: any): any {
  const ak: any = m.legacy === "tool_calls" ? { tool_calls: m.calls.map((c: any) => ({ id: c.id, type: "function", function: { name: c.name, arguments: JSON.stringify(c.args) } })) } : m.legacy === "function_call" ? { function_call: { name: "f", arguments: "{}" } } : {};
  switch (m.t) {
    case "human": return new HumanMessage({ content: m.content });
    case "system": return new SystemMessage({ content: m.content });
    case "tool": return new ToolMessage({ content: m.content, tool_call_id: "c1", name: m.name });
    case "function": return new FunctionMessage({ content: typeof m.content === "string" ? m.content : "x", name: m.name });
    case "custom": return new CustomMessage({ content: m.content });
    case "customNamed": return new CustomMessage({ content: m.content, name: m.name });
    case "generic": return new ChatMessage({ content: m.content, role: "critic" });
    default: return new AIMessage({ content: m.content, tool_calls: m.calls, additional_kwargs: ak });
  }
}
/** compares a recorded message with the real one: role, content, tool calls */
export function checkMsg(got: any, msg: any, what: string) {
  ensure(got && typeof got === "object", () => `${what}: ${show(got)} is no message`);
  same(got.content, JSON.parse(JSON.stringify(msg.content)), `${what}: content`);
  const t = msg.getType();
  const role = t === "human" ? "user" : t === "ai" ? "assistant" : t === "system" ? "system" : t === "tool" || t === "function" ? msg.name : undefined;
  if (role) same(got.role, role, `${what}: role`);
  if (t === "ai") {
    const ak = msg.additional_kwargs ?? {};
    const calls = ak.tool_calls ?? (msg.tool_calls?.length ? msg.tool_calls : undefined);
    if (calls !== undefined) same(got.tool_calls, JSON.parse(JSON.stringify(calls)), `${what}: tool calls`);
    else ensure(got.tool_calls === undefined || got.tool_calls.length === 0, () => `${what}: tool calls out of nowhere`);
    if (ak.function_call && calls === undefined) same(got.additional_kwargs?.function_call, ak.function_call, `${what}: function call`);
  }
}
export function checkVal(got: any, want: any, what: string) {
  if (want === undefined || want === null) return same(got, undefined, what);
  if (typeof want === "string") return same(got, want, what);
  ensure(typeof got === "string", () => `${what}: ${show(got)} instead of ${show(want)}`);
  let p: any;
  try { p = JSON.parse(got); } catch { fail(`${what}: not JSON: ${show(got)}`); }
  same(p, JSON.parse(JSON.stringify(want)), what);
}
const parse = (s: any, what: string) => { ensure(typeof s === "string", () => `${what} missing`); try { return JSON.parse(s); } catch { return s; } };

export interface Run {
  n: number; node: any; runId: string; parent?: Run; root: boolean; orphan?: string; active?: any;
  state: "new" | "started" | "ended"; startMs?: number; endMs?: number; err?: any; failed?: boolean;
  input?: any; inMsgs?: any[]; output?: any; outMsgs?: any; outKind?: string;
  tokens: number; firstToken?: number; actions: { input: any; startMs: number; endMs?: number; output?: any }[]; finished?: boolean; prompt?: any; meta?: any; children: Run[];
}
export interface Hist { runs: Run[]; spans: any[]; handler: any; span: (r: Run) => any; retained: () => number; malformed: number; cfg: any; lastEnded?: Run; overlap: boolean }

/** total number of entries the handler holds in its own collections */
const held = (h: any) => { let n = 0; for (const k of Object.getOwnPropertyNames(h)) { const v = h[k]; if (v instanceof Map || v instanceof Set) n += v.size; else if (Array.isArray(v)) n += 0; else if (v && typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype && k !== "traceMetadata") n += Object.keys(v).length; } return n; };

export async function playHistory(c: any): Promise<Hist> {
  const clock = useClock();
  return isolated(async () => {
    const { exporter, processor } = makeTracing();
    const cfg = { ...c.handler };
    // values JSON cannot express
    if (cfg.traceMetadata) cfg.traceMetadata = Object.fromEntries(Object.entries(cfg.traceMetadata).map(([k, v]) => [k, v === "UNJSON" ? (k.length % 2 ? 12n : ((o: any) => (o.self = o))({})) : v]));
    const cfgBefore = show(cfg, 5000);
    const given: { what: string; value: any; before: any }[] = [];
    const lend = (what: string, value: any) => { if (value !== undefined) given.push({ what, value, before: structuredClone(value) }); return value; };
    const handler: any = new CallbackHandler(cfg);
    const base = held(handler);
    // a second handler that is given the same events (as two handlers on one LangChain call are) works on its own
    const twin: any = c.twin && c.twin !== "none" ? new CallbackHandler({ ...cfg, version: "twin-version" }) : undefined;
    const E = errors();
    const runs: Run[] = [];
    const mkRun = (node: any, parent: Run | undefined, active: boolean, orphan = false): Run => {
      // an orphan names a parent run the handler never saw
      if (orphan && node.meta.prompt) node = { ...node, meta: { ...node.meta, prompt: undefined } };
      const r: Run = { orphan: orphan ? `elsewhere-${runs.length}` : undefined, n: runs.length, node, runId: `run-${String(runs.length).padStart(4, "0")}-x`, parent, root: !parent && !orphan, state: "new", tokens: node.gen.tokens, actions: [], children: [], active };
      runs.push(r);
      if (["chain", "agent", "tool", "retriever"].includes(node.kind)) r.children = node.children.map((ch: any) => mkRun(ch, r, false));
      return r;
    };
    c.roots.forEach((x: any) => mkRun(x.node, undefined, x.active, x.orphan));
    const proms: Promise<any>[] = [];
    let k = 0;
    const next = () => c.mix[k++ % c.mix.length] + ((k / c.mix.length) | 0) * 7;
    const send = (name: string, ...args: any[]) => {
      let p: any;
      const other = () => { if (twin) { const t = Promise.resolve(twin[name](...args)).then(() => {}, (e: any) => fail(`callback ${name} failed on the second handler: ${show(e)}`)); t.catch(() => {}); proms.push(t); } };
      if (c.twin === "before") other();
      try { p = handler[name](...args); } catch (e) { fail(`callback ${name} threw: ${show(e)}`); }
      if (c.twin === "after") other();
      const q = Promise.resolve(p).then(() => {}, (e) => fail(`callback ${name} failed: ${show((e as any)?.stack ?? e)}`));
      q.catch(() => {});
      proms.push(q);
      return q;
    };
    const pending = new Map<Run, any>(); // prompt waiting under a parent run
    const serialized = (r: Run) => ({ lc: 1, type: "not_implemented", id: r.node.named === "noid" ? [] : ["langchain", "x", `Ser${r.n}`] });
    const name = (r: Run) => (r.node.named === "name" ? `Name${r.n}` : undefined);
    const ioIn = (r: Run, io: any, key: "input" | "output") => {
      const mark = `${key}-mark-${r.n}`;
      if (io.form === "messages" || (io.form === "input" && key === "input")) { const msgs = io.msgs.map(buildMsg); const f = io.form === "input" ? "input" : "messages"; return { raw: { [f]: msgs }, msgs }; }
      // lists that are not (only) messages are recorded as they are
      if (io.form === "mixed") { const raw = { [key === "input" && io.msgs.length > 1 ? "input" : "messages"]: [...io.msgs.map(buildMsg), { role: "user", content: mark }] }; return { raw, want: raw }; }
      if (io.form === "rawMsgs") { const raw = { messages: [{ role: "user", content: mark }, ...io.msgs.map(() => ({ role: "x", value: io.value }))] }; return { raw, want: raw }; }
      // the special keys with other kinds of values
      if (io.form === "otherOutput") { const raw = { output: { mark, value: io.value } }; return { raw, want: raw }; }
      if (io.form === "otherMessages") { const raw = { messages: mark, input: io.msgs.length > 1 ? mark : { mark } }; return { raw, want: raw }; }
      if (io.form === "otherContent") { const raw = { content: [mark, io.value] }; return { raw, want: raw }; }
      if (io.form === "content" && key === "input") return { raw: { content: mark }, want: mark };
      if (io.form === "contentPlus" && key === "input") return { raw: { content: mark, value: io.value }, want: { content: mark, value: io.value } };
      if (io.form === "empty" && key === "output") return { raw: { output: "" }, want: "" };
      if (io.form === "text") return key === "output" ? { raw: { output: mark }, want: mark } : { raw: { question: mark }, want: { question: mark } };
      return { raw: { mark, value: io.value }, want: { mark, value: io.value } };
    };
    const metaOf = (r: Run) => {
      const m = r.node.meta;
      if (!m.present) return undefined;
      const out: any = { ...m.user };
      if (m.prompt) out.langfusePrompt = m.prompt;
      if (m.userId !== undefined) out.langfuseUserId = m.userId;
      if (m.sessionId !== undefined) out.langfuseSessionId = m.sessionId;
      if (["llm", "chat"].includes(r.node.kind) && r.node.gen.lsModel) out.ls_model_name = `ls-${r.n}`;
      return out;
    };
    const start = (r: Run) => {
      const nd = r.node;
      r.state = "started";
      r.startMs = clock.now;
      const meta = (r.meta = lend("metadata", metaOf(r)));
      lend("tags", nd.tags);
      const pid = r.parent?.runId ?? r.orphan;
      const go = () => {
        if (nd.kind === "chain" || nd.kind === "agent") {
          const io: any = ioIn(r, nd.input, "input");
          r.input = io.want; r.inMsgs = io.msgs;
          if (meta?.langfusePrompt && r.parent) pending.set(r.parent, meta.langfusePrompt);
          return send("handleChainStart", serialized(r), io.raw, r.runId, pid, nd.tags, meta, undefined, name(r));
        }
        if (nd.kind === "tool") { r.input = `tool-in-${r.n}`; return send("handleToolStart", serialized(r), r.input, r.runId, pid, nd.tags, meta, name(r)); }
        if (nd.kind === "retriever") { r.input = `query-${r.n}`; return send("handleRetrieverStart", serialized(r), r.input, r.runId, pid, nd.tags, meta, name(r)); }
        const g = nd.gen;
        const inv: any = g.inv === "full" || g.inv === "nomodel" ? { ...g.params, ...(g.inv === "full" ? { model: `model-${r.n}` } : {}), ...(g.tools !== undefined ? { tools: g.tools } : {}), ...(g.choice !== undefined ? { tool_choice: g.choice } : {}) } : undefined;
        const extra = g.inv === "noextra" ? undefined : g.inv === "none" ? { options: {} } : { invocation_params: inv, options: {} };
        if (r.parent && pending.has(r.parent)) { r.prompt = pending.get(r.parent); pending.delete(r.parent); }
        if (nd.kind === "llm") { r.input = [`prompt-${r.n}`, ...g.prompts]; return send("handleLLMStart", serialized(r), r.input, r.runId, pid, extra, nd.tags, meta, name(r)); }
        r.inMsgs = [...g.msgs.map(buildMsg), new HumanMessage(`human-${r.n}`)];
        const batches = g.batches && r.inMsgs!.length > 1 ? [r.inMsgs!.slice(0, 1), r.inMsgs!.slice(1)] : [r.inMsgs!];
        return send("handleChatModelStart", serialized(r), batches, r.runId, pid, extra, nd.tags, meta, name(r));
      };
      if (r.active) {
        const par = startObservation(`active-${r.n}`);
        r.active = par;
        context.with(trace.setSpan(context.active(), par.otelSpan), go);
        par.end();
      } else go();
    };
    const end = (r: Run) => {
      const nd = r.node;
      r.state = "ended";
      r.endMs = clock.now;
      for (const a of r.actions) a.endMs ??= clock.now;
      const llm = nd.kind === "llm" || nd.kind === "chat";
      const pid = r.parent?.runId ?? r.orphan;
      if (nd.fail !== undefined) {
        r.failed = true; r.err = E[nd.fail];
        const h = llm ? "handleLLMError" : nd.kind === "tool" ? "handleToolError" : nd.kind === "retriever" ? "handleRetrieverError" : "handleChainError";
        pending.delete(r);
        return send(h, r.err, r.runId, pid);
      }
      if (nd.kind === "chain" || nd.kind === "agent") {
        pending.delete(r);
        if (nd.nullOut) { r.output = undefined; return send("handleChainEnd", nd.actions % 2 ? null : undefined, r.runId, pid); }
        const io: any = ioIn(r, nd.output, "output");
        r.output = io.want;
        if (io.msgs) { r.outMsgs = io.msgs; r.outKind = Object.keys(io.raw)[0]; }
        return send("handleChainEnd", io.raw, r.runId, pid);
      }
      if (nd.kind === "tool") { r.output = nd.toolOut === "object" ? { result: `tool-out-${r.n}`, value: nd.output.value } : nd.toolOut === "list" ? [{ type: "text", text: `tool-out-${r.n}` }, nd.output.value] : nd.toolOut === "message" ? new ToolMessage({ content: `tool-out-${r.n}`, tool_call_id: "c1", name: "t" }) : `tool-out-${r.n}`; return send("handleToolEnd", r.output, r.runId, pid); }
      if (nd.kind === "retriever") { r.output = [{ pageContent: `doc-${r.n}`, metadata: { v: nd.output.value } }]; return send("handleRetrieverEnd", r.output, r.runId, pid); }
      const g = nd.gen;
      if (nd.nullOut) return send("handleLLMEnd", { generations: nd.actions ? [[]] : [] }, r.runId, pid);
      // of several candidates the last one is recorded
      const several = (last: any, f: (j: number) => any) => { const more = Array.from({ length: g.further }, (_, j) => f(j)); return g.furtherBatch ? [...more.map((m) => [m]), [last]] : [[...more, last]]; };
      const tokenUsage = { promptTokens: g.u.i, completionTokens: g.u.o, ...(g.partial ? {} : { totalTokens: g.u.t }) };
      const um: any = { input_tokens: g.u.i, output_tokens: g.u.o, ...(g.partial ? {} : { total_tokens: g.u.t }), ...(g.u.di ? { input_token_details: g.u.di } : {}), ...(g.u.do ? { output_token_details: g.u.do } : {}) };
      const other = { promptTokens: 77, completionTokens: 78, totalTokens: 155 };
      const llmOutput = nd.kind === "llm" ? (g.usage === "none" ? undefined : { tokenUsage }) : g.usage === "tokenUsage" ? { tokenUsage } : g.usage === "both" ? { tokenUsage: other } : undefined;
      if (nd.kind === "llm") { r.output = `text-${r.n}`; return send("handleLLMEnd", { generations: several({ text: r.output }, (j) => ({ text: `candidate ${j}` })), llmOutput }, r.runId, pid); }
      const o = { ...g.out, t: "ai" };
      const ai: any = buildMsg(o);
      const fields = { content: ai.content, tool_calls: ai.tool_calls, additional_kwargs: ai.additional_kwargs, ...(g.usage === "metadata" || g.usage === "both" ? { usage_metadata: um } : {}), response_metadata: g.respModel ? { model_name: `resp-${r.n}` } : {} };
      const msg: any = g.chunk ? new AIMessageChunk(fields as any) : new AIMessage(fields as any);
      r.outMsgs = msg;
      return send("handleLLMEnd", { generations: several({ text: typeof msg.content === "string" ? msg.content : "", message: msg }, (j) => ({ text: `candidate ${j}`, message: new AIMessage({ content: `candidate ${j}`, usage_metadata: { input_tokens: 1, output_tokens: 1, total_tokens: 2 }, response_metadata: { model_name: "candidate-model" } } as any) })), llmOutput }, r.runId, pid);
    };
    const agentAction = (r: Run) => {
      const prev = r.actions.at(-1);
      if (prev) prev.endMs ??= clock.now;
      const action = { tool: `act-${r.n}-${r.actions.length}`, toolInput: "x", log: "l" };
      r.actions.push({ input: action, startMs: clock.now });
      return send("handleAgentAction", action, r.runId, r.parent?.runId ?? r.orphan);
    };
    const agentEnd = (r: Run) => {
      r.finished = true;
      const fin = { returnValues: { output: `fin-${r.n}` }, log: "" };
      const open = r.actions.find((a) => a.endMs === undefined);
      if (open) { open.endMs = clock.now; open.output = fin; }
      return send("handleAgentEnd", fin, r.runId, r.parent?.runId ?? r.orphan);
    };
    let bad = 0, lastEnded: Run | undefined;
    const malformed = (i: number) => {
      bad++;
      const done = runs.filter((r) => r.state === "ended");
      const id = done.length && i % 2 ? done[i % done.length].runId : `unknown-${i}`;
      const any: any = undefined;
      switch (i) {
        case 0: case 1: return send("handleChainEnd", { output: "late" }, id);
        case 2: return send("handleLLMEnd", { generations: [[{ text: "late" }]] }, id);
        case 3: return send("handleToolError", new Error("late"), id);
        case 4: return send("handleChainStart", any, { a: 1 }, `mal-${bad}`, "no-parent");
        case 5: return send("handleChainStart", {}, null, `mal-${bad}`);
        case 6: return send("handleLLMStart", any, ["x"], `mal-${bad}`);
        case 7: return send("handleChatModelStart", {}, any, `mal-${bad}`);
        case 8: return send("handleChatModelStart", { id: [] }, [[null]], `mal-${bad}`);
        case 9: return send("handleToolStart", any, "x", `mal-${bad}`);
        case 10: return send("handleRetrieverStart", any, "q", `mal-${bad}`);
        case 11: return send("handleLLMEnd", any, id);
        case 12: return send("handleLLMError", null, id);
        case 13: return send("handleChainError", Object.create(null), id);
        case 14: return send("handleAgentAction", any, id);
        default: return send("handleAgentEnd", any, id);
      }
    };
    const mal = [...c.malformed];
    let overlap = false;
    const body = async () => {
      for (let step = 0; step < 3000 + 12 * runs.length; step++) {
        const ops: (() => any)[] = [];
        for (const r of runs) {
          if (r.state === "new" && (!r.parent || r.parent.state === "started")) ops.push(() => start(r));
          if (r.state === "started") {
            const llm = r.node.kind === "llm" || r.node.kind === "chat";
            if (llm && r.tokens > 0) { ops.push(() => { r.tokens--; r.firstToken ??= clock.now; return send("handleLLMNewToken", (r.node.gen.emptyTokens >> r.tokens) & 1 ? "" : "t", { prompt: 0, completion: 0 }, r.runId, r.parent?.runId ?? r.orphan); }); continue; }
            if (r.node.kind === "agent" && r.actions.length < r.node.actions) { ops.push(() => agentAction(r)); continue; }
            if (r.node.kind === "agent" && r.node.finish && !r.finished && r.children.every((ch) => ch.state !== "new")) { ops.push(() => agentEnd(r)); continue; }
            if (r.children.every((ch) => ch.state === "ended" || (c.outlive && ch.state === "started"))) ops.push(() => { end(r); lastEnded = r; });
          }
        }
        if (!ops.length) break;
        if (runs.filter((r) => r.state === "started").length > 1) overlap = true;
        if (mal.length && next() % 5 === 0) malformed(mal.pop()!);
        await ops[next() % ops.length]();
        if (next() % 3 === 0) await clock.sleep(((next() % 20) + 1) * (c.stride ?? 1));
      }
      await Promise.all(proms);
    };
    await clock.drive(body(), { maxMs: 1e13, what: "history" });
    ensure(runs.every((r) => r.state === "ended"), "harness: history did not finish");
    await clock.drive(processor.forceFlush());
    for (const g of given) same(g.value, g.before, `the application's ${g.what} after the callbacks`);
    same(show(cfg, 5000), cfgBefore, "the application's handler options after the callbacks");
    const spans = exporter.spans.filter((s) => s.attributes["langfuse.version"] !== "twin-version" || s.name.startsWith("active-"));
    if (twin) {
      const mine = exporter.spans.length - spans.length;
      same(mine, runs.length + runs.reduce((n, r) => n + r.actions.length, 0), "finished observations of the second handler");
    }
    const nameOf = (r: Run) => (r.node.named === "name" ? `Name${r.n}` : r.node.named === "id" ? `Ser${r.n}` : undefined);
    const marks = (r: Run) => [`input-mark-${r.n}"`, `"input-mark-${r.n}`, `input-mark-${r.n}`, `tool-in-${r.n}`, `query-${r.n}`, `prompt-${r.n}`, `human-${r.n}`];
    const span = (r: Run) => {
      const nm = nameOf(r);
      const startedAt = r.startMs;
      const found = spans.filter((s) => (nm ? s.name === nm : s.startMs === startedAt && !/^(Name|Ser|active-|act-)/.test(s.name) && marks(r).some((m) => new RegExp(m + "(?!\\d)").test(String(s.attributes[A.input])))));
      if (!nm && r.inMsgs && r.node.kind !== "chat") return undefined; // not identifiable by content: skipped
      ensure(found.length === 1, () => `run ${r.n} (${r.node.kind}) is represented by ${found.length} finished observations`);
      return found[0];
    };
    return { runs, spans, handler, span, retained: () => held(handler) - base, malformed: bad, cfg: c.handler, lastEnded, overlap };
  });
}
