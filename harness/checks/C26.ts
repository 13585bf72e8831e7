import fc from "fast-check";
import { main, ensure, same, show, fail } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, isolated, trace, context } from "../lib/otel";
import { observeOpenAI } from "@langfuse/openai";
import { startObservation } from "@langfuse/tracing";
import OpenAI from "openai";
import { jsonValue, ident, cleanString } from "../lib/arbs";

const A = { type: "langfuse.observation.type", input: "langfuse.observation.input", output: "langfuse.observation.output", model: "langfuse.observation.model.name", params: "langfuse.observation.model.parameters", usage: "langfuse.observation.usage_details", level: "langfuse.observation.level", msg: "langfuse.observation.status_message", cst: "langfuse.observation.completion_start_time", pname: "langfuse.observation.prompt.name", pver: "langfuse.observation.prompt.version", meta: "langfuse.observation.metadata." };
const PARAMS = ["frequency_penalty", "logit_bias", "logprobs", "max_tokens", "n", "presence_penalty", "seed", "stop", "temperature", "top_p", "user", "top_logprobs"];

// ---------- generators
const count = fc.oneof(fc.constantFrom(0, 1), fc.nat(50), fc.nat(100000));
const details = (keys: string[]) => fc.option(fc.dictionary(fc.constantFrom(...keys), count, { maxKeys: 6, noNullPrototype: true }), { nil: undefined });
const usageArb = fc.record({ i: count, o: count, extra: fc.constantFrom(0, 0, 0, 3), di: details(["cached_tokens", "audio_tokens", "image_tokens", "text_tokens", "video_tokens", "cache_write_tokens"]), do: details(["reasoning_tokens", "audio_tokens", "accepted_prediction_tokens", "rejected_prediction_tokens", "image_tokens", "text_tokens"]), nulls: fc.boolean() });
const paramsArb = fc.record(Object.fromEntries(PARAMS.map((p) => [p, p === "stop" ? fc.array(cleanString, { maxLength: 2 }) : p === "user" ? cleanString : p === "logit_bias" ? fc.dictionary(ident, fc.integer({ min: -100, max: 100 }), { maxKeys: 2, noNullPrototype: true }) : p === "logprobs" ? fc.boolean() : fc.constantFrom(0, 1, 0.5, -2)])) as any, { requiredKeys: [] });
const piece = fc.oneof({ weight: 3, arbitrary: cleanString }, { weight: 1, arbitrary: fc.constantFrom("", null, undefined) });
const toolArb = fc.record({ name: ident, parts: fc.array(cleanString, { maxLength: 4 }) });
// what the Responses API repeats about the request
const echoArb = fc.record({
  max_output_tokens: fc.constantFrom(null, 0, 16, 4096), parallel_tool_calls: fc.boolean(), store: fc.boolean(), temperature: fc.constantFrom(0, 0.5, 1, null), tool_choice: fc.constantFrom("auto", "none", ""), top_p: fc.constantFrom(0, 1, 0.25, null), truncation: fc.constantFrom("auto", "disabled"), user: fc.oneof(cleanString, fc.constant(null)),
  instructions: fc.oneof(cleanString.map((s) => "i" + s), fc.constant(null)), previous_response_id: fc.oneof(ident, fc.constant(null)), incomplete_details: fc.constantFrom(null, { reason: "max_output_tokens" }), metadata: fc.constantFrom({ a: "b" }, { team: "x", n: "1" }),
  tools: fc.constantFrom([{ type: "web_search" }], [{ type: "function", name: "f", parameters: {} }, { type: "file_search" }]), reasoning: fc.constantFrom({ effort: "low", summary: null }, { effort: null }), error: fc.constantFrom(null, { code: "server_error", message: "m" }),
}, { requiredKeys: [] });
const ECHO_PARAMS = ["max_output_tokens", "parallel_tool_calls", "store", "temperature", "tool_choice", "top_p", "truncation", "user"];
const ECHO_META = ["instructions", "previous_response_id", "incomplete_details", "tools", "reasoning", "error"];
const callArb = fc.record({
  echo: fc.option(echoArb, { nil: undefined, freq: 2 }),
  choices: fc.constantFrom(1, 1, 1, 2, 3),
  choiceSplit: fc.boolean(),
  reasoning: fc.constantFrom(0, 0, 1, 2),
  repeatName: fc.constantFrom(false, false, true),
  runningUsage: fc.constantFrom(false, false, true),
  promptList: fc.boolean(),
  api: fc.constantFrom("chat", "chat", "chat", "completion", "response", "response", "embedding"),
  stream: fc.boolean(),
  how: fc.constantFrom("ok", "ok", "ok", "ok", "ok", "fail", "failMid", "abandon", "throwSync"),
  at: fc.nat(5),
  err: fc.nat(3),
  delay: fc.nat(30),
  gaps: fc.array(fc.nat(20), { minLength: 1, maxLength: 4 }),
  begin: fc.nat(20),
  text: fc.array(piece, { maxLength: 6 }),
  tools: fc.oneof({ weight: 3, arbitrary: fc.constant([] as any[]) }, { weight: 2, arbitrary: fc.array(toolArb, { minLength: 1, maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(toolArb, { minLength: 9, maxLength: 14 }) }),
  mix: fc.array(fc.nat(99), { minLength: 12, maxLength: 12 }),
  usage: fc.option(usageArb, { nil: undefined }),
  usageOnAll: fc.boolean(),
  params: paramsArb,
  rf: fc.constantFrom(undefined, undefined, { type: "json_object" }, { type: "json_schema", json_schema: { name: "x", schema: {} } }),
  body: jsonValue(2),
  tooling: fc.record({ tools: jsonValue(1), tool_choice: fc.constantFrom("auto", "none", null), functions: jsonValue(1), function_call: fc.constantFrom("auto", "none") }, { requiredKeys: [] }),
  modelSuffix: fc.constantFrom("", "-2024-01-01"),
  respModel: fc.boolean(),
  parent: fc.constantFrom("none", "none", "active"),
});
const cfgArb = fc.record({ generationName: ident, traceName: ident, userId: ident, sessionId: ident, tags: fc.uniqueArray(ident, { maxLength: 3 }), generationMetadata: fc.dictionary(ident.map((k) => "u_" + k), cleanString.filter((s) => s !== ""), { maxKeys: 3, noNullPrototype: true }), langfusePrompt: fc.record({ name: ident, version: fc.nat(9), isFallback: fc.boolean() }), parent: fc.boolean() }, { requiredKeys: [] });
const caseArb = fc.record({ real: fc.constantFrom(false, false, true), cfgs: fc.array(cfgArb, { minLength: 1, maxLength: 2 }), calls: fc.array(callArb, { minLength: 1, maxLength: 5 }) });

// ---------- the model: what the provider says, and what the generation has to show
const rawUsage = (api: string, u: any) => {
  if (!u) return undefined;
  const total = u.i + u.o + u.extra;
  if (api === "embedding") return { prompt_tokens: u.i, total_tokens: u.i };
  if (api === "response") return { input_tokens: u.i, output_tokens: u.o, total_tokens: total, ...(u.di ? { input_tokens_details: u.di } : {}), ...(u.do ? { output_tokens_details: u.do } : {}) };
  return { prompt_tokens: u.i, completion_tokens: u.o, total_tokens: total, ...(u.di ? { prompt_tokens_details: u.di } : u.nulls ? { prompt_tokens_details: null } : {}), ...(u.do ? { completion_tokens_details: u.do } : u.nulls ? { completion_tokens_details: null } : {}) };
};
const wantUsage = (api: string, u: any) => {
  if (!u) return undefined;
  if (api === "embedding") return { input: u.i, output: 0, total: u.i };
  const sum = (o: any) => Object.values(o ?? {}).reduce((a: number, b: any) => a + b, 0);
  const out: any = { input: Math.max(0, u.i - sum(u.di)), output: Math.max(0, u.o - sum(u.do)), total: u.i + u.o + u.extra };
  for (const [k, v] of Object.entries(u.di ?? {})) out["input_" + k] = v;
  for (const [k, v] of Object.entries(u.do ?? {})) out["output_" + k] = v;
  return out;
};
const textOf = (t: any[]) => t.map((x) => x ?? "").join("");
const others = (c: any, f: (j: number) => any) => Array.from({ length: c.choices - 1 }, (_, j) => f(j + 1));
function responseOf(c: any, i: number) {
  const model = c.respModel ? `m${i}${c.modelSuffix}` : undefined;
  const usage = rawUsage(c.api, c.usage);
  const text = textOf(c.text);
  const base: any = { id: `id${i}`, ...(model ? { model } : {}), ...(usage ? { usage } : {}) };
  if (c.api === "embedding") return { body: { ...base, object: "list", data: [{ object: "embedding", index: 0, embedding: [0.25, 1] }] }, output: undefined as any };
  if (c.api === "completion") return { body: { ...base, object: "text_completion", choices: [{ index: 0, text, finish_reason: "stop" }, ...others(c, (j) => ({ index: j, text: `other ${j}`, finish_reason: "stop" }))] }, output: text };
  if (c.api === "chat") {
    const message: any = { role: "assistant", content: c.tools.length ? null : text, ...(c.tools.length ? { tool_calls: c.tools.map((t: any, j: number) => ({ id: `t${j}`, type: "function", function: { name: t.name, arguments: t.parts.join("") } })) } : {}) };
    return { body: { ...base, object: "chat.completion", choices: [{ index: 0, message, finish_reason: "stop" }, ...others(c, (j) => ({ index: j, message: { role: "assistant", content: `other ${j}` }, finish_reason: "length" }))] }, output: message };
  }
  const items: any[] = [];
  for (let j = 0; j < c.reasoning; j++) items.push({ type: "reasoning", id: `r${j}`, summary: [] });
  if (text !== "" || !c.tools.length) items.push({ type: "message", id: "i0", role: "assistant", status: "completed", content: [{ type: "output_text", text, annotations: [] }] });
  c.tools.forEach((t: any, j: number) => items.push({ type: "function_call", id: `f${j}`, call_id: `c${j}`, name: t.name, arguments: t.parts.join("") }));
  return { body: { ...base, ...c.echo, object: "response", status: "completed", output: items, output_text: text }, output: text !== "" ? text : items.length === 1 ? items[0] : items, streamed: items.length === 1 ? items[0] : items };
}
// the chunks of a streamed answer, and how much of the answer each prefix contains
function chunksOf(c: any, i: number): any[] {
  const r = responseOf(c, i);
  const u = (r.body as any).usage;
  const model = `m${i}`;
  const out: any[] = [];
  if (c.api === "response") {
    const { output_text, ...resp } = r.body as any;
    out.push({ type: "response.created", response: { ...resp, status: "in_progress", output: [], usage: null } });
    c.text.forEach((t: any) => out.push({ type: "response.output_text.delta", delta: t ?? "" }));
    c.tools.forEach((t: any) => t.parts.forEach((p: string) => out.push({ type: "response.function_call_arguments.delta", delta: p })));
    out.push({ type: "response.completed", response: resp });
    return out;
  }
  const mk = (choice: any, usage: any = null) => ({ id: `id${i}`, model, choices: choice ? [choice] : [], ...(c.usageOnAll || usage ? { usage } : {}) });
  if (c.api === "completion") c.text.forEach((t: any) => out.push(mk({ index: 0, text: t, finish_reason: null })));
  else {
    out.push(mk({ index: 0, delta: { role: "assistant", ...(c.usageOnAll ? { content: "" } : {}) } }));
    if (!c.tools.length) c.text.forEach((t: any) => out.push(mk({ index: 0, delta: t === undefined ? {} : { content: t } })));
    else {
      // first pieces appear in index order, argument pieces of started calls interleave freely
      const todo = c.tools.map((t: any) => [...t.parts]);
      let started = 0, k = 0;
      const deltas: any[] = [];
      while (started < c.tools.length || todo.some((t: any) => t.length)) {
        const r0 = c.mix[k++ % c.mix.length];
        const ready = todo.map((t: any, j: number) => j).filter((j: number) => j < started && todo[j].length);
        if (started < c.tools.length && (!ready.length || r0 % 2 === 0)) { deltas.push({ index: started, id: `t${started}`, type: "function", function: { name: c.tools[started].name, arguments: "" } }); started++; }
        else if (ready.length) { const j = ready[r0 % ready.length]; deltas.push({ index: j, function: { ...(c.repeatName ? { name: c.tools[j].name } : {}), arguments: todo[j].shift() } }); }
      }
      for (let d = 0; d < deltas.length; ) { const n = c.mix[k++ % c.mix.length] % 4 === 0 ? 2 : 1; out.push(mk({ index: 0, delta: { tool_calls: deltas.slice(d, d + n) } })); d += n; }
    }
    out.push(mk({ index: 0, delta: {}, finish_reason: "stop" }));
  }
  let all = out;
  if (c.choices > 1) {
    // further choices arrive between the pieces of the first, in chunks of their own or in the same chunk
    all = [];
    out.forEach((x, j) => {
      const extra = others(c, (n) => ({ index: n, ...(c.api === "completion" ? { text: `other ${n}` } : { delta: { content: `other ${n}`, ...(c.tools.length ? { tool_calls: [{ index: 0, function: { name: "otherTool", arguments: "{}" } }] } : {}) } }) }));
      const r = c.mix[j % c.mix.length];
      if (c.choiceSplit) { const chunks = extra.map((e) => ({ ...x, choices: [e] })); all.push(...(r % 2 ? [x, ...chunks] : [...chunks, x])); }
      else all.push({ ...x, choices: r % 2 ? [...x.choices, ...extra] : [...extra, ...x.choices] });
    });
  }
  if (c.runningUsage && u) all.forEach((x, j) => { x.usage = { prompt_tokens: u.prompt_tokens, completion_tokens: j, total_tokens: u.prompt_tokens + j }; });
  if (u) all.push(mk(null, u));
  return all;
}
const first = (ch: any) => ch?.choices?.find((x: any) => x.index === 0);
const wantTools = (chunks: any[]) => {
  const by: any[] = [];
  for (const ch of chunks) for (const t of first(ch)?.delta?.tool_calls ?? []) { by[t.index] ??= { name: "", arguments: "" }; if (t.function.name) by[t.index].name = t.function.name; by[t.index].arguments += t.function.arguments ?? ""; }
  return by.length ? { tool_calls: by.map((f) => ({ function: f })) } : undefined;
};
const wantText = (api: string, chunks: any[]) => chunks.map((ch) => (api === "chat" ? first(ch)?.delta?.content : first(ch)?.text) ?? "").join("");

function argsOf(c: any, i: number) {
  const stream = c.stream && c.api !== "embedding";
  const a: any = { model: `m${i}`, ...c.params, ...(stream ? { stream: true } : {}), ...(c.rf ? { response_format: c.rf } : {}) };
  const mark = `mark-${i}`;
  let input: any;
  if (c.api === "chat") { a.messages = [{ role: "user", content: mark, extra: c.body }]; Object.assign(a, c.tooling); input = { messages: a.messages, ...c.tooling }; }
  else if (c.api === "completion") { a.prompt = input = c.promptList ? [mark, show(c.body, 50)] : mark + " " + show(c.body, 50); }
  else a.input = input = c.api === "embedding" ? [mark, "x"] : i % 2 ? mark : [{ role: "user", content: mark, extra: c.body }];
  if (c.api === "response" && c.promptList) a.prompt = { id: "pmpt_" + i, version: "2", variables: { city: "x" } }; // a stored template next to the input
  return { args: a, input };
}

async function run(c: any) {
  const clock = useClock();
  return isolated(async () => {
    const { exporter, processor } = makeTracing();
    const errors = [new Error("provider down"), new TypeError("bad thing"), "plain text", { toString: () => "custom" }];
    const parentCtx = { traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: 1 };
    const idx = (args: any) => Number(/^m(\d+)/.exec(args.model)![1]);
    const firstChunk: (number | undefined)[] = [];
    const settled: number[] = [];
    // stand-in for the client: timing under our control
    const method = (api: string) => (args: any) => {
      const i = idx(args), k = c.calls[i];
      if (k.how === "throwSync") throw errors[k.err];
      return (async () => {
        if (k.delay) await clock.sleep(k.delay);
        if (k.how === "fail") throw errors[k.err];
        if (!args.stream) return responseOf(k, i).body;
        const ch = chunksOf(k, i);
        return (async function* () {
          for (let j = 0; j < ch.length; j++) {
            const g = k.gaps[j % k.gaps.length];
            if (g) await clock.sleep(g);
            if (k.how === "failMid" && j === k.at % (ch.length + 1)) throw errors[k.err];
            firstChunk[i] ??= clock.now;
            yield ch[j];
          }
          if (k.how === "failMid" && k.at % (ch.length + 1) === ch.length) throw errors[k.err];
        })();
      })();
    };
    class Completions { create(a: any) { return method("chat")(a); } }
    class OpenAIStub { chat = { completions: new Completions() }; completions = { create: method("completion") }; responses = { create: method("response") }; embeddings = { create: method("embedding") }; }
    new FakeNet((r) => {
      const i = idx(r.json), k = c.calls[i];
      if (k.how === "fail") return { status: [400, 401, 429, 500][k.err], json: { error: { message: `refused ${i}` } }, delay: k.delay };
      if (!r.json.stream) return { json: responseOf(k, i).body, delay: k.delay };
      return { text: chunksOf(k, i).map((x) => (x.type ? `event: ${x.type}\n` : "") + `data: ${JSON.stringify(x)}\n\n`).join("") + "data: [DONE]\n\n", headers: { "content-type": "text/event-stream" }, delay: k.delay };
    }).install();
    const sdk: any = c.real ? new OpenAI({ apiKey: "k", baseURL: "http://openai.test/v1", maxRetries: 0, fetch: globalThis.fetch as any, dangerouslyAllowBrowser: true }) : new OpenAIStub();
    const cfgOf = (x: any) => { const { parent, ...rest } = x; return { ...rest, ...(parent ? { parentSpanContext: parentCtx } : {}) }; };
    const given = c.cfgs.map(cfgOf), before = structuredClone(given);
    const wrapped = given.map((x: any) => observeOpenAI(sdk, x));
    const outcome: any[] = [];
    const parents: any[] = [];
    const one = async (k: any, i: number) => {
      if (k.begin) await clock.sleep(k.begin);
      const cl = wrapped[i % wrapped.length];
      const { args } = argsOf(k, i);
      const call = () => (k.api === "chat" ? cl.chat.completions : k.api === "completion" ? cl.completions : k.api === "response" ? cl.responses : cl.embeddings).create(args);
      const o: any = (outcome[i] = { start: clock.now, got: [] });
      let p: any;
      try {
        if (k.parent === "active") { const par = (parents[i] = startObservation(`parent-${i}`)); try { p = context.with(trace.setSpan(context.active(), par.otelSpan), call); } finally { par.end(); } } else p = call();
        const res = await p;
        if (!args.stream) { o.result = res; return; }
        for await (const x of res) { o.got.push(x); if (k.how === "abandon" && o.got.length > k.at) { o.abandoned = true; break; } }
      } catch (e) { o.error = e; } finally { o.end = clock.now; }
    };
    await clock.drive(Promise.all(c.calls.map(one)), { what: "calls" });
    await clock.drive(processor.forceFlush());
    const gens = exporter.spans.filter((s) => s.attributes[A.type] === "generation");
    same(gens.length, c.calls.length, "finished generations");
    same(exporter.spans.length, c.calls.length + parents.filter(Boolean).length, "exported observations");
    let streams = 0;
    same(given, before, "configuration objects of the application");
    const defaultNames: Record<string, Set<string>> = {};
    c.calls.forEach((k: any, i: number) => {
      const mine = gens.filter((s) => String(s.attributes[A.input]).includes(`mark-${i}`));
      same(mine.length, 1, `generations of call ${i}`);
      const s = mine[0], at = s.attributes, o = outcome[i], cfg = c.cfgs[i % c.cfgs.length];
      const { args, input } = argsOf(k, i);
      const match = (got: any, want: any, what: string) => (typeof want === "string" || want === undefined ? same(got, want, what) : (ensure(typeof got === "string", () => `${what}: ${show(got)}`), same(JSON.parse(got), JSON.parse(JSON.stringify(want)), what)));
      match(at[A.input], input, `input of call ${i}`);
      // parameters
      const resp = responseOf(k, i);
      const pj = JSON.parse(at[A.params] ?? "{}");
      // the Responses API repeats the parameters it used: once known, those are the invocation's
      const reported = k.api === "response" && (args.stream ? o.got.length > 0 : o.error === undefined);
      const used = Object.fromEntries(ECHO_PARAMS.filter((p) => reported && k.echo?.[p] !== undefined && k.echo[p] !== null).map((p) => [p, k.echo[p]]));
      if (Object.keys(used).length) { for (const p of Object.keys(used)) same(pj[p], used[p], `parameter ${p} reported by the response of call ${i}`); }
      else {
        for (const p of Object.keys(k.params)) same(pj[p], JSON.parse(JSON.stringify(k.params[p])), `model parameter ${p} of call ${i}`);
        for (const p of Object.keys(pj)) ensure(p in k.params || p === "response_format" || (p === "stream" && args.stream), () => `model parameter ${p} that was never given`);
        if (args.stream) same(pj.stream, true, "stream parameter");
      }
      for (const p of ECHO_META) match(at[A.meta + p], (reported ? k.echo?.[p] : undefined) ?? undefined, `${p} reported by the response of call ${i}`);
      if (k.rf) match(at[A.meta + "response_format"], k.rf, "response format in metadata");
      else same(at[A.meta + "response_format"], undefined, "response format");
      for (const [mk, mv] of Object.entries(cfg.generationMetadata ?? {})) same(at[A.meta + mk], mv, `metadata ${mk}`);
      // configuration
      if (cfg.generationName) same(s.name, cfg.generationName, "generation name");
      else (defaultNames[k.api] ??= new Set()).add(s.name);
      ensure(s.name.length > 0, "empty generation name");
      same(at["user.id"], cfg.userId, "user id"); same(at["session.id"], cfg.sessionId, "session id"); same(at["langfuse.trace.name"], cfg.traceName, "trace name");
      same(at["langfuse.trace.tags"] ?? [], cfg.tags ?? [], "tags");
      const linked = cfg.langfusePrompt && !cfg.langfusePrompt.isFallback;
      same(at[A.pname], linked ? cfg.langfusePrompt.name : undefined, "prompt name"); same(at[A.pver], linked ? cfg.langfusePrompt.version : undefined, "prompt version");
      // parent
      if (cfg.parent) { same(s.traceId, parentCtx.traceId, "trace of configured parent"); same(s.parentId, parentCtx.spanId, "configured parent"); }
      else if (parents[i]) { same(s.traceId, parents[i].traceId, "trace of active parent"); same(s.parentId, parents[i].id, "active parent"); }
      else same(s.parentId, undefined, "root generation");
      // times
      same(s.startMs, o.start, `start of call ${i}`);
      same(s.endMs, Math.max(o.end, o.start), `end of call ${i}`);
      // outcome
      if (o.error !== undefined) {
        same(at[A.level], "ERROR", `level of failed call ${i}`);
        same(at[A.msg], String(o.error), `status message of failed call ${i}`);
      } else { same(at[A.level] ?? "DEFAULT", "DEFAULT", `level of call ${i}`); same(at[A.msg], undefined, "status message"); }
      if (!args.stream) {
        same(at[A.cst], undefined, "first-token time of a call without stream");
        if (o.error !== undefined) { same(at[A.output], undefined, "output of a failed call"); same(at[A.model], `m${i}`, "model"); return; }
        same(at[A.model], k.respModel ? `m${i}${k.modelSuffix}` : `m${i}`, `model of call ${i}`);
        if (resp.output !== undefined) { const w = resp.output; match(at[A.output], w, `output of call ${i}`); }
        same(at[A.usage] === undefined ? undefined : JSON.parse(at[A.usage]), wantUsage(k.api, k.usage), `usage of call ${i}`);
        return;
      }
      streams++;
      if (o.error !== undefined && o.got.length === 0 && k.how !== "failMid") { same(at[A.model], `m${i}`, "model"); return; }
      const complete = o.error === undefined && !o.abandoned;
      if (k.api === "response") {
        if (complete) { const w = (resp as any).streamed; match(at[A.output], w, `output of streamed response ${i}`); same(at[A.usage] === undefined ? undefined : JSON.parse(at[A.usage]), wantUsage(k.api, k.usage), `usage of streamed response ${i}`); same(at[A.model], k.respModel ? `m${i}${k.modelSuffix}` : `m${i}`, "model"); }
      } else {
        same(at[A.model], `m${i}`, "model");
        const tools = wantTools(o.got);
        match(at[A.output], tools ?? wantText(k.api, o.got), `output of streamed call ${i} after ${o.got.length} chunks`);
        if (complete) same(at[A.usage] === undefined ? undefined : JSON.parse(at[A.usage]), wantUsage(k.api, k.usage), `usage of streamed call ${i}`);
      }
      if (!c.real) same(at[A.cst] === undefined ? undefined : JSON.parse(at[A.cst]), firstChunk[i] === undefined ? undefined : new Date(firstChunk[i]!).toISOString(), `first-token time of call ${i}`);
    });
    // without a configured name, calls are named after the method they used, whatever was called before
    for (const [api, names] of Object.entries(defaultNames)) same(names.size, 1, `default names of ${api} calls: ${[...names]}`);
    const uniq = new Set(Object.values(defaultNames).map((n) => [...n][0]));
    same(uniq.size, Object.keys(defaultNames).length, `default names shared by different APIs: ${[...uniq]}`);
    return { nontrivial: c.calls.length > 1 || streams > 0, labels: [c.real ? "real client" : "stub", ...c.calls.map((k: any) => k.api + (k.stream ? " stream" : "") + " " + k.how), c.calls.some((k: any) => k.tools.length > 1 && k.stream) && "several tool calls"] };
  });
}
// long streams: thousands of chunks reassemble to the whole text or the whole arguments
const longArb = fc.record({ n: fc.integer({ min: 500, max: 6000 }), tools: fc.boolean(), len: fc.integer({ min: 1, max: 8 }) });
async function long(c: any) {
  useClock();
  return isolated(async () => {
    const { exporter, processor } = makeTracing();
    const piece = (j: number) => `${j}-`.padEnd(c.len, "x");
    const client: any = { chat: { completions: { create: async () => (async function* () {
      for (let j = 0; j < c.n; j++) yield { choices: [{ index: 0, delta: c.tools ? { tool_calls: [{ index: 0, ...(j ? {} : { id: "t" }), function: { ...(j ? {} : { name: "tool" }), arguments: piece(j) } }] } : { content: piece(j) } }] };
    })() } } };
    let got = 0;
    for await (const _ of await observeOpenAI(client).chat.completions.create({ model: "m", messages: [], stream: true })) got++;
    same(got, c.n, "chunks passed on");
    await processor.forceFlush();
    same(exporter.spans.length, 1, "generations");
    const whole = Array.from({ length: c.n }, (_, j) => piece(j)).join("");
    const out = exporter.spans[0].attributes[A.output];
    const text = c.tools ? JSON.parse(out).tool_calls[0].function.arguments : out;
    ensure(text === whole, () => `a stream of ${c.n} chunks reassembled to ${String(text).length} characters instead of ${whole.length}`);
    return { nontrivial: c.n > 1000, labels: [c.tools ? "long tool call" : "long text"] };
  });
}
main({
  assumptions: ["tool calls of one streamed answer first appear in index order, as the OpenAI API sends them", "only the first choice of an answer is recorded", "methods that return neither a promise nor a stream are outside the property"],
  subs: [{ name: "generations", arb: caseArb, run, quick: 5000, thorough: 60000, rule: "more than one call, or a streamed call" }, { name: "long streams", arb: longArb, run: long, quick: 25, thorough: 400, rule: "over 1000 chunks" }],
});
