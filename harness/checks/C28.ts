import { main, ensure, same, show } from "../lib/runner";
import { histArb, playHistory, A, checkMsg, checkVal } from "../lib/langchain";

async function run(c: any) {
  const h = await playHistory(c);
  let gens = 0, linked = 0, detailed = 0;
  for (const r of h.runs) {
    const s = h.span(r);
    if (!s) continue;
    const nd = r.node, at = s.attributes, what = `run ${r.n} (${nd.kind})`;
    // metadata of the run, without the SDK's own keys
    const meta = r.meta ?? {};
    for (const k of ["langfusePrompt", "langfuseUserId", "langfuseSessionId"]) ensure(!Object.keys(at).some((a) => a.startsWith(A.meta) && a.includes(k)), () => `${what} exposes ${k} as metadata`);
    for (const [k, v] of Object.entries(meta)) if (!k.startsWith("langfuse")) checkVal(at[A.meta + k], v, `metadata ${k} of ${what}`);
    for (const k of Object.keys(at)) if (k.startsWith(A.meta)) ensure(k === A.meta + "tags" || k.slice(A.meta.length) in meta, () => `${what} has metadata ${k} that was never given`);
    if (nd.tags?.length) checkVal(at[A.meta + "tags"], nd.tags, `tags of ${what}`);
    same(at["langfuse.version"], h.cfg.version, `version of ${what}`);
    // trace level data on the root run
    if (r.root) {
      same(at["user.id"], typeof meta.langfuseUserId === "string" ? meta.langfuseUserId : h.cfg.userId, `user of ${what}`);
      same(at["session.id"], typeof meta.langfuseSessionId === "string" ? meta.langfuseSessionId : h.cfg.sessionId, `session of ${what}`);
      same([...(at["langfuse.trace.tags"] ?? [])].sort(), [...new Set([...(nd.tags ?? []), ...(h.cfg.tags ?? [])])].sort(), `trace tags of ${what}`);
      for (const [k, v] of Object.entries(h.cfg.traceMetadata ?? {})) if (v === "UNJSON") continue; else checkVal(at[A.tmeta + k], typeof v === "string" ? v : JSON.stringify(v), `trace metadata ${k} of ${what}`);
      for (const k of Object.keys(at)) if (k.startsWith(A.tmeta)) ensure(k.slice(A.tmeta.length) in (h.cfg.traceMetadata ?? {}), () => `${what}: trace metadata ${k} was never given`);
    }
    else if (r.parent) {
      // a nested run never brings trace data of its own
      let top = r.parent;
      while (top.parent) top = top.parent;
      const rs = h.span(top);
      if (rs) for (const k of ["user.id", "session.id", "langfuse.trace.tags"]) if (at[k] !== undefined) same(at[k], rs.attributes[k], `${k} of nested ${what}`);
    }
    if (nd.kind !== "llm" && nd.kind !== "chat") {
      for (const k of [A.model, A.params, A.usage, A.pname, A.pver, A.cst]) same(at[k], undefined, `${k} on ${what}`);
      continue;
    }
    gens++;
    const g = nd.gen;
    const inv = g.inv === "full" || g.inv === "nomodel";
    // model
    const asked = g.inv === "full" ? `model-${r.n}` : undefined;
    const ls = r.meta?.ls_model_name;
    const answered = !r.failed && !nd.nullOut && nd.kind === "chat" && g.respModel ? `resp-${r.n}` : undefined;
    if (g.inv !== "noextra" || answered) same(at[A.model], answered ?? asked ?? ls, `model of ${what}`);
    // parameters
    const params = at[A.params] === undefined ? {} : JSON.parse(at[A.params]);
    same(params, inv ? Object.fromEntries(Object.entries(g.params).filter(([, v]) => v !== null)) : {}, `model parameters of ${what}`);
    // input
    const raw = JSON.parse(at[A.input]);
    const wrapped = inv && (g.tools !== undefined || g.choice !== undefined);
    const list = wrapped ? raw.messages : raw;
    if (wrapped) { same(raw.tools, g.tools, `tools of ${what}`); same(raw.tool_choice, g.choice, `tool choice of ${what}`); }
    ensure(Array.isArray(list), () => `input of ${what}: ${show(raw)}`);
    if (nd.kind === "llm") same(list, r.input, `prompts of ${what}`);
    else { same(list.length, r.inMsgs!.length, `number of messages of ${what}`); r.inMsgs!.forEach((m, i) => checkMsg(list[i], m, `${what} message ${i}`)); }
    // prompt
    const p = r.prompt && !r.prompt.isFallback ? r.prompt : undefined;
    if (p) linked++;
    same(at[A.pname], p?.name, `prompt name of ${what}`);
    same(at[A.pver], p?.version, `prompt version of ${what}`);
    if (r.failed) continue;
    // first token
    same(at[A.cst] === undefined ? undefined : JSON.parse(at[A.cst]), r.firstToken === undefined ? undefined : new Date(r.firstToken).toISOString(), `first-token time of ${what}`);
    // usage
    const usage = at[A.usage] === undefined ? {} : JSON.parse(at[A.usage]);
    let want: any = {};
    const src = nd.nullOut ? "none" : nd.kind === "llm" ? (g.usage === "none" ? "none" : "tokenUsage") : g.usage;
    if (src === "tokenUsage") want = { input: g.u.i, output: g.u.o, ...(g.partial ? {} : { total: g.u.t }) };
    else if (src !== "none") {
      const sum = (o: any) => Object.values(o ?? {}).reduce((a: number, b: any) => a + b, 0);
      want = { input: Math.max(0, g.u.i - sum(g.u.di)), output: Math.max(0, g.u.o - sum(g.u.do)), ...(g.partial ? {} : { total: g.u.t }) };
      for (const [k, v] of Object.entries(g.u.di ?? {})) want["input_" + k] = v;
      for (const [k, v] of Object.entries(g.u.do ?? {})) want["output_" + k] = v;
      if (g.u.di || g.u.do) detailed++;
    }
    same(usage, want, `usage of ${what}`);
  }
  return { nontrivial: gens > 0, labels: [linked > 0 && "prompt linked", detailed > 0 && "usage details", gens > 1 && "several generations"] };
}
main({
  assumptions: ["messages are compared by role, content, tool calls and legacy function calls", "of several completions of one model run the last one is recorded", "children start while their parent run is active"],
  subs: [{ name: "generations", arb: histArb({ kinds: ["chain", "chain", "chain", "agent", "llm", "chat", "chat", "chat", "chat", "tool", "retriever"], malformed: false }), run, quick: 2000, thorough: 30000, rule: "at least one model run" }],
});
