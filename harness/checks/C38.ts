import fc from "fast-check";
import { main, ensure, same, show, fail } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet, type Req } from "../lib/net";
import { anyString, jsonValue, cleanString, ident, opt } from "../lib/arbs";
import { segment } from "../lib/api";
import { LangfuseClient, TextPromptClient, ChatPromptClient } from "@langfuse/client";

const name = fc.oneof(segment, ident, fc.constantFrom("folder/sub/p", "ü ?&=#%", "a:b"));
const text = fc.oneof(anyString, fc.constantFrom("", "Hello {{x}}", "{{{y}}}", "line\r\nline", "<b>&amp;</b>", "{\"a\": 1}"));
const role = fc.oneof(fc.constantFrom("system", "user", "assistant", "tool", "developer"), anyString);
const message = fc.oneof(
  { weight: 4, arbitrary: fc.record({ role, content: text, type: opt(fc.constant("chatmessage")), extra: opt(fc.dictionary(fc.constantFrom("name", "tool_call_id", "tool_calls", "x"), jsonValue(1), { maxKeys: 2, noNullPrototype: true })) }).map(({ role, content, type, extra }: any) => ({ ...(type ? { type } : {}), role, content, ...extra })) },
  { weight: 2, arbitrary: fc.record({ type: fc.constant("placeholder"), name: fc.oneof(ident, anyString) }) },
);
const messages = fc.oneof({ weight: 8, arbitrary: fc.array(message, { maxLength: 5 }) }, { weight: 1, arbitrary: fc.array(message, { minLength: 10, maxLength: 40 }) });
const common = {
  labels: fc.uniqueArray(fc.oneof(ident, cleanString), { maxLength: 3 }),
  tags: fc.uniqueArray(anyString, { maxLength: 3 }),
  config: jsonValue(2),
  commitMessage: anyString,
};
const createArb = fc.oneof(
  fc.record({ name, prompt: text, type: fc.constant("text"), ...common }, { requiredKeys: ["name", "prompt"] }),
  fc.record({ name, prompt: messages, type: fc.constant("chat"), ...common }, { requiredKeys: ["name", "prompt", "type"] }),
);
const status = fc.constantFrom(200, 200, 200, 200, 200, 201, 400, 401, 403, 404, 409, 500);
/** what the server stores and answers with: any prompt, independent of what was asked */
const answer = fc.record({
  chat: fc.boolean(), name, version: fc.integer({ min: 1, max: 10_000 }), text, messages, legacy: fc.boolean(),
  labels: common.labels, tags: common.tags, config: jsonValue(2), commitMessage: fc.option(anyString, { nil: null }), graph: fc.boolean(),
});
type Case = any;
const caseArb = fc.record({
  op: fc.oneof(
    { weight: 5, arbitrary: fc.record({ t: fc.constant("create"), body: createArb }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant("update"), name, version: fc.nat(10_000), newLabels: fc.uniqueArray(fc.oneof(ident, cleanString), { maxLength: 4 }) }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant("delete"), name, opts: fc.option(fc.record({ version: fc.nat(10_000), label: fc.oneof(ident, cleanString) }, { requiredKeys: [] }), { nil: undefined }) }) },
    { weight: 3, arbitrary: fc.record({ t: fc.constant("get"), name, opts: fc.oneof(fc.constant({}), fc.record({ version: fc.integer({ min: 1, max: 10_000 }) }), fc.record({ label: ident })) }) },
  ),
  status, answer, legacy: fc.boolean(),
});

async function run(c: Case) {
  const clock = useClock();
  const a = c.answer;
  const stored: any = { name: a.name, version: a.version, type: a.chat ? "chat" : "text", labels: a.labels, tags: a.tags, config: a.config, commitMessage: a.commitMessage, prompt: a.chat ? a.messages.map((m: any) => (m.type === "placeholder" ? m : a.legacy ? (({ type: _t, ...r }) => r)(m) : { ...m, type: "chatmessage" })) : a.text, ...(a.graph ? { resolutionGraph: null } : {}) };
  const net = new FakeNet(() => (c.status >= 300 ? { status: c.status, json: { message: "refused" } } : c.op.t === "delete" ? { status: 204 } : { status: c.status, json: stored })).install();
  const lf = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const o = c.op;
  const arg: any = o.t === "create" ? structuredClone(o.body) : o.t === "update" ? { name: o.name, version: o.version, newLabels: [...o.newLabels] } : o.opts && { ...o.opts };
  const before = JSON.stringify(arg) + Object.keys(arg ?? {}).join();
  const call = () =>
    o.t === "create" ? (c.legacy ? lf.createPrompt(arg) : lf.prompt.create(arg)) : o.t === "update" ? (c.legacy ? lf.updatePrompt(arg) : lf.prompt.update(arg)) : o.t === "delete" ? (arg === undefined ? lf.prompt.delete(o.name) : lf.prompt.delete(o.name, arg)) : c.legacy ? lf.getPrompt(o.name, { ...arg, maxRetries: 0 }) : lf.prompt.get(o.name, { ...arg, maxRetries: 0 });
  const r: any = await clock.drive(Promise.resolve().then(call as any).then((v: any) => ({ v }), (e: any) => ({ e })), { what: o.t });
  same(JSON.stringify(arg) + Object.keys(arg ?? {}).join(), before, "the caller's arguments after the call");
  const ok = c.status < 300;
  ensure(net.reqs.length >= 1, "no request was sent");
  if (c.status !== 500) same(net.reqs.length, 1, "requests");
  for (const q of net.reqs) checkRequest(o, q);
  if (!ok) {
    ensure("e" in r && r.e instanceof Error, () => `a refused ${o.t} (status ${c.status}) resolved with ${show(r)}`);
    same(r.e.statusCode, c.status, "status carried by the error");
    return { nontrivial: true, labels: [o.t, "refused"] };
  }
  if ("e" in r) fail(`${o.t} rejected: ${show(r.e)}`);
  if (o.t === "delete") same(r.v, undefined, "result of delete");
  else if (o.t === "update") same(r.v, stored, "result of update");
  else {
    const p = r.v;
    ensure(p instanceof (a.chat ? ChatPromptClient : TextPromptClient), "kind of the returned prompt");
    for (const k of ["name", "version", "labels", "tags", "config", "commitMessage", "type"]) same(p[k], stored[k], `field ${k} of the returned prompt`);
    same(p.isFallback, false, "isFallback");
    const typed = a.chat ? stored.prompt.map((m: any) => (m.type === "placeholder" ? m : { ...m, type: "chatmessage" })) : stored.prompt;
    same(p.prompt, typed, "content of the returned prompt");
    const plain = a.chat ? stored.prompt.map((m: any) => (m.type === "placeholder" ? m : (({ type: _t, ...x }) => x)(m))) : stored.prompt;
    same(JSON.parse(p.toJSON()), { name: stored.name, prompt: plain, version: stored.version, isFallback: false, tags: stored.tags, labels: stored.labels, type: stored.type, config: stored.config }, "serialised form");
    same(JSON.parse(p.toJSON()), JSON.parse(JSON.parse(JSON.stringify(p))), "JSON.stringify of the prompt");
  }
  return { nontrivial: true, labels: [o.t, a.chat ? "chat answer" : "text answer"] };
}
function checkRequest(o: any, q: Req) {
  const noQuery = () => same([...q.query.keys()], [], "query");
  if (o.t === "create") {
    same(q.method + " " + q.path, "POST /api/public/v2/prompts", "request");
    noQuery();
    const b = o.body;
    const want = { ...b, type: b.type ?? "text" };
    if (b.type === "chat") want.prompt = b.prompt.map((m: any) => (m.type === "placeholder" ? { type: "placeholder", name: m.name } : { ...m, type: "chatmessage" }));
    same(q.json, JSON.parse(JSON.stringify(want)), "body of the create request");
    return;
  }
  const seg = q.path.split("/");
  same(decodeURIComponent(seg[5] ?? ""), o.name, "prompt name in the path");
  if (o.t === "update") {
    same([q.method, seg.slice(0, 5).join("/"), seg.slice(6)], ["PATCH", "/api/public/v2/prompts", ["versions", String(o.version)]], "request");
    noQuery();
    same(q.json, { newLabels: o.newLabels }, "body of the update request");
  } else {
    same([q.method, seg.slice(0, 5).join("/"), seg.length], [o.t === "delete" ? "DELETE" : "GET", "/api/public/v2/prompts", 6], "request");
    const want: Record<string, string> = {};
    for (const k of ["version", "label"]) if (o.opts?.[k] !== undefined) want[k] = String(o.opts[k]);
    same(Object.fromEntries(q.query), want, "query");
    same(q.json, undefined, "body");
  }
}
main({
  subs: [{ name: "writes", arb: caseArb, run, quick: 12000, thorough: 150_000, rule: "one create, update, delete or get with arbitrary fields against a server that accepts or refuses; always non-trivial" }],
  assumptions: ["the server answers with a prompt document of the documented shape"],
});
