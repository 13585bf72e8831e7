import fc from "fast-check";
import { main, ensure, same, show } from "../lib/runner";
import { anyString, jsonValue, opt } from "../lib/arbs";
import { TextPromptClient, ChatPromptClient } from "@langfuse/client";

const NAMES = ["x", "y", "name", "user_name", "a1", "X", "xx", "_u", "x-y", "höhe", "constructor", "length", "role", "content", "type", "version", "variables", "prompt"];
const varName = fc.constantFrom(...NAMES);
const value: fc.Arbitrary<any> = fc.oneof(
  { weight: 3, arbitrary: anyString },
  { weight: 1, arbitrary: fc.constantFrom<any>(0, 1, -1.5, 1e21, false, true) },
  { weight: 3, arbitrary: fc.constantFrom("", "{{x}}", "{{{y}}}", "{{#x}}", "<b>&\"'/`=</b>", "$&", "$1", "a\nb", "{\"a\": 1}", "{x}", "\\", "0", "{{", "}}", "false", "&amp;") },
);
type Seg = { lit: string } | { v: string; pre: string; post: string; triple?: boolean };
/** literal text: anything that does not form or touch a tag opening */
const lit = fc
  .oneof(
    { weight: 3, arbitrary: anyString },
    { weight: 3, arbitrary: fc.constantFrom("Hello ", "\n", " ", "}", "}}", "{ ", "{\"k\": [1, {\"z\": null}]}", "{single}", "\n\n  ", "\t", "<div class=\"a\">&nbsp;</div>", "$x", "%s", "a{b}c", "=<% %>=", "\r\n") },
  )
  .map((s) => s.replace(/\{(?=\{)/g, "{ ").replace(/\{+$/, "{ "));
const seg: fc.Arbitrary<Seg> = fc.oneof(
  { weight: 3, arbitrary: fc.record({ lit }) },
  { weight: 3, arbitrary: fc.record({ v: varName, pre: fc.constantFrom("", "", " ", "  "), post: fc.constantFrom("", "", " "), triple: fc.constantFrom(false, false, false, false, true) }) },
) as any;
const template = fc.oneof({ weight: 12, arbitrary: fc.array(seg, { maxLength: 8 }) }, { weight: 1, arbitrary: fc.array(seg, { minLength: 20, maxLength: 60 }) });
function src(t: Seg[]): string {
  let out = "";
  for (const s of t) {
    if ("lit" in s) {
      // two literals must not meet to form a tag opening
      out += out.endsWith("{") && s.lit.startsWith("{") ? " " + s.lit : s.lit;
    } else out += s.triple ? `{{{${s.pre}${s.v}${s.post}}}}` : `{{${s.pre}${s.v}${s.post}}}`;
  }
  return out;
}
function expected(t: Seg[], vars: Record<string, any>): string {
  let out = "";
  let raw = "";
  for (const s of t) {
    if ("lit" in s) {
      const l = raw.endsWith("{") && s.lit.startsWith("{") ? " " + s.lit : s.lit;
      raw += l;
      out += l;
    } else {
      raw += "}";
      out += Object.hasOwn(vars, s.v) && vars[s.v] != null ? String(vars[s.v]) : "";
    }
  }
  return out;
}
const needs = (t: Seg[]) => t.flatMap((s) => ("v" in s ? [s.v] : []));
/** a variable that is not supplied renders as empty text; names living on Object.prototype are always supplied */
const varsFor = fc.dictionary(varName, value, { maxKeys: 8, noNullPrototype: true }).map((v) => ({ constructor: "ctor", length: "len", ...v }) as Record<string, string>);

const base = { version: 3, config: { temperature: 0.5 }, labels: ["production"], tags: ["t"] };

function runText(c: { t: Seg[]; vars: Record<string, string>; again: Record<string, string>; ph: any }) {
  const s = src(c.t);
  const p = new TextPromptClient({ ...base, name: "n", type: "text", prompt: s } as any);
  const before = JSON.stringify(p);
  const varsBefore = JSON.stringify(c.vars);
  const a = p.compile(c.vars);
  same(a, expected(c.t, c.vars), `compile of ${show(s)}`);
  same(p.compile(c.again, c.ph), expected(c.t, c.again), "compile with other variables");
  same(p.compile(c.vars), a, "compiling a second time");
  if (!needs(c.t).some((v) => v === "constructor" || v === "length")) {
    same(p.compile(), expected(c.t, {}), "compile without variables");
  }
  same(JSON.stringify(p), before, "prompt after compile");
  same(JSON.stringify(c.vars), varsBefore, "variables after compile");
  same(p.prompt, s, "prompt text");
  return { nontrivial: needs(c.t).length > 0 && c.t.some((x) => "lit" in x), labels: [needs(c.t).length > new Set(needs(c.t)).size && "repeated variable", Object.values(c.vars).some((v) => String(v).includes("{{")) && "value looks like a tag"] };
}

type Msg = { k: "msg"; role: string; t: Seg[]; legacy: boolean } | { k: "ph"; name: string };
const phName = fc.constantFrom("history", "examples", "h1", "Z", "History", "h 1", "", "constructor", "toString");
const msg: fc.Arbitrary<Msg> = fc.oneof(
  { weight: 3, arbitrary: fc.record({ k: fc.constant("msg" as const), role: fc.oneof(fc.constantFrom("system", "user", "assistant", "tool"), anyString), t: template, legacy: fc.boolean() }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("ph" as const), name: phName }) },
);
const phMsg = fc.record({ role: fc.constantFrom("user", "assistant", "x"), t: template, extra: opt(jsonValue(1)), fields: fc.dictionary(fc.constantFrom("name", "tool_calls", "tool_call_id", "refusal", "type", "id", "function_call"), fc.oneof(fc.constantFrom<any>([], null, "", 0, false, "chatmessage", "placeholder", "x", "{{x}}"), fc.constant([{ id: "c1", type: "function", function: { name: "f", arguments: "{}" } }])), { maxKeys: 2, noNullPrototype: true }), nonString: fc.constantFrom(false, false, false, true) });
type PhVal = { k: "msgs"; m: any[] } | { k: "other"; v: any } | { k: "absent" };
const phVal: fc.Arbitrary<PhVal> = fc.oneof(
  { weight: 4, arbitrary: fc.record({ k: fc.constant("msgs" as const), m: fc.array(phMsg, { maxLength: 3 }) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("other" as const), v: fc.oneof(anyString, fc.integer(), fc.constantFrom(null, false, 0, "", [1], [null], ["s"], [{ role: "user" }], [{ content: "x" }], [{ role: "user", content: "a" }, null], [{ role: "user", content: "a" }, "b"], { role: "user", content: "x" })) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("absent" as const) }) },
);
function runChat(c: { msgs: Msg[]; vars: Record<string, string>; phs: Record<string, PhVal>; noPh: boolean }) {
  const raw = c.msgs.map((m) =>
    m.k === "ph" ? { type: "placeholder", name: m.name } : m.legacy ? { role: m.role, content: src(m.t) } : { type: "chatmessage", role: m.role, content: src(m.t) },
  );
  const rawBefore = JSON.stringify(raw);
  const p = new ChatPromptClient({ ...base, name: "n", type: "chat", prompt: raw } as any);
  const before = JSON.stringify(p);
  const phs: Record<string, any> = {};
  for (const [k, v] of Object.entries(c.phs)) {
    if (v.k === "msgs")
      phs[k] = v.m.map((m) => ({ role: m.role, content: m.nonString ? [{ type: "text", text: src(m.t) }] : src(m.t), ...(m.extra !== undefined ? { extra: m.extra } : {}), ...structuredClone(m.fields) }));
    else if (v.k === "other") phs[k] = v.v;
  }
  const phBefore = JSON.stringify(phs);
  const exp = (vars: Record<string, string>, given: boolean) => {
    const out: any[] = [];
    for (const m of c.msgs) {
      if (m.k === "msg") out.push({ role: m.role, content: expected(m.t, vars) });
      else {
        const v = given ? (Object.hasOwn(c.phs, m.name) ? c.phs[m.name] : undefined) : undefined;
        if (!v || v.k === "absent" || (v.k === "other" && v.v === undefined)) out.push({ type: "placeholder", name: m.name });
        else if (v.k === "msgs")
          for (const x of v.m)
            out.push({ role: x.role, content: x.nonString ? [{ type: "text", text: src(x.t) }] : expected(x.t, vars), ...(x.extra !== undefined ? { extra: x.extra } : {}), ...x.fields });
        else out.push(JSON.stringify(v.v));
      }
    }
    return out;
  };
  if (!c.msgs.some((m) => m.k === "msg" && needs(m.t).some((v) => v === "constructor" || v === "length")) && !Object.values(c.phs).some((v) => v.k === "msgs" && v.m.some((m) => needs(m.t).some((x: string) => x === "constructor" || x === "length")))) {
    same(p.compile(), exp({}, false), "messages compiled without variables");
    same(p.compile(undefined, phs), exp({}, true), "messages compiled with placeholders only");
  }
  const got = c.noPh ? p.compile(c.vars) : p.compile(c.vars, phs);
  same(got, exp(c.vars, !c.noPh), "compiled messages");
  // mutating the result must not reach the prompt
  for (const g of got) if (g && typeof g === "object" && "role" in g && typeof (g as any).content === "string") (g as any).content = "MUTATED";
  same(c.noPh ? p.compile(c.vars) : p.compile(c.vars, phs), exp(c.vars, !c.noPh), "messages compiled a second time");
  same(JSON.stringify(p), before, "prompt after compile");
  same(JSON.stringify(raw), rawBefore, "source messages after compile");
  same(JSON.stringify(phs), phBefore, "placeholder values after compile");
  const used = c.msgs.filter((m) => m.k === "ph").length;
  return { nontrivial: c.msgs.length >= 2 && (used > 0 || c.msgs.some((m) => m.k === "msg" && needs(m.t).length > 0)), labels: [used > 0 && "has placeholder", used > 0 && !c.noPh && Object.keys(phs).length > 0 && "placeholders supplied"] };
}

main({
  subs: [
    { name: "text", arb: fc.record({ t: template, vars: varsFor, again: varsFor, ph: fc.constantFrom(undefined, { history: [] }) }), run: runText, quick: 12_000, thorough: 500_000, rule: "templates of literal text and variable tags with adversarial values; non-trivial = at least one variable and one literal" },
    { name: "chat", arb: fc.record({ msgs: fc.oneof({ weight: 15, arbitrary: fc.array(msg, { maxLength: 6 }) }, { weight: 1, arbitrary: fc.array(msg, { minLength: 12, maxLength: 40 }) }), vars: varsFor, phs: fc.dictionary(phName, phVal, { maxKeys: 4, noNullPrototype: true }), noPh: fc.constantFrom(false, false, false, true) }), run: runChat, quick: 8_000, thorough: 300_000, rule: "chat prompts mixing messages and placeholders; non-trivial = at least two items and a placeholder or variable" },
  ],
  assumptions: ["templates are well-formed: literal text does not open a tag", "variables named like members of Object.prototype are supplied"],
});
