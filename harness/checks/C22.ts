import fc from "fast-check";
import { main, ensure, same, show } from "../lib/runner";
import { anyString } from "../lib/arbs";
import { TextPromptClient, ChatPromptClient } from "@langfuse/client";
import { PromptTemplate, ChatPromptTemplate } from "@langchain/core/prompts";
import { HumanMessage, AIMessage } from "@langchain/core/messages";

const NAMES = ["x", "y", "name", "user_name", "a1", "X9", "_u", "longer_variable_name", "9x", "1"];
const varName = fc.constantFrom(...NAMES);
const noBraces = (s: string) => s.replace(/[{}]/g, "");
const plain = fc.oneof(anyString, fc.constantFrom("Hello ", "\n", " ", ", ", "'q'", "\"q\"", "[1, 2]", ": ")).map(noBraces);
const value = fc.oneof(anyString, fc.constantFrom("{x}", "{{x}}", "{\"a\": 1}", "}", "{", "<b>&</b>", "$&", ""));

// JSON documents: non-empty objects, brace-free texts, variables in value position or inside strings
type J = { o: [string, J][] } | { a: J[] } | { s: (string | { v: string })[] } | { n: number } | { v: string } | { c: string };
const jstr = fc.array(fc.oneof(plain.map((s) => JSON.stringify(s.isWellFormed() ? s : "?").slice(1, -1)), fc.record({ v: varName })), { maxLength: 3 });
const jdoc: fc.Arbitrary<J> = fc.letrec<any>((tie) => ({
  o: fc.record({ o: fc.array(fc.tuple(fc.constantFrom("a", "b", "key one", "ü", ""), tie("j")), { minLength: 1, maxLength: 3 }) }),
  j: fc.oneof(
    { depthSize: "small", maxDepth: 5 },
    { weight: 2, arbitrary: fc.record({ s: jstr }) },
    { weight: 1, arbitrary: fc.record({ n: fc.integer() }) },
    { weight: 2, arbitrary: fc.record({ v: varName }) },
    { weight: 1, arbitrary: fc.record({ c: fc.constantFrom("null", "true", "[]") }) },
    { weight: 4, arbitrary: tie("o") },
    { weight: 2, arbitrary: fc.record({ a: fc.array(tie("j"), { maxLength: 3 }) }) },
  ),
})).o;
function render(j: J, style: { compact: boolean; quote: string; pad: string; open: string; close: string }): string {
  const go = (x: J, d: number): string => {
    const nl = style.compact ? style.pad : "\n" + "  ".repeat(d + 1);
    const end = style.compact ? style.pad : "\n" + "  ".repeat(d);
    if ("o" in x) return `${style.open}${nl}${x.o.map(([k, v]) => `${style.quote}${k}${style.quote}:${style.compact ? style.pad : " "}${go(v, d + 1)}`).join("," + nl)}${end}${style.close}`;
    if ("a" in x) return `[${x.a.map((v) => go(v, d + 1)).join(", ")}]`;
    if ("s" in x) return `"${x.s.map((p) => (typeof p === "string" ? p : `{{${p.v}}}`)).join("")}"`;
    if ("n" in x) return String(x.n);
    if ("v" in x) return `{{${x.v}}}`;
    return x.c;
  };
  return go(j, 0);
}
const wrapDeep = (n: number, j: J): J => { let x = j; for (let i = 0; i < n; i++) x = i % 3 === 2 ? { o: [["a", { a: [x, { n: i }] }]] } : { o: [["d" + i, x], ...(i % 4 === 1 ? [["v", { v: "x" }] as [string, J]] : [])] }; return x; };
const anyDoc: fc.Arbitrary<J> = fc.oneof({ weight: 6, arbitrary: jdoc }, { weight: 1, arbitrary: fc.tuple(fc.integer({ min: 4, max: 18 }), jdoc).map(([n, j]) => wrapDeep(n, j)) });
const style = fc.record({ compact: fc.boolean(), quote: fc.constantFrom("\"", "\"", "'"), pad: fc.constantFrom("", " ") });
type Seg = { t: string } | { v: string } | { j: J; st: any };
const seg: fc.Arbitrary<Seg> = fc.oneof({ weight: 3, arbitrary: fc.record({ t: plain }) }, { weight: 3, arbitrary: fc.record({ v: varName }) }, { weight: 3, arbitrary: fc.record({ j: anyDoc, st: style }) }) as any;
const doc = fc.array(seg, { minLength: 1, maxLength: 5 });
/** source text of the prompt; a blank separates a closing/opening brace from a neighbouring tag or object */
function src(segs: Seg[], open = "{", close = "}"): string {
  let out = "";
  for (const s of segs) {
    const t = "t" in s ? s.t : "v" in s ? `{{${s.v}}}` : render(s.j, { ...s.st, open, close });
    out += /[{}]$/.test(out) && /^[{}]/.test(t) ? " " + t : t;
  }
  return out;
}
const vars = fc.tuple(...NAMES.map(() => value)).map((vs) => Object.fromEntries(NAMES.map((n, i) => [n, vs[i]])) as Record<string, string>);
const base = { version: 1, config: {}, labels: [], tags: [] };
const jsonCount = (segs: Seg[]) => segs.filter((s) => "j" in s).length;

async function runText(c: { d: Seg[]; vars: Record<string, string> }) {
  const s = src(c.d);
  const p = new TextPromptClient({ ...base, name: "n", type: "text", prompt: s } as any);
  const lc = p.getLangchainPrompt();
  let got: string;
  try {
    got = await PromptTemplate.fromTemplate(lc).format(c.vars);
  } catch (e) {
    throw new Error(`LangChain cannot render the converted prompt ${show(lc)} of ${show(s)}: ${e}`);
  }
  same(got, p.compile(c.vars), `LangChain rendering of ${show(s)} (converted: ${show(lc)})`);
  same(p.getLangchainPrompt(), lc, "second conversion");
  return { nontrivial: jsonCount(c.d) > 0, labels: [jsonCount(c.d) > 0 && "JSON", /\}\}\}|\}\}/.test(s.replace(/\{\{\w+\}\}/g, "")) && "adjacent closing braces", c.d.some((x) => "v" in x) && "variable"] };
}
/** JSON that is already escaped for LangChain (every brace doubled) must come out with single braces */
async function runEscaped(c: { d: Seg[]; vars: Record<string, string> }) {
  const s = src(c.d, "{{", "}}");
  const p = new TextPromptClient({ ...base, name: "n", type: "text", prompt: s } as any);
  const want = new TextPromptClient({ ...base, name: "n", type: "text", prompt: src(c.d) } as any).compile(c.vars);
  // only comparable when separators coincide
  const got = await PromptTemplate.fromTemplate(p.getLangchainPrompt()).format(c.vars);
  same(got, want, `LangChain rendering of pre-escaped ${show(s)}`);
  return { nontrivial: jsonCount(c.d) > 0 };
}

type Msg = { k: "msg"; role: string; d: Seg[] } | { k: "ph"; name: string };
const PHS = ["history", "examples", "h1", "chat history", " h1", "H1", "h-1", "constructor"];
const phName = fc.constantFrom(...PHS);
const msg: fc.Arbitrary<Msg> = fc.oneof(
  { weight: 3, arbitrary: fc.record({ k: fc.constant("msg" as const), role: fc.constantFrom("system", "user", "assistant"), d: doc }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("ph" as const), name: phName }) },
);
const phMsgs = fc.array(fc.record({ role: fc.constantFrom("user", "assistant"), d: doc }), { maxLength: 3 });
const lcType: Record<string, string> = { system: "system", user: "human", assistant: "ai" };
async function runChat(c: { msgs: Msg[]; vars: Record<string, string>; phs: Record<string, { role: string; d: Seg[] }[]>; late: string[] }) {
  const raw = c.msgs.map((m) => (m.k === "ph" ? { type: "placeholder", name: m.name } : { type: "chatmessage", role: m.role, content: src(m.d) }));
  const p = new ChatPromptClient({ ...base, name: "n", type: "chat", prompt: raw } as any);
  const before = JSON.stringify(p);
  const early: Record<string, any[]> = {};
  const lateVals: Record<string, any[]> = {};
  for (const n of PHS) {
    const ms = (Object.hasOwn(c.phs, n) ? c.phs[n] : []) ?? [];
    if (c.late.includes(n)) lateVals[n] = ms;
    else early[n] = ms.map((m) => ({ role: m.role, content: src(m.d) }));
  }
  const lc = p.getLangchainPrompt({ placeholders: early });
  // unresolved placeholders keep their position and name
  const shape = lc.map((m: any) => (Array.isArray(m) ? "ph:" + m[1] : "m"));
  const wantShape = c.msgs.flatMap((m) => (m.k === "msg" ? ["m"] : c.late.includes(m.name) ? [`ph:{${m.name}}`] : early[m.name].map(() => "m")));
  same(shape, wantShape, "shape of the LangChain prompt");
  const tmpl = ChatPromptTemplate.fromMessages(lc as any);
  const lateMsgs = Object.fromEntries(Object.entries(lateVals).map(([k, ms]) => [k, ms.map((m) => (m.role === "user" ? new HumanMessage(src(m.d)) : new AIMessage(src(m.d))))]));
  const out = await tmpl.formatMessages({ ...c.vars, ...lateMsgs });
  const compiled = p.compile(c.vars, early).flatMap((m: any) => (m.type === "placeholder" ? lateVals[m.name].map((x) => ({ role: x.role, content: src(x.d) })) : [m]));
  same(
    out.map((m: any) => ({ type: m.getType(), content: m.content })),
    compiled.map((m: any) => ({ type: lcType[m.role], content: m.content })),
    "messages rendered by LangChain",
  );
  same(JSON.stringify(p), before, "prompt after conversion");
  return { nontrivial: c.msgs.length >= 2 && c.msgs.some((m) => m.k === "ph"), labels: [Object.keys(lateVals).length > 0 && c.msgs.some((m) => m.k === "ph" && c.late.includes(m.name)) && "unresolved placeholder", c.msgs.some((m) => m.k === "msg" && jsonCount(m.d) > 0) && "JSON"] };
}

main({
  subs: [
    { name: "text", arb: fc.record({ d: doc, vars }), run: runText, quick: 6000, thorough: 200_000, rule: "prompts of text, variables and JSON documents (compact/pretty, both quote styles) rendered by LangChain vs compiled; non-trivial = contains JSON" },
    { name: "pre-escaped", arb: fc.record({ d: fc.array(fc.oneof(fc.record({ t: plain.map((s) => s + " ") }), fc.record({ j: anyDoc, st: style })) as any, { minLength: 1, maxLength: 3 }), vars }) as any, run: runEscaped as any, quick: 2000, thorough: 60_000, rule: "JSON whose braces are already doubled; non-trivial = contains JSON" },
    { name: "chat", arb: fc.record({ msgs: fc.array(msg, { minLength: 1, maxLength: 5 }), vars, phs: fc.dictionary(phName, phMsgs, { maxKeys: 3, noNullPrototype: true }), late: fc.subarray(PHS) }), run: runChat, quick: 2500, thorough: 80_000, rule: "chat prompts with placeholders filled early or by LangChain; non-trivial = at least two items and a placeholder" },
  ],
  assumptions: ["variable tags are written without inner blanks (the only form the conversion recognises)", "JSON texts contain no braces (a single-brace word is LangChain variable syntax by design) and objects are non-empty"],
});
