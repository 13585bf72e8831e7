import fc from "fast-check";
import { main, ensure, same, show, fail } from "../lib/runner";
import { useClock } from "../lib/env";
import { FakeNet } from "../lib/net";
import { LangfuseClient } from "@langfuse/client";
import { key } from "../lib/arbs";

// A pool of media the server knows, each with a fault plan.
interface Medium { id: string; type: string; apiType: string; source: string; b64: string; fault: string; delay: number; extra: boolean }
const FAULTS = ["none", "api404", "api500", "apiNet", "blob403", "blob404", "blob500", "blobNet", "api401", "api403", "api429", "api503", "blob429", "apiGarbage"];
const mediumArb = fc.record({
  type: fc.constantFrom("image/png", "application/pdf", "image/svg+xml", "text/plain", "application/x-a@b"),
  apiType: fc.constantFrom("same", "same", "image/webp"),
  source: fc.constantFrom("bytes", "base64_data_uri", "file"),
  b64: fc.oneof(fc.uint8Array({ maxLength: 24 }).map((b) => Buffer.from(b).toString("base64")), fc.constantFrom("AAAA", "/+/+", "JCYkMSQk")),
  fault: fc.oneof({ weight: 6, arbitrary: fc.constant("none") }, { weight: 3, arbitrary: fc.constantFrom(...FAULTS.slice(1)) }),
  delay: fc.constantFrom(0, 0, 0, 0, 1, 1, 20, 20, 500, 500, 9000, 40_000),
  extra: fc.boolean(),
});
// ids that are prefixes of one another occur on purpose
const IDS = ["a", "ab", "abc", "A_b-9", "VGVzdGluZ19pZA-_xyz012", "x", "id with space", "a%2Fb", "ü", "AB", "VGVzdGluZ19pZA-_XYZ012", "abcd"];
type Seg = { tag: number } | { text: string };
const TEXTS = ["", " ", "text ", "@", "@@", "@@@", "=|", "|id=a|", "langfuseMedia:", "@@@langfuse", "$&", "$1", "$$ ", "ü😀", "\n", "data:image/png;base64,AAAA", "@@@langfuseMedia:type=image/png|source=bytes@@@", "@@@langfuseMedia:id=a|source=bytes@@@", "@@@langfuseMedia:garbage@@@", "@@@LangfuseMedia:type=image/png|id=a|source=bytes@@@", "@@langfuseMedia:type=image/png|id=a|source=bytes@@"];
const segArb: fc.Arbitrary<Seg> = fc.oneof({ weight: 4, arbitrary: fc.record({ tag: fc.nat(11) }) }, { weight: 3, arbitrary: fc.record({ text: fc.constantFrom(...TEXTS) }) }, { weight: 1, arbitrary: fc.record({ text: fc.string({ unit: "grapheme", maxLength: 6 }).map((s) => s.replaceAll("@", "")) }) });
type Node = { s: Seg[] } | { a: Node[] } | { o: [string, Node][] } | { p: any } | { u: 1 } | { deep: number; of: Node };
const { node } = fc.letrec<{ node: Node }>((tie) => ({
  node: fc.oneof(
    { maxDepth: 4, depthSize: "small" },
    { weight: 5, arbitrary: fc.array(segArb, { maxLength: 5 }).map((s) => ({ s: ambiguous({ s }) ? s.filter((x) => "tag" in x || !/@|langfuse/.test(x.text)) : s })) },
    { weight: 1, arbitrary: fc.record({ p: fc.constantFrom(null, 0, 1.5, true, false, "", -1, "plain") }) },
    { weight: 1, arbitrary: fc.constant({ u: 1 as const }) },
    { weight: 2, arbitrary: fc.record({ a: fc.array(tie("node"), { maxLength: 4 }) }) },
    { weight: 2, arbitrary: fc.record({ o: fc.uniqueArray(fc.tuple(key, tie("node")), { maxLength: 4, selector: (x) => x[0] }) }) },
    { weight: 1, arbitrary: fc.tuple(fc.oneof(fc.integer({ min: 5, max: 30 }), fc.integer({ min: 30, max: 120 })), fc.nat(11), fc.boolean()).map(([n, from, flat]) => (flat ? { s: Array.from({ length: n }, (_, i) => ({ tag: (from + i) % 12 })) } : { a: Array.from({ length: n }, (_, i) => ({ s: [{ text: "n" + i }, { tag: (from + i) % 12 }] })) })) },
    { weight: 1, arbitrary: fc.record({ deep: fc.integer({ min: 1, max: 13 }), of: tie("node") }) },
  ),
}));
const caseArb = fc.record({ media: fc.array(mediumArb, { minLength: 1, maxLength: 12 }), root: node, maxDepth: fc.constantFrom(undefined, undefined, 0, 1, 2, 3, 10, 20) });

const run = async (c: any) => {
  const clock = useClock();
  const media: Medium[] = c.media.map((m: any, i: number) => ({ ...m, id: IDS[i % IDS.length], apiType: m.apiType === "same" ? m.type : m.apiType }));
  const tag = (i: number) => { const m = media[i % media.length]; return `@@@langfuseMedia:type=${m.type}|id=${m.id}|source=${m.source}@@@`; };
  const uri = (i: number) => { const m = media[i % media.length]; return `data:${m.apiType};base64,${m.b64}`; };
  let tags = 0, failing = 0, beyond = 0;
  // a string is the concatenation of its segments; in tag position an unfinished tag opener is never left dangling before it
  const limit = c.maxDepth ?? 10;
  const text = (segs: Seg[], resolved: boolean) => segs.map((s) => ("tag" in s ? (resolved && media[s.tag % media.length].fault === "none" ? uri(s.tag) : tag(s.tag)) : s.text)).join("");
  const mk = (n: Node, depth: number, resolved: boolean): any => {
    const inside = resolved && depth <= limit;
    if ("s" in n) {
      for (const s of n.s) if ("tag" in s) { tags++; if (media[s.tag % media.length].fault !== "none") failing++; if (depth > limit) beyond++; }
      return text(n.s, inside);
    }
    if ("p" in n) return n.p;
    if ("u" in n) return undefined;
    if ("a" in n) return n.a.map((x) => mk(x, depth + 1, resolved));
    if ("o" in n) { const o: any = {}; for (const [k, x] of n.o) o[k] = mk(x, depth + 1, resolved); return o; }
    let v = mk(n.of, depth + n.deep, resolved);
    for (let i = 0; i < n.deep; i++) v = i % 2 ? [v] : { d: v };
    return v;
  };
  const input = mk(c.root, 0, false);
  tags = failing = beyond = 0;
  const expected = mk(c.root, 0, true);
  const frozen = JSON.stringify(input);
  const byId = new Map(media.map((m) => [m.id, m]));
  new FakeNet((req) => {
    if (req.url.startsWith("http://lf.test/api/public/media/")) {
      const id = decodeURIComponent(req.path.slice("/api/public/media/".length));
      const m = byId.get(id);
      if (!m) fail(`requested unknown medium ${show(id)} (${req.url})`);
      if (m.fault === "api404") return { status: 404, json: { message: "no" }, delay: m.delay };
      if (/^api[45]\d\d$/.test(m.fault)) return { status: Number(m.fault.slice(3)), text: "oops", delay: m.delay };
      if (m.fault === "apiGarbage") return { status: 200, text: "<html>", delay: m.delay };
      if (m.fault === "api500") return { status: 500, text: "oops", delay: m.delay };
      if (m.fault === "apiNet") return { networkError: new TypeError("fetch failed"), delay: m.delay };
      return { json: { mediaId: m.id, contentType: m.apiType, contentLength: Buffer.from(m.b64, "base64").length, uploadedAt: "2024-01-01T00:00:00Z", url: `http://store.test/${encodeURIComponent(m.id)}?sig=1`, urlExpiry: "2030-01-01" }, delay: m.delay };
    }
    if (req.url.startsWith("http://store.test/")) {
      const m = byId.get(decodeURIComponent(req.path.slice(1)))!;
      ensure(m, "storage request for unknown medium");
      same(req.method, "GET", "method of a storage request");
      ensure(!("authorization" in req.headers), "API credentials sent to the storage host");
      if (m.fault === "blob429") return { status: 429, text: "<Error/>", delay: m.delay };
      if (m.fault === "blob403") return { status: 403, text: "<Error/>", delay: m.delay };
      if (m.fault === "blob404") return { status: 404, text: "<Error/>", delay: m.delay };
      if (m.fault === "blob500") return { status: 500, text: "<Error/>", delay: m.delay };
      if (m.fault === "blobNet") return { networkError: new TypeError("fetch failed"), delay: m.delay };
      return { bytes: new Uint8Array(Buffer.from(m.b64, "base64")), delay: m.delay };
    }
    return fail(`unexpected request ${req.method} ${req.url}`);
  }).install();
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const out = await clock.drive(client.media.resolveReferences({ obj: input, resolveWith: "base64DataUri", ...(c.maxDepth !== undefined ? { maxDepth: c.maxDepth } : {}) }), { what: "resolveReferences" });
  same(out, expected, `resolved (maxDepth ${limit})`);
  same(JSON.stringify(out), JSON.stringify(expected), "key order");
  same(JSON.stringify(input), frozen, "input object after resolving");
  return { nontrivial: tags > 0, labels: [tags > 1 && "several tags", failing > 0 && "failing", beyond > 0 && "beyond depth"] };
};
main({
  assumptions: ["an unterminated tag opener directly followed by a complete tag is outside the domain: the text is ambiguous", "media served by a scripted in-memory fetch"],
  subs: [{
    name: "resolve", arb: caseArb, run, quick: 12000, thorough: 100000,
    rule: "the object contains at least one reference tag", minNontrivial: 0.4,
  }],
});
// two adjacent '@' runs can merge with a tag's own delimiters ("@@@" + tag): the tag still has to be found, but a text
// segment containing the full opener without terminator must not precede a tag.
function ambiguous(n: Node): boolean {
  if ("s" in n) {
    const raw = n.s.map((s) => ("tag" in s ? "@@@langfuseMedia:#@@@" : s.text)).join("");
    const openers = (t: string) => t.split("@@@langfuseMedia:").length - 1;
    return openers(raw) !== n.s.reduce((a, x) => a + ("tag" in x ? 1 : openers(x.text)), 0);
  }
  if ("a" in n) return n.a.some(ambiguous);
  if ("o" in n) return n.o.some(([, x]) => ambiguous(x));
  if ("of" in n) return ambiguous(n.of);
  return false;
}
