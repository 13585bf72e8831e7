import fc from "fast-check";
import { main, ensure, same, show, fail, deepEqual } from "../lib/runner";
import { useClock, Stuck } from "../lib/env";
import { FakeNet, type Req } from "../lib/net";
import { LangfuseClient } from "@langfuse/client";
import { LangfuseMediaReference } from "@langfuse/core";
import { makeTracing, isolated } from "../lib/otel";
import { startObservation } from "@langfuse/tracing";
import { cleanString, key, jsonValue, ident } from "../lib/arbs";

const NAMES = ["plain", "folder/sub", "a b", "ü😀", "100%", "a?b#c", "a&b=c", "..x", "%2F", "+plus+", "quote\"'", "v1.2", "semi;colon", "back\\slash"];
const nameArb = fc.oneof({ weight: 2, arbitrary: fc.constantFrom(...NAMES) }, { weight: 1, arbitrary: cleanString.filter((s) => s !== "" && s !== "." && s !== "..") });
const version = fc.constantFrom(undefined, undefined, "2026-01-21T14:35:42Z", "2025-12-31T23:59:59.123Z");
type Fault = { at: number; kind: "400" | "404" | "500x3" | "500x1" | "net" };
const faultArb: fc.Arbitrary<Fault | undefined> = fc.option(fc.record({ at: fc.nat(6), kind: fc.constantFrom("400" as const, "404" as const, "500x3" as const, "500x1" as const, "net" as const) }), { nil: undefined, freq: 3 });

function serveDataset(name: string, ds: any, items: any[], fault: Fault | undefined, reqs: Req[], opts: { version?: string; size?: number; cap?: number }) {
  let logical = -1; // index of the logical request (0: dataset, 1..: pages)
  let lastKey = "";
  let tries = 0;
  const runItems: Req[] = [];
  new FakeNet((req) => {
    reqs.push(req);
    const k = req.method + req.url;
    if (req.method === "POST") {
      same(req.path, "/api/public/dataset-run-items", "link request path");
      runItems.push(req);
      return { json: { id: "ri" + runItems.length, datasetRunId: "run", datasetRunName: req.json?.runName, datasetItemId: req.json?.datasetItemId, traceId: req.json?.traceId } };
    }
    if (k !== lastKey) { logical++; tries = 0; lastKey = k; }
    tries++;
    if (fault && fault.at === logical) {
      if (fault.kind === "400") return { status: 400, json: { message: "bad" } };
      if (fault.kind === "404") return { status: 404, json: { message: "no" } };
      if (fault.kind === "net") return { networkError: new TypeError("fetch failed") };
      if (fault.kind === "500x3" || tries <= 1) return { status: 500, text: "oops" };
    }
    if (req.path.startsWith("/api/public/v2/datasets/")) {
      same(req.path.slice("/api/public/v2/datasets/".length), encodeURIComponent(name).replace(/[!'()*]/g, (c) => (req.path.includes(c) ? c : "%" + c.charCodeAt(0).toString(16).toUpperCase())), "dataset path segment");
      same(decodeURIComponent(req.path.slice("/api/public/v2/datasets/".length)), name, "dataset name in path");
      return { json: ds };
    }
    same(req.path, "/api/public/dataset-items", "items path");
    same(req.query.get("datasetName"), name, "dataset name in items request");
    same(req.query.get("version"), opts.version ?? null, "version in items request");
    const asked = Number(req.query.get("limit"));
    const limit = Math.min(asked, opts.cap ?? asked); // servers may cap the page size
    if (opts.size !== undefined) same(asked, opts.size, "requested page size");
    ensure(Number.isInteger(limit) && limit >= 1, `page size ${limit}`);
    const page = Number(req.query.get("page"));
    ensure(Number.isInteger(page) && page >= 1, `page ${req.query.get("page")}`);
    ensure(page <= Math.max(1, Math.ceil(items.length / limit)), `requested page ${page} beyond the last`);
    return { json: { data: items.slice((page - 1) * limit, page * limit), meta: { page, limit, totalItems: items.length, totalPages: Math.ceil(items.length / limit) } } };
  }).install();
  return runItems;
}
const mkItem = (i: number, extra: any) => ({ id: `it-${i}`, status: i % 3 ? "ACTIVE" : "ARCHIVED", input: { n: i }, expectedOutput: i, metadata: null, sourceTraceId: i % 4 ? null : `tr-${i}`, sourceObservationId: i % 8 ? null : `obs-${i}`, datasetId: "ds", datasetName: "x", createdAt: "2024-01-01T00:00:00.000Z", updatedAt: "2024-01-01T00:00:00.000Z", ...extra });
const strip = (it: any) => { const { link, ...r } = it; return r; };

// ---- sub 1: pagination, content, faults, linking
const pageArb = fc.record({
  name: nameArb, n: fc.oneof({ weight: 4, arbitrary: fc.nat(12) }, { weight: 1, arbitrary: fc.constantFrom(49, 50, 51, 99, 100, 101, 150, 151, 260) }),
  size: fc.constantFrom(undefined, 1, 2, 3, 4, 5, 7, 10, 50, 100, 101, 250, 1000), cap: fc.constantFrom(undefined, undefined, 1, 2, 3, 50), version, fault: faultArb,
  contents: fc.array(fc.record({ input: jsonValue(2), expectedOutput: jsonValue(2), metadata: jsonValue(2) }), { maxLength: 6 }),
  link: fc.option(fc.record({ item: fc.nat(), run: cleanString, desc: fc.option(cleanString, { nil: undefined }), meta: fc.option(jsonValue(1), { nil: undefined }), args: fc.boolean() }), { nil: undefined }),
});
async function runPages(c: any) {
  const clock = useClock();
  return isolated(async () => {
    const items = Array.from({ length: c.n }, (_, i) => mkItem(i, c.contents[i] ?? {}));
    const ds = { id: "ds", name: c.name, description: null, metadata: { a: 1 }, projectId: "p", createdAt: "2024-01-01T00:00:00.000Z", updatedAt: "2024-01-01T00:00:00.000Z" };
    const reqs: Req[] = [];
    const runItems = serveDataset(c.name, ds, items, c.fault, reqs, c);
    const size = Math.min(c.size ?? 50, c.cap ?? 50_000);
    const pages = Math.max(1, Math.ceil(c.n / size));
    const fatal = c.fault && c.fault.at <= pages && c.fault.kind !== "500x1";
    const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
    let out: any, err: any;
    const o: any = c.size !== undefined || c.version !== undefined ? { ...(c.size !== undefined ? { fetchItemsPageSize: c.size } : {}), ...(c.version ? { version: c.version } : {}) } : undefined;
    try {
      out = await clock.drive(o ? client.dataset.get(c.name, o) : client.dataset.get(c.name), { what: "dataset.get" });
    } catch (e) {
      if (e instanceof Stuck) fail(e.message);
      err = e;
    }
    if (fatal) {
      ensure(err !== undefined, () => `a failing request (${show(c.fault)}) returned a dataset with ${out?.items?.length} of ${c.n} items`);
      return { nontrivial: true, labels: ["failing", c.fault.at === 0 ? "dataset" : "page"] };
    }
    if (err !== undefined) fail(`dataset.get failed: ${show(err?.message ?? err)}`);
    const { items: got, runExperiment, version: v, ...rest } = out;
    same(rest, ds, "dataset fields");
    same(v, c.version, "dataset version");
    ensure(typeof runExperiment === "function", "runExperiment missing");
    same(got.map(strip), JSON.parse(JSON.stringify(items)), "items");
    if (c.link && got.length) {
      makeTracing();
      const it = got[c.link.item % got.length];
      const s = startObservation("x");
      const args = c.link.args ? [{ ...(c.link.desc !== undefined ? { description: c.link.desc } : {}), ...(c.link.meta !== undefined ? { metadata: c.link.meta } : {}) }] : [];
      const before = reqs.length;
      const r: any = await clock.drive(it.link(s, c.link.run, ...args));
      same(reqs.length, before + 1, "requests of link()");
      const want: any = { runName: c.link.run, datasetItemId: it.id, traceId: s.traceId, observationId: s.id };
      if (c.link.args && c.link.desc !== undefined) want.runDescription = c.link.desc;
      if (c.link.args && c.link.meta !== undefined) want.metadata = c.link.meta;
      same(runItems[0].json, want, "link request");
      same(r.datasetItemId, it.id, "link result");
      s.end();
    }
    return { nontrivial: c.n > size || c.n > 0, labels: [`pages:${Math.min(pages, 5)}`, c.n > 0 && c.n % size === 0 && "full last page", size < (c.size ?? 50) && pages > 1 && "capped pages", c.link && got.length > 0 && "link", c.version && "version", c.fault?.at <= pages && "transient fault"] };
  });
}

// ---- sub 2: hydration of media references
// a value is generated together with the positions at which references are placed
type N = { ref: number } | { leaf: any } | { arr: N[] } | { pad: number; of: N } | { digit: string; of: N } | { obj: [string, N][] };
const okKey = fc.oneof({ weight: 3, arbitrary: ident }, { weight: 3, arbitrary: fc.constantFrom("a.b", "a'b", "[0]", "a]b", "$", "a['b", "with space", "ü", "", "constructor", "length", "x-1", "'", "\"") }, { weight: 2, arbitrary: key.filter((k) => !/^[0-9]+$/.test(k) && !k.includes("']") && k.isWellFormed()) });
const { node } = fc.letrec<{ node: N }>((tie) => ({
  node: fc.oneof(
    { maxDepth: 4, depthSize: "medium" },
    { weight: 3, arbitrary: fc.record({ ref: fc.nat(99) }) },
    { weight: 2, arbitrary: fc.record({ leaf: fc.constantFrom(null, 0, 1, "", "text", true, false, "@@@langfuseMedia:type=image/png|id=zz|source=bytes@@@") }) },
    { weight: 2, arbitrary: fc.record({ arr: fc.array(tie("node"), { maxLength: 4 }) }) },
    { weight: 1, arbitrary: fc.record({ pad: fc.constantFrom(1, 8, 9, 10, 11, 19, 89, 99, 100, 109), of: tie("node") }) }, // a long array whose last element is the node
    { weight: 1, arbitrary: fc.record({ digit: fc.constantFrom("0", "1", "7", "10", "19"), of: tie("node") }) }, // an all-digit key: rendered like an index
    { weight: 3, arbitrary: fc.record({ obj: fc.uniqueArray(fc.tuple(okKey, tie("node")), { maxLength: 4, selector: (x) => x[0] }) }) },
  ),
}));
const badRef = fc.oneof(
  { weight: 3, arbitrary: fc.record({ path: fc.constantFrom("", "x", "$.a", "$[", "$['a", "$['a'", "$[a]", "$[-1]", "$[1", "$[]", "$a", "$['a']x", "$.['a']", "a['b']", "$['a'].b", "$[\"a\"]", "$[0", "$[0x]", "$[0x", "$[1x]", "$[x0]", "$[0]]", "$[0][", "$[0 ]"), field: fc.constantFrom("input", "expectedOutput", "metadata"), media: fc.constant(true) }) },
  { weight: 1, arbitrary: fc.record({ path: fc.constantFrom("$['nope-0']['deeper']", "$['nope-0'][0]", "$['nope-0']['x']['y']"), field: fc.constantFrom("input", "expectedOutput", "metadata"), media: fc.constant(true) }) },
  { weight: 1, arbitrary: fc.record({ path: fc.constantFrom("$", "$['a']", "$[0]"), field: fc.constantFrom("output", "INPUT", "other", ""), media: fc.constant(true) }) },
  { weight: 1, arbitrary: fc.record({ path: fc.constantFrom("$", "$['a']"), field: fc.constantFrom("input", "metadata"), media: fc.constant(false) }) },
);
const hydArb = fc.record({
  items: fc.array(fc.record({ input: node, expectedOutput: node, metadata: node, bad: fc.array(badRef, { maxLength: 2 }), drop: fc.array(fc.nat(5), { maxLength: 2 }), order: fc.boolean(), noList: fc.constantFrom(false, false, false, true) }), { minLength: 1, maxLength: 4 }),
  size: fc.constantFrom(1, 2, 50),
});
const isRef = (x: any) => x instanceof LangfuseMediaReference;
async function runHyd(c: any) {
  const clock = useClock();
  let counter = 0, refs = 0, bads = 0;
  const wanted: any[] = [];
  const items = c.items.map((it: any, idx: number) => {
    const list: any[] = [];
    const build = (field: string, n: N, path: string): [any, any] => {
      if ("ref" in n) {
        const id = `m${counter++}`;
        const rs = `@@@langfuseMedia:type=image/png|id=${id}|source=bytes@@@`;
        if (it.drop.includes(n.ref % 6)) return [rs, rs]; // a tag the server does not list stays text
        const media = { mediaId: id, contentType: ["image/png", "application/pdf"][n.ref % 2], url: `http://store.test/${id}`, urlExpiry: "2030-01-01T00:00:00Z", contentLength: n.ref };
        list.push({ field, referenceString: rs, jsonPath: path, media });
        refs++;
        return [rs, { __ref: media, rs }];
      }
      if ("leaf" in n) return [n.leaf, n.leaf];
      if ("arr" in n) { const p = n.arr.map((x, i) => build(field, x, `${path}[${i}]`)); return [p.map((x) => x[0]), p.map((x) => x[1])]; }
      if ("pad" in n) { const [p, q] = build(field, n.of, `${path}[${n.pad}]`); const fill = Array.from({ length: n.pad }, (_, i) => i); return [[...fill, p], [...fill, q]]; }
      if ("digit" in n) {
        const [p, q] = build(field, n.of, `${path}[${n.digit}]`);
        if ("ref" in n.of && q?.__ref) return [{ [n.digit]: p }, { [n.digit]: { __either: q, text: p } }]; // ambiguous leaf: the tag may stay text
        return [{ [n.digit]: p }, { [n.digit]: q }];
      }
      const a: any = {}, b: any = {};
      for (const [k, x] of n.obj) { const [p, q] = build(field, x, `${path}['${k}']`); a[k] = p; b[k] = q; }
      return [a, b];
    };
    const f = ["input", "expectedOutput", "metadata"].map((k) => [k, build(k, it[k], "$")] as const);
    for (const b of it.bad) {
      bads++;
      list.splice(b.path.length % (list.length + 1), 0, { field: b.field, referenceString: "@@@langfuseMedia:type=image/png|id=bad|source=bytes@@@", jsonPath: b.path, media: b.media ? { mediaId: "bad", contentType: "image/png", url: "http://store.test/bad", urlExpiry: "2030-01-01T00:00:00Z", contentLength: 1 } : null });
    }
    if (it.order) list.reverse();
    const noList = it.noList && list.length === 0;
    const raw = mkItem(idx, { ...Object.fromEntries(f.map(([k, v]) => [k, v[0]])), ...(noList ? {} : { mediaReferences: list }) });
    wanted.push({ ...raw, ...Object.fromEntries(f.map(([k, v]) => [k, v[1]])) });
    return raw;
  });
  const ds = { id: "ds", name: "d", projectId: "p" };
  serveDataset("d", ds, items, undefined, [], { size: c.size });
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const out: any = await clock.drive(client.dataset.get("d", { fetchItemsPageSize: c.size }));
  // compare structurally: at reference positions an object of the public class with exactly the server's data
  const cmp = (got: any, want: any, at: string) => {
    if (want && typeof want === "object" && want.__either) { if (!isRef(got)) same(got, want.text, at); else cmp(got, want.__either, at); return; }
    if (want && typeof want === "object" && want.__ref) {
      ensure(isRef(got), () => `${at}: expected a media reference but got ${show(got)}`);
      same({ mediaId: got.mediaId, contentType: got.contentType, url: got.url, urlExpiry: got.urlExpiry, contentLength: got.contentLength, rs: got.referenceString }, { ...want.__ref, rs: want.rs }, `${at}: media reference`);
      return;
    }
    ensure(!isRef(got), () => `${at}: unexpected media reference ${show(got?.mediaId)}`);
    if (Array.isArray(want)) { ensure(Array.isArray(got), at); same(got.length, want.length, `${at} length`); same(Object.keys(got).length, want.length, `${at} own keys`); want.forEach((w, i) => cmp(got[i], w, `${at}[${i}]`)); return; }
    if (want && typeof want === "object") { same(Object.keys(got ?? {}).sort(), Object.keys(want).sort(), `${at} keys`); for (const k of Object.keys(want)) cmp(got[k], want[k], `${at}.${k}`); return; }
    same(got, want, at);
  };
  same(out.items.length, items.length, "items");
  out.items.forEach((it: any, i: number) => cmp(strip(it), wanted[i], `item ${i}`));
  return { nontrivial: refs > 0, labels: [refs > 2 && "several", bads > 0 && "inapplicable path", c.items.some((x: any) => "ref" in x.input) && "root"] };
}

main({
  assumptions: [
    "server pages are consistent (totalPages matches the item count)",
    "reference paths use the documented grammar; paths whose last step does not exist in the item, key steps on arrays and keys containing ']' after a quote are not generated: the server never emits them",
  ],
  subs: [
    { name: "pages", arb: pageArb, run: runPages, quick: 4000, thorough: 40000, rule: "at least one item or an injected fault", examples: [] },
    { name: "hydrate", arb: hydArb, run: runHyd, quick: 5000, thorough: 60000, rule: "at least one media reference is placed" },
  ],
});
