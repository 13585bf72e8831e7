import fc from "fast-check";
import { main, ensure, same, show } from "../lib/runner";
import { Buffer } from "node:buffer";
import { useClock, withoutBuffer } from "../lib/env";
import { FakeNet } from "../lib/net";
import { endpoints, target, argsFor, pool, segment, core } from "../lib/api";
import { cleanString, token, opt, jsonValue, key } from "../lib/arbs";

const sup = <T>(a: fc.Arbitrary<T>) => fc.record({ v: a, how: fc.constantFrom("plain", "fn", "async") });
const give = (s: any) => (s === undefined ? undefined : s.how === "plain" ? s.v : s.how === "fn" ? () => s.v : async () => s.v);
const headerVal = fc.stringMatching(/^[a-zA-Z0-9,;=._-]{0,12}$/);
const headers = fc.dictionary(token.map((t) => "x-c-" + t.toLowerCase()), sup(headerVal), { maxKeys: 3, noNullPrototype: true });
const bases = fc.tuple(fc.constantFrom("https://lf.example", "http://localhost:3000", "https://lf.example/langfuse", "https://lf.example:8443/a/b", "https://ex.org/ü"), fc.constantFrom("", "/")).map(([a, b]) => a + b);
const cfg = fc.record({
  base: fc.record({ via: fc.constantFrom("baseUrl", "environment", "both"), url: sup(bases) }),
  user: opt(sup(cleanString)), pass: opt(sup(cleanString)),
  name: opt(sup(headerVal)), ver: opt(sup(headerVal)), pk: opt(sup(headerVal)),
  headers: opt(headers),
  noBuffer: fc.integer({ min: 0, max: 5 }).map((n) => n === 0),
});
const reqOpt = fc.option(fc.record({ headers: opt(headers), drop: fc.boolean(), query: opt(fc.dictionary(fc.stringMatching(/^q[a-zA-Z]{0,5}$/), fc.oneof(cleanString, fc.integer(), fc.boolean(), fc.array(fc.oneof(cleanString, fc.integer()), { minLength: 1, maxLength: 3 }), fc.constant(undefined)) as any, { maxKeys: 3, noNullPrototype: true })), name: opt(headerVal), ver: opt(headerVal), pk: opt(headerVal) }, { requiredKeys: [] }), { nil: undefined });

function expectHeaders(c: any, r: any): Record<string, string> {
  const h: Record<string, string> = {};
  const set = (k: string, v: any) => { if (v != null) h[k.toLowerCase()] = String(v); };
  const opts = { "x-langfuse-sdk-name": ["name", c.name], "x-langfuse-sdk-version": ["ver", c.ver], "x-langfuse-public-key": ["pk", c.pk] } as any;
  for (const [k, v] of Object.entries<any>(c.headers ?? {})) set(k, v.v);
  if (c.user !== undefined && c.pass !== undefined) set("authorization", "Basic " + Buffer.from(`${c.user.v}:${c.pass.v}`, "utf8").toString("base64"));
  for (const [k, [n, s]] of Object.entries<any>(opts)) set(k, r?.[n] ?? s?.v);
  for (const [k, v] of Object.entries<any>(r?.headers ?? {})) set(k, v.v);
  if (r?.drop && c.headers) { const k = Object.keys(c.headers)[0]; if (k && !(k in (r.headers ?? {}))) delete h[k]; }
  return h;
}
function clientFor(c: any) {
  const o: any = { environment: c.base.via === "baseUrl" ? "" : c.base.via === "both" ? "https://other.example" : give(c.base.url) };
  if (c.base.via !== "environment") o.baseUrl = give(c.base.url);
  if (c.user !== undefined) o.username = give(c.user);
  if (c.pass !== undefined) o.password = give(c.pass);
  if (c.name !== undefined) o.xLangfuseSdkName = give(c.name);
  if (c.ver !== undefined) o.xLangfuseSdkVersion = give(c.ver);
  if (c.pk !== undefined) o.xLangfusePublicKey = give(c.pk);
  if (c.headers) o.headers = Object.fromEntries(Object.entries<any>(c.headers).map(([k, v]) => [k, give(v)]));
  return new core.LangfuseAPIClient(o);
}
async function callOne(net: FakeNet, clock: any, client: any, c: any, e: any, p: any, r: any) {
  const { args, path, query, body } = argsFor(e, p);
  const before = JSON.stringify(args);
  while (args.length < e.params.length) args.push(undefined);
  const ro: any = r && {};
  if (r?.headers || (r?.drop && c.headers)) ro.headers = Object.fromEntries(Object.entries<any>(r.headers ?? {}).map(([k, v]) => [k, give(v)]));
  if (r?.drop && c.headers) { const k = Object.keys(c.headers)[0]; if (k && !(k in ro.headers)) ro.headers[k] = null; }
  if (r?.query) ro.queryParams = r.query;
  if (r?.name !== undefined) ro.xLangfuseSdkName = r.name;
  if (r?.ver !== undefined) ro.xLangfuseSdkVersion = r.ver;
  if (r?.pk !== undefined) ro.xLangfusePublicKey = r.pk;
  net.reqs.length = 0;
  const what = `${e.client}.${e.name}(${show(args, 200)})`;
  await withoutBuffer(c.noBuffer, () => clock.drive(r ? target(client, e)[e.name](...args, ro) : target(client, e)[e.name](...args), { what }));
  same(JSON.stringify(args.slice(0, JSON.parse(before).length)), before, `${what}: the arguments were changed`);
  same(net.reqs.length, 1, `${what}: requests`);
  const q = net.reqs[0];
  same(q.method, e.method, `${what}: method`);
  const u = new URL(q.url), b = new URL(c.base.url.v);
  same(u.origin, b.origin, `${what}: host of ${q.url}`);
  same(u.hash, "", `${what}: fragment of ${q.url}`);
  const segs = (s: string) => s.split("/").filter((x, i, a) => !(x === "" && (i === 0 || i === a.length - 1)));
  const want = [...segs(b.pathname).map(decodeURIComponent), ...e.path.split("/").slice(1).map((s: string) => (/^\{\w+\}$/.test(s) ? path[s.slice(1, -1)] : s))];
  same(segs(u.pathname).map(decodeURIComponent), want, `${what}: path segments of ${q.url}`);
  const got: Record<string, string[]> = {};
  for (const [k, v] of u.searchParams) (got[k] ??= []).push(v);
  const wantQ: Record<string, string[]> = { ...query };
  for (const [k, v] of Object.entries<any>(r?.query ?? {})) if (v !== undefined) wantQ[k] = Array.isArray(v) ? v.map(String) : [String(v)];
  same(Object.fromEntries(Object.entries(got).sort()), Object.fromEntries(Object.entries(wantQ).sort()), `${what}: query of ${q.url}`);
  if (e.body) { same(typeof q.body, "string", `${what}: body`); same(JSON.parse(q.body), JSON.parse(JSON.stringify(body)), `${what}: body`); } else same(q.body, undefined, `${what}: body`);
  const h = expectHeaders(c, r);
  if (e.body) h["content-type"] = "application/json";
  same(Object.fromEntries(Object.entries(q.headers).sort()), Object.fromEntries(Object.entries(h).sort()), `${what}: headers`);
}
async function sweep(c: any) {
  const clock = useClock();
  const net = new FakeNet(() => ({ json: {} })).install();
  const client = clientFor(c.cfg);
  for (const e of endpoints) await callOne(net, clock, client, c.cfg, e, c.pool, undefined);
  return { nontrivial: true };
}
async function run(c: any) {
  const clock = useClock();
  const net = new FakeNet(() => ({ json: {} })).install();
  const client = clientFor(c.cfg);
  for (const k of c.calls) await callOne(net, clock, client, c.cfg, endpoints[k.ep], k.pool, k.r);
  return { nontrivial: c.calls.some((k: any) => Object.keys(endpoints[k.ep].query).length || endpoints[k.ep].path.includes("{") || endpoints[k.ep].body), labels: [c.calls.some((k: any) => k.r) && "request options", c.cfg.user && c.cfg.pass && "authenticated", c.cfg.noBuffer && "platform without Buffer"] };
}
// arbitrary request bodies, including values JSON drops or converts
async function runBody(c: any) {
  const clock = useClock();
  const net = new FakeNet(() => ({ json: {} })).install();
  const client = new core.LangfuseAPIClient({ environment: "https://lf.example" });
  const body = { ...c.body, when: new Date(c.t), none: undefined, nested: { list: [c.v, null, undefined] } };
  await clock.drive(client.prompts.create(body as any) as any);
  same(JSON.parse(net.reqs[0].body), JSON.parse(JSON.stringify(body)), "body");
  return { nontrivial: true };
}
main({
  assumptions: ["path arguments are non-empty, well-formed text other than '.' and '..', which no URL can carry as a segment", "query values have the documented types (text, numbers, flags, non-empty lists)", "header names given at different levels do not differ only in case", "endpoints.json is the reference for methods, paths and parameters"],
  subs: [
    { name: "calls", arb: fc.record({ cfg, calls: fc.array(fc.record({ ep: fc.nat(endpoints.length - 1), pool, r: reqOpt }), { minLength: 1, maxLength: 4 }) }), run, quick: 7500, thorough: 50000, rule: "an endpoint with a path argument, a query parameter or a body" },
    { name: "every endpoint", arb: fc.record({ cfg, pool }), run: sweep, quick: 150, thorough: 1500, rule: "all cases" },
    { name: "bodies", arb: fc.record({ body: fc.dictionary(key, jsonValue(3), { maxKeys: 4, noNullPrototype: true }), v: jsonValue(2), t: fc.integer({ min: 0, max: 4e12 }) }), run: runBody, quick: 1500, thorough: 8000, rule: "all cases" },
  ],
});
