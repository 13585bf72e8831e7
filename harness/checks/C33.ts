import fc from "fast-check";
import http from "node:http";
import https from "node:https";
import { syncBuiltinESMExports } from "node:module";
import { EventEmitter } from "node:events";
import { Writable } from "node:stream";
import { main, ensure, same, show, fail, knownOrFail } from "../lib/runner";
import { useClock, logs, turn, withoutBuffer } from "../lib/env";
import { FakeNet } from "../lib/net";
import { isolated, trace, ROOT_CONTEXT, BasicTracerProvider, LangfuseSpanProcessor, MemExporter } from "../lib/otel";
import { LangfuseClient } from "@langfuse/client";
import { token, opt, ident } from "../lib/arbs";

/** one setting: constructor argument, environment variable (in process.env or on globalThis), both or neither */
const setting = <T>(v: fc.Arbitrary<T>) => fc.record({ arg: fc.option(v, { nil: undefined, freq: 2 }), env: fc.option(v, { nil: undefined, freq: 2 }), where: fc.constantFrom("process", "process", "process", "global", "empty") });
const settings = fc.record({
  pk: setting(token.map((t) => "pk-" + t)), sk: setting(fc.tuple(token, fc.constantFrom("", "", "", "é", "ß€", "鍵", "🔑")).map(([t, u]) => "sk-" + t + u)),
  base: setting(fc.constantFrom("https://a.example", "http://b.example:3000", "https://c.example/sub", "http://localhost:1234")),
  legacyBase: opt(fc.constantFrom("https://legacy.example", "http://old.example/x")),
  timeout: setting(fc.constantFrom(0.5, 1, 2, 7, 30, 120)),
  flushAt: setting(fc.constantFrom(1, 2, 3, 7, 20, 64, 150)), flushInterval: setting(fc.constantFrom(0.5, 1, 2, 3, 9, 60, 300)),
  media: setting(fc.boolean()), mediaEnvText: fc.constantFrom("false", "0", "FALSE", "False", "true", "1", "yes"),
  environment: setting(fc.oneof({ weight: 6, arbitrary: ident }, { weight: 1, arbitrary: fc.constant("") })), release: setting(fc.oneof({ weight: 6, arbitrary: ident }, { weight: 1, arbitrary: fc.constant("") })),
  headers: opt(fc.dictionary(token.map((t) => "x-add-" + t.toLowerCase()), token, { maxKeys: 3, noNullPrototype: true })),
  mode: fc.constantFrom("batched", undefined, undefined, "immediate"),
  noBuffer: fc.constantFrom(false, false, false, true),
});
const ENV: Record<string, string> = { pk: "LANGFUSE_PUBLIC_KEY", sk: "LANGFUSE_SECRET_KEY", base: "LANGFUSE_BASE_URL", timeout: "LANGFUSE_TIMEOUT", flushAt: "LANGFUSE_FLUSH_AT", flushInterval: "LANGFUSE_FLUSH_INTERVAL", media: "LANGFUSE_MEDIA_UPLOAD_ENABLED", environment: "LANGFUSE_TRACING_ENVIRONMENT", release: "LANGFUSE_RELEASE" };
/** sets the environment up and returns the effective values */
function apply(c: any, args = true): any {
  const eff: any = {};
  for (const [k, name] of Object.entries(ENV)) {
    delete process.env[name];
    delete (globalThis as any)[name];
    const s = c[k];
    let env = s.env === "" ? undefined : s.env;
    if (env !== undefined) {
      const text = k === "media" ? c.mediaEnvText : String(env);
      if (s.where === "process") process.env[name] = text;
      else if (s.where === "global") { if (c.emptyToo) process.env[name] = ""; (globalThis as any)[name] = text; }
      else { process.env[name] = ""; env = undefined; } // an empty variable counts as unset
      if (k === "media" && env !== undefined) env = !["false", "0"].includes(text.toLowerCase());
    }
    eff[k] = args && s.arg !== undefined ? s.arg : env;
  }
  delete process.env.LANGFUSE_BASEURL;
  if (c.legacyBase) process.env.LANGFUSE_BASEURL = c.legacyBase;
  eff.base ??= c.legacyBase ?? "https://cloud.langfuse.com";
  eff.timeout ??= 5;
  eff.media ??= true;
  return eff;
}
const cleanup = () => { for (const n of Object.values(ENV)) delete (globalThis as any)[n]; };
const params = (c: any, keys: string[]) => {
  const names: any = { pk: "publicKey", sk: "secretKey", base: "baseUrl", media: "mediaUploadEnabled" };
  const p: any = {};
  for (const k of keys) if (c[k].arg !== undefined) p[names[k] ?? k] = c[k].arg;
  if (c.headers) p.additionalHeaders = c.headers;
  return Object.keys(p).length || !c.bare ? p : undefined;
};
const auth = (e: any) => "Basic " + Buffer.from(`${e.pk}:${e.sk}`).toString("base64");
const warned = (what: string) => logs.some((l) => l.ch === "warn" && l.args.some((a) => typeof a === "string" && a.includes(what)));

// ---------- client
async function runClient(c: any) {
  try {
    const clock = useClock();
    const e = apply(c);
    // settings without a constructor argument
    const envOnly = apply({ ...c, ...Object.fromEntries(["flushAt", "flushInterval", "environment"].map((k) => [k, { ...c[k], arg: undefined }])) });
    let stall = false;
    const net = new FakeNet((r) => (stall ? { hang: true } : r.path.endsWith("/ingestion") ? { status: 207, json: { successes: [], errors: [] } } : { json: { id: "t" } })).install();
    const client = new LangfuseClient(params(c, ["pk", "sk", "base", "timeout"]));
    same(warned("LANGFUSE_PUBLIC_KEY"), e.pk === undefined, "warning about a missing public key");
    same(warned("LANGFUSE_SECRET_KEY"), e.sk === undefined, "warning about a missing secret key");
    // later changes of the environment must not matter for what was read at construction
    for (const n of ["LANGFUSE_PUBLIC_KEY", "LANGFUSE_SECRET_KEY", "LANGFUSE_BASE_URL", "LANGFUSE_BASEURL"]) { process.env[n] = "changed-" + n; delete (globalThis as any)[n]; }
    await clock.drive(client.api.trace.get("t1") as any);
    const check = (q: any, what: string) => {
      ensure(q.url.startsWith(e.base + "/api/public/"), () => `${what}: sent to ${q.url}, configured ${e.base}`);
      same(q.headers.authorization, e.pk !== undefined && e.sk !== undefined ? auth(e) : undefined, `${what}: authorization`);
      same(q.headers["x-langfuse-public-key"], e.pk, `${what}: public key header`);
      same(q.headers["x-langfuse-sdk-name"], "javascript", `${what}: SDK name header`);
      ensure(/^\d+\.\d+\.\d+/.test(q.headers["x-langfuse-sdk-version"] ?? ""), () => `${what}: SDK version header ${show(q.headers["x-langfuse-sdk-version"])}`);
      for (const [k, v] of Object.entries(c.headers ?? {})) same(q.headers[k], v, `${what}: header ${k}`);
    };
    check(net.reqs[0], "trace request");
    // scores: thresholds
    net.reqs.length = 0;
    const at = envOnly.flushAt ?? 10, every = (envOnly.flushInterval ?? 1) * 1000;
    for (let i = 0; i < at - 1; i++) client.score.create({ name: "s" + i, value: i, traceId: "t" });
    await turn(6);
    same(net.reqs.length, 0, `score requests after ${at - 1} of ${at} scores`);
    client.score.create({ name: "last", value: 1, traceId: "t" });
    await turn(6);
    same(net.reqs.length, Math.ceil(at / 100), `score requests after ${at} scores`); // a request carries at most 100
    for (const q of net.reqs) check(q, "score request");
    const batch = net.reqs.flatMap((q) => q.json.batch);
    same(batch.length, at, "scores sent when the limit was reached");
    for (const ev of batch) same(ev.body.environment, envOnly.environment, "environment of a score");
    await clock.settle(600_000);
    net.reqs.length = 0;
    if (at > 1) {
      client.score.create({ name: "lonely", value: 1, traceId: "t", environment: "own" });
      await clock.advance(every - 1);
      same(net.reqs.length, 0, `score requests before the interval of ${every} ms`);
      await clock.advance(2);
      same(net.reqs.length, 1, `score requests after the interval of ${every} ms`);
      same(net.reqs[0].json.batch[0].body.environment, "own", "environment given with the score");
    }
    // request timeout
    stall = true;
    const t0 = clock.now;
    let failed = false;
    try { await clock.drive(client.api.trace.get("t1", {}, { maxRetries: 0 }) as any); } catch { failed = true; }
    ensure(failed, "a stalled request succeeded");
    const took = clock.now - t0;
    if (took !== e.timeout * 1000) (took === 60000 ? knownOrFail : (_: string, m: string) => fail(m))("client-timeout", `a stalled request failed after ${took} ms although the timeout is ${e.timeout} s`);
    return { nontrivial: Object.keys(ENV).filter((k) => c[k].arg !== undefined || c[k].env !== undefined).length >= 3, labels: [["pk", "sk", "base"].some((k) => c[k].arg !== undefined && c[k].env !== undefined && c[k].arg !== c[k].env) && "argument against environment", (e.pk === undefined || e.sk === undefined) && "missing credentials"] };
  } finally { cleanup(); }
}

// ---------- span processor with its own exporter
const PNG = "data:image/png;base64,iVBORw0KGgo=";
async function runProcessor(c: any) {
  try {
    const clock = useClock();
    return await isolated(async () => {
      const e = apply(c);
      const media: any[] = [];
      new FakeNet((r) => { if (r.method === "POST" && r.path.endsWith("/media")) { media.push(r); return { json: { mediaId: "m1", uploadUrl: null } }; } return { json: {} }; }).install();
      const exporter = new MemExporter();
      const proc = new LangfuseSpanProcessor({ ...params(c, ["pk", "sk", "base", "timeout", "flushAt", "flushInterval", "media", "environment", "release"]), exporter, exportMode: c.mode } as any);
      ensure(!warned("LANGFUSE_PUBLIC_KEY") && !warned("LANGFUSE_SECRET_KEY"), "warned about missing keys although an exporter is given");
      const provider = new BasicTracerProvider({ spanProcessors: [proc as any] });
      const tracer = provider.getTracer("langfuse-sdk");
      // environment and release are on every span, whoever made it and whatever its parent is
      let made = 0, last: any;
      const span = (n: string) => {
        const kind = c.kinds[made++ % c.kinds.length];
        const parent = kind === "child" && last ? trace.setSpan(ROOT_CONTEXT, last) : kind === "remote" ? trace.setSpanContext(ROOT_CONTEXT, { traceId: "abcdef" + String(made).padStart(26, "0"), spanId: "0123" + String(made).padStart(12, "0"), traceFlags: 1, isRemote: true }) : ROOT_CONTEXT;
        const s = (kind === "genai" ? provider.getTracer("my-lib") : kind === "scope" ? provider.getTracer("ai") : tracer).startSpan(n, kind === "genai" ? { attributes: { "gen_ai.system": "x" } } : {}, parent);
        s.setAttribute("langfuse.observation.input", PNG);
        last = s;
        s.end();
      };
      const at = e.flushAt ?? 512, every = (e.flushInterval ?? 5) * 1000;
      const n = Math.min(at, 160);
      if (c.mode === "immediate") {
        span("one");
        await turn(30);
        same(exporter.spans.length, 1, "spans exported at once in immediate mode");
      } else {
        for (let i = 0; i < n - 1; i++) span("s" + i);
        await turn(30);
        same(exporter.spans.length, 0, `spans exported after ${n - 1} of ${at}`);
        if (at <= 160) {
          span("last");
          await turn(40);
          same(exporter.spans.length, at, `spans exported after ${at} ended`);
        }
        const had = exporter.spans.length;
        if (at > 1) {
          if (n - 1 === 0 || at <= 160) span("lonely");
          await turn(30);
          await clock.advance(every - 2);
          same(exporter.spans.length, had, `spans exported before the interval of ${every} ms`);
          await clock.advance(4);
          ensure(exporter.spans.length > had, () => `nothing exported after the interval of ${every} ms`);
        }
        ensure(exporter.batches.every((b) => b.length <= at), () => `batches of ${show(exporter.batches.map((b) => b.length))} spans with flushAt ${at}`);
      }
      await clock.drive(proc.forceFlush());
      for (const s of exporter.spans) {
        same(s.attributes["langfuse.environment"], e.environment, "environment on a span");
        same(s.attributes["langfuse.release"], e.release, "release on a span");
        if (e.media) ensure(String(s.attributes["langfuse.observation.input"]).startsWith("@@@langfuseMedia:"), () => `media not extracted: ${show(s.attributes["langfuse.observation.input"])}`);
        else same(s.attributes["langfuse.observation.input"], PNG, "media although media upload is off");
      }
      if (!e.media) same(media.length, 0, "media requests although media upload is off");
      else for (const m of media) {
        ensure(m.url.startsWith(e.base + "/api/public/media"), () => `media request to ${m.url}, configured ${e.base}`);
        same(m.headers.authorization, e.pk !== undefined && e.sk !== undefined ? auth(e) : undefined, "authorization of a media request");
        for (const [k, v] of Object.entries(c.headers ?? {})) same(m.headers[k], v, `media request header ${k}`);
      }
      await clock.drive(proc.shutdown());
      return { nontrivial: Object.keys(ENV).filter((k) => c[k].arg !== undefined || c[k].env !== undefined).length >= 3, labels: [e.media ? "media on" : "media off", c.mode ?? "default mode"] };
    });
  } finally { cleanup(); }
}

// ---------- span processor with the default exporter: node's http(s) is replaced by a recorder
async function runExporter(c: any) {
  const realH = http.request, realS = https.request;
  try {
    const clock = useClock();
    new FakeNet(() => ({ json: {} })).install();
    const sent: any[] = [];
    const fake = (url: any, options: any, cb: any) => {
      const chunks: Buffer[] = [];
      const w: any = new Writable({ write(ch, _e, done) { chunks.push(Buffer.from(ch)); done(); }, final(done) { done(); const res: any = new EventEmitter(); res.statusCode = c.status; res.headers = {}; cb(res); sent.push({ url: String(url), headers: options.headers, method: options.method, timeout: w.tmo, body: Buffer.concat(chunks) }); queueMicrotask(() => res.emit("end")); } });
      w.setTimeout = (ms: number) => { w.tmo = ms; return w; };
      w.setHeader = () => {};
      return w;
    };
    (http as any).request = fake; (https as any).request = fake;
    syncBuiltinESMExports();
    return await isolated(async () => {
      const e = apply(c);
      const p = params(c, ["pk", "sk", "base", "timeout", "flushAt", "flushInterval", "media", "environment", "release"]);
      const proc = withoutBuffer(c.noBuffer, () => new LangfuseSpanProcessor(c.mode ? { ...p, exportMode: c.mode } : p));
      same(warned("LANGFUSE_PUBLIC_KEY"), e.pk === undefined, "warning about a missing public key");
      same(warned("LANGFUSE_SECRET_KEY"), e.sk === undefined, "warning about a missing secret key");
      const provider = new BasicTracerProvider({ spanProcessors: [proc as any] });
      for (const n of Object.values(ENV)) { delete process.env[n]; delete (globalThis as any)[n]; }
      provider.getTracer("langfuse-sdk").startSpan("span-" + c.name).end();
      await clock.drive(proc.forceFlush(), { what: "forceFlush" });
      same(sent.length, 1, "export requests");
      const q = sent[0];
      same(q.method, "POST", "method");
      same(q.url, e.base + "/api/public/otel/v1/traces", "export url");
      const h = Object.fromEntries(Object.entries<any>(q.headers).map(([k, v]) => [k.toLowerCase(), v]));
      if (e.pk !== undefined && e.sk !== undefined) same(h.authorization, auth(e), "authorization of the export");
      if (e.pk !== undefined) same(h["x-langfuse-public-key"], e.pk, "public key header of the export");
      same(h["x-langfuse-sdk-name"], "javascript", "SDK name header");
      ensure(typeof h["x-langfuse-sdk-version"] === "string" && h["x-langfuse-sdk-version"], "SDK version header missing");
      for (const [k, v] of Object.entries(c.headers ?? {})) same(h[k], v, `export header ${k}`);
      ensure(q.timeout <= e.timeout * 1000 && q.timeout >= e.timeout * 1000 - 50, () => `export timeout ${q.timeout} ms, configured ${e.timeout} s`);
      ensure(q.body.includes("span-" + c.name), "the span is not in the export request");
      await clock.drive(proc.shutdown());
      return { nontrivial: ["pk", "sk", "base", "timeout"].filter((k) => c[k].arg !== undefined || c[k].env !== undefined).length >= 2, labels: [q.url.startsWith("https") ? "https" : "http", (e.pk === undefined || e.sk === undefined) && "missing credentials"] };
    });
  } finally { (http as any).request = realH; (https as any).request = realS; syncBuiltinESMExports(); cleanup(); }
}
const withExtra = settings.chain((s) => fc.record({ bare: fc.boolean(), emptyToo: fc.boolean(), kinds: fc.array(fc.constantFrom("root", "root", "child", "remote", "genai", "scope"), { minLength: 1, maxLength: 3 }) }).map((x) => ({ ...s, ...x })))
  // sometimes everything comes from the environment and no options object is given at all
  .chain((s: any) => fc.constantFrom(false, false, false, false, true).map((none) => (none ? { ...Object.fromEntries(Object.entries<any>(s).map(([k, v]) => [k, v && typeof v === "object" && "where" in v ? { ...v, arg: undefined } : v])), headers: undefined, mode: undefined, bare: true } : s) as any));
main({
  assumptions: ["settings have the documented types; numbers in environment variables are positive", "base URLs have no trailing slash", "the network below the default exporter (node http/https) is replaced by a recorder"],
  subs: [
    { name: "client", arb: withExtra, run: runClient, quick: 2800, thorough: 15000, rule: "at least three settings given" },
    { name: "processor", arb: withExtra, run: runProcessor, quick: 2800, thorough: 12000, rule: "at least three settings given" },
    { name: "default exporter", arb: withExtra.chain((s) => fc.record({ name: token, status: fc.constantFrom(200, 200, 207) }).map((x) => ({ ...s, ...x }))), run: runExporter, quick: 1600, thorough: 8000, rule: "at least two of keys, host and timeout given" },
  ],
});
