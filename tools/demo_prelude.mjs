import { createRequire } from "node:module";
import { AsyncLocalStorage } from "node:async_hooks";
import assert from "node:assert";
const R = process.cwd();
const imp = (p) => import(`${R}/packages/${p}/dist/index.mjs`);
const req = createRequire(`${R}/packages/otel/package.json`);
const otel = async (p) => { const m = await import(req.resolve(p).replace(/build\/src/, "build/esm").replace(/\.cjs$/, ".mjs")).catch(() => null); return m ?? req(p); };
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
/** tracing set up with an in-memory exporter */
async function tracing(params = {}) {
  const api = req("@opentelemetry/api");
  const { BasicTracerProvider } = req("@opentelemetry/sdk-trace-base");
  const { LangfuseSpanProcessor } = await imp("otel");
  const als = new AsyncLocalStorage();
  api.context.setGlobalContextManager({
    active: () => als.getStore() ?? api.ROOT_CONTEXT,
    with: (c, f, t, ...a) => als.run(c, () => f.apply(t, a)),
    bind: (c, f) => f, enable() { return this; }, disable() { return this; },
  });
  const spans = [];
  const exporter = { export(s, cb) { for (const x of s) spans.push({ name: x.name, attributes: { ...x.attributes }, status: x.status, spanId: x.spanContext().spanId, traceId: x.spanContext().traceId, parentId: x.parentSpanContext?.spanId }); cb({ code: 0 }); }, async shutdown() {}, async forceFlush() {} };
  const processor = new LangfuseSpanProcessor({ publicKey: "pk", secretKey: "sk", baseUrl: "http://127.0.0.1:9", exportMode: "immediate", exporter, ...params });
  const provider = new BasicTracerProvider({ spanProcessors: [processor] });
  api.trace.setGlobalTracerProvider(provider);
  return { api, spans, exporter, processor, provider };
}
/** replaces fetch; handler(request) returns {status, json | text, headers} or throws */
function fakeFetch(handler) {
  const reqs = [];
  globalThis.fetch = async (u, init = {}) => {
    const url = typeof u === "string" ? u : u.url ?? String(u);
    const r = { url, path: new URL(url).pathname, query: new URL(url).searchParams, method: init.method ?? "GET", headers: init.headers, body: init.body, signal: init.signal };
    try { r.json = JSON.parse(init.body); } catch {}
    reqs.push(r);
    const rep = (await handler(r)) ?? {};
    return new Response(rep.text ?? (rep.bytes ?? JSON.stringify(rep.json ?? {})), { status: rep.status ?? 200, headers: { "content-type": "application/json", ...rep.headers } });
  };
  return reqs;
}
const ok = () => { console.log("ok"); process.exit(0); };
process.on("unhandledRejection", (e) => { console.error("unhandled", e); process.exit(3); });
setTimeout(() => { console.error("demo timed out"); process.exit(4); }, 60000).unref();
