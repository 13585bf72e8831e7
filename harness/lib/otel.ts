import { context, trace, propagation, ROOT_CONTEXT, diag, type Context } from "@opentelemetry/api";
import { AsyncLocalStorage } from "node:async_hooks";
import { BasicTracerProvider } from "@opentelemetry/sdk-trace-base";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { setLangfuseTracerProvider } from "@langfuse/tracing";
import { onReset } from "./env";

const als = new AsyncLocalStorage<Context>();
class AlsManager {
  active() {
    return als.getStore() ?? ROOT_CONTEXT;
  }
  with(ctx: any, fn: any, thisArg: any, ...args: any[]) {
    return als.run(ctx, () => fn.apply(thisArg, args));
  }
  bind(ctx: any, fn: any) {
    if (typeof fn !== "function") return fn;
    const self = this;
    return function (this: any, ...a: any[]) {
      return self.with(ctx, () => fn.apply(this, a), undefined);
    };
  }
  enable() {
    return this;
  }
  disable() {
    return this;
  }
}
context.setGlobalContextManager(new AlsManager() as any);
/** run with an empty async context */
export function isolated<T>(fn: () => T): T {
  return als.run(ROOT_CONTEXT, fn);
}

export interface SpanRec {
  name: string;
  traceId: string;
  spanId: string;
  parentId?: string;
  attributes: Record<string, any>;
  status: any;
  startMs: number;
  endMs: number;
  scope: string;
  events: any[];
  ended: boolean;
}
const ms = (t: [number, number]) => t[0] * 1000 + t[1] / 1e6;
export function snap(s: any): SpanRec {
  return {
    name: s.name,
    traceId: s.spanContext().traceId,
    spanId: s.spanContext().spanId,
    parentId: s.parentSpanContext?.spanId,
    attributes: JSON.parse(JSON.stringify(s.attributes)),
    status: { ...s.status },
    startMs: ms(s.startTime),
    endMs: ms(s.endTime),
    scope: s.instrumentationScope?.name,
    events: s.events ?? [],
    ended: s.ended,
  };
}
export class MemExporter {
  spans: SpanRec[] = [];
  batches: SpanRec[][] = [];
  shutdowns = 0;
  /** per export call behaviour: delay in ms / failure */
  plan: { delay?: number; fail?: boolean; throws?: boolean }[] = [];
  calls = 0;
  export(spans: any[], cb: (r: any) => void) {
    const p = this.plan[this.calls] ?? {};
    this.calls++;
    const recs = spans.map(snap);
    this.batches.push(recs);
    this.spans.push(...recs);
    const done = () => cb(p.fail ? { code: 1, error: new Error("export failed") } : { code: 0 });
    if (p.delay) setTimeout(done, p.delay);
    else done();
  }
  async shutdown() {
    this.shutdowns++;
  }
  async forceFlush() {}
}

const live: any[] = [];
export function makeTracing(params: any = {}, opts: { extraProcessors?: any[]; isolated?: boolean; raw?: boolean } = {}) {
  const exporter = params.exporter ?? new MemExporter();
  const processor = new LangfuseSpanProcessor({ exportMode: "immediate", publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test", ...params, exporter });
  const provider = new BasicTracerProvider({ spanProcessors: [processor, ...(opts.extraProcessors ?? [])] });
  live.push(provider);
  if (!opts.raw) {
    if (opts.isolated) setLangfuseTracerProvider(provider as any);
    else {
      trace.disable();
      trace.setGlobalTracerProvider(provider);
    }
  }
  return { exporter: exporter as MemExporter, processor, provider };
}
onReset(() => {
  trace.disable();
  propagation.disable();
  diag.disable();
  try {
    setLangfuseTracerProvider(null);
  } catch {}
  live.length = 0;
});
export { trace, context, propagation, ROOT_CONTEXT, BasicTracerProvider, LangfuseSpanProcessor };
