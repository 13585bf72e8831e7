// In-memory network: replaces globalThis.fetch by a scripted server.
export interface Req {
  n: number;
  method: string;
  url: string;
  path: string;
  query: URLSearchParams;
  headers: Record<string, string>;
  body: any; // raw: string | Uint8Array | undefined
  json: any;
  at: number;
  signal?: AbortSignal;
}
export type Reply =
  | { status?: number; json?: any; text?: string; bytes?: Uint8Array; headers?: Record<string, string>; delay?: number; bodyDelay?: number }
  | { networkError: any; delay?: number }
  | { hang: true };

export class FakeNet {
  reqs: Req[] = [];
  completed = 0;
  inFlight = 0;
  maxReqs = 20_000;
  constructor(public handler: (r: Req) => Reply | Promise<Reply>) {}
  install() {
    globalThis.fetch = ((u: any, init: any) => this.fetch(u, init)) as any;
    return this;
  }
  private async fetch(u: any, init: any = {}): Promise<Response> {
    if (this.reqs.length > this.maxReqs) throw new Error("FakeNet: request budget exceeded");
    let headers: Record<string, string> = {};
    let url: string, method: string, body: any, signal: any;
    if (typeof Request !== "undefined" && u instanceof Request) {
      url = u.url;
      method = u.method;
      u.headers.forEach((v, k) => (headers[k] = v));
      body = await u.text();
      signal = u.signal;
    } else {
      url = String(u);
      method = (init.method ?? "GET").toUpperCase();
      body = init.body;
      signal = init.signal;
    }
    const h = init.headers;
    if (h) {
      const hh = new Headers(h as any);
      hh.forEach((v, k) => (headers[k] = v));
    }
    if (body instanceof Blob) body = new Uint8Array(await body.arrayBuffer());
    else if (body instanceof ArrayBuffer) body = new Uint8Array(body);
    else if (body instanceof Uint8Array) body = new Uint8Array(body); // copy what was sent at this moment
    let json: any;
    if (typeof body === "string") {
      try {
        json = JSON.parse(body);
      } catch {}
    }
    const parsed = new URL(url);
    const req: Req = {
      n: this.reqs.length,
      method,
      url,
      path: parsed.pathname,
      query: parsed.searchParams,
      headers,
      body,
      json,
      at: Date.now(),
      signal,
    };
    if (signal?.aborted) throw abortErr(signal);
    this.reqs.push(req);
    this.inFlight++;
    let abortReject: any;
    const aborted = new Promise<never>((_, rej) => (abortReject = rej));
    aborted.catch(() => {});
    const onAbort = () => abortReject(abortErr(signal));
    signal?.addEventListener?.("abort", onAbort);
    try {
      const rep: any = await Promise.race([Promise.resolve(this.handler(req)), aborted]);
      if (rep.hang) return await aborted;
      if (rep.delay) await Promise.race([new Promise((r) => setTimeout(r, rep.delay)), aborted]);
      if ("networkError" in rep) throw rep.networkError;
      const status = rep.status ?? 200;
      const b = rep.bytes ?? rep.text ?? (rep.json !== undefined ? JSON.stringify(rep.json) : null);
      const nullBody = status === 204 || status === 304 || status === 205;
      this.completed++;
      const slow = rep.bodyDelay && !nullBody && b !== null ? slowBody(b, rep.bodyDelay, signal) : null;
      return new Response(nullBody ? null : (slow ?? b), {
        status,
        headers: { ...(rep.json !== undefined ? { "content-type": "application/json" } : {}), ...rep.headers },
      });
    } finally {
      this.inFlight--;
      signal?.removeEventListener?.("abort", onAbort);
    }
  }
}
// like the platform's fetch: rejects with the signal's reason, whatever it is
function abortErr(signal: any) {
  return signal?.reason ?? new DOMException("The operation was aborted", "AbortError");
}
// a body that arrives some time after the headers; an abort in between breaks it off
function slowBody(b: any, delay: number, signal: any): ReadableStream {
  const data = typeof b === "string" ? new TextEncoder().encode(b) : b;
  return new ReadableStream({
    start(ctl) {
      let done = false;
      const once = (f: () => void) => { if (!done) { done = true; f(); } };
      setTimeout(() => once(() => { if (data.length) ctl.enqueue(data); ctl.close(); }), delay);
      signal?.addEventListener?.("abort", () => once(() => ctl.error(abortErr(signal))));
    },
  });
}
