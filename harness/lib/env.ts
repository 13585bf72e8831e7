// Owns every source of non-determinism the SDK can see: clock, timers, randomness, fetch, console, process.env.
import nodeCrypto from "node:crypto";
import { Buffer } from "node:buffer";
import { AsyncLocalStorage } from "node:async_hooks";

export const realSetImmediate = setImmediate;
export const realSetTimeout = setTimeout;
const realClearTimeout = clearTimeout;
const realSetInterval = setInterval;
const realClearInterval = clearInterval;
const RealDate = Date;
const realPerfNow = performance.now.bind(performance);
const realFetch = globalThis.fetch;
export const realRandom = Math.random;
const realConsole = {
  log: console.log,
  info: console.info,
  warn: console.warn,
  error: console.error,
  debug: console.debug,
  trace: console.trace,
};
const baseEnv = { ...process.env };

// crypto.subtle.digest goes through the libuv pool; replace it by an equivalent synchronous hash so that
// a case is a pure function of its input.
const subtle = globalThis.crypto.subtle;
(subtle as any).digest = async (alg: any, data: any) => {
  const name = (typeof alg === "string" ? alg : alg.name).toLowerCase().replace("-", "");
  const buf = ArrayBuffer.isView(data)
    ? Buffer.from(data.buffer, data.byteOffset, data.byteLength)
    : Buffer.from(data as ArrayBuffer);
  const h = nodeCrypto.createHash(name).update(buf).digest();
  return h.buffer.slice(h.byteOffset, h.byteOffset + h.byteLength);
};

/** Runs `fn` up to its first request as on a platform without Node's global Buffer (browsers, edge runtimes). */
export function withoutBuffer<T>(hide: boolean, fn: () => T): T {
  if (!hide) return fn();
  const real = globalThis.Buffer;
  const fetchNow = globalThis.fetch;
  const back = () => { (globalThis as any).Buffer = real; globalThis.fetch = fetchNow; };
  // Node's own Request and Response need the global
  globalThis.fetch = ((...a: any[]) => { back(); return (fetchNow as any)(...a); }) as any;
  (globalThis as any).Buffer = undefined;
  let r: any;
  try { r = fn(); } catch (e) { back(); throw e; }
  if (r && typeof r.then === "function") return r.finally(back);
  back();
  return r;
}

export async function turn(n = 1) {
  for (let i = 0; i < n; i++) await new Promise<void>((r) => realSetImmediate(() => r()));
}

type T = { at: number; seq: number; fn: (...a: any[]) => void; args: any[]; every?: number; id: number; unref?: boolean };

export class Stuck extends Error {}

export const EPOCH = RealDate.UTC(2024, 0, 1);

export class VirtualClock {
  now = EPOCH;
  private seq = 0;
  private timers = new Map<number, T>();
  fired = 0;

  install() {
    const self = this;
    const mk = (t: T) => {
      const h: any = {
        __id: t.id,
        ref: () => ((t.unref = false), h),
        unref: () => ((t.unref = true), h),
        hasRef: () => !t.unref,
        refresh: () => ((t.at = self.now + (t.every ?? (t as any).delay ?? 0)), h),
        close: () => self.timers.delete(t.id),
        [Symbol.toPrimitive]: () => t.id,
      };
      return h;
    };
    const add = (fn: any, ms: any, args: any[], every: boolean) => {
      let d = Number(ms);
      if (!(d >= 1)) d = 1;
      if (d > 2147483647) d = 1;
      // like real timers, callbacks run in the async context in which they were scheduled
      const ctx = AsyncLocalStorage.snapshot();
      const t: T = { at: self.now + d, seq: ++self.seq, fn: (...a: any[]) => ctx(() => fn(...a)), args, id: self.seq };
      (t as any).delay = d;
      if (every) t.every = d;
      self.timers.set(t.id, t);
      return mk(t);
    };
    const clr = (h: any) => {
      if (h == null) return;
      const id = typeof h === "object" ? h.__id : Number(h);
      if (id !== undefined) self.timers.delete(id);
    };
    (globalThis as any).setTimeout = (fn: any, ms: any, ...a: any[]) => add(fn, ms, a, false);
    (globalThis as any).setInterval = (fn: any, ms: any, ...a: any[]) => add(fn, ms, a, true);
    (globalThis as any).clearTimeout = clr;
    (globalThis as any).clearInterval = clr;
    class FakeDate extends RealDate {
      constructor(...a: any[]) {
        if (a.length === 0) super(self.now);
        else super(...(a as [any]));
      }
      static now() {
        return self.now;
      }
    }
    (globalThis as any).Date = FakeDate;
    performance.now = () => self.now - EPOCH;
    return this;
  }
  uninstall() {
    (globalThis as any).setTimeout = realSetTimeout;
    (globalThis as any).setInterval = realSetInterval;
    (globalThis as any).clearTimeout = realClearTimeout;
    (globalThis as any).clearInterval = realClearInterval;
    (globalThis as any).Date = RealDate;
    performance.now = realPerfNow;
  }
  pending() {
    return this.timers.size;
  }
  /** delays of the pending timers that keep a process alive */
  holding(): number[] {
    return [...this.timers.values()].filter((t) => !t.unref).map((t) => (t as any).delay);
  }
  private next(): T | undefined {
    let best: T | undefined;
    for (const t of this.timers.values())
      if (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq)) best = t;
    return best;
  }
  private fire(t: T) {
    if (t.at > this.now) this.now = t.at;
    if (t.every !== undefined) {
      t.at = this.now + t.every;
      t.seq = ++this.seq;
    } else this.timers.delete(t.id);
    this.fired++;
    t.fn(...t.args);
  }
  /** advance by ms, firing everything due, draining microtasks between timers */
  async advance(ms: number, maxFires = 100_000) {
    const end = this.now + ms;
    await turn(4);
    let n = 0;
    for (;;) {
      const t = this.next();
      if (!t || t.at > end) break;
      if (++n > maxFires) throw new Stuck(`more than ${maxFires} timers fired within ${ms}ms`);
      this.fire(t);
      await turn(4);
    }
    this.now = end;
  }
  /** run until the promise settles; throws Stuck if nothing can make it settle */
  async drive<T>(p: Promise<T>, opts: { maxMs?: number; maxFires?: number; what?: string } = {}): Promise<T> {
    let state: 0 | 1 | 2 = 0;
    let val: any;
    p.then(
      (v) => {
        state = 1;
        val = v;
      },
      (e) => {
        state = 2;
        val = e;
      },
    );
    const limit = this.now + (opts.maxMs ?? 24 * 3600_000);
    const maxFires = opts.maxFires ?? 50_000;
    let fires = 0;
    for (;;) {
      await turn(1);
      if (state) break;
      await turn(3);
      if (state) break;
      const t = this.next();
      if (!t) {
        await turn(20);
        if (state) break;
        if (this.next()) continue;
        throw new Stuck(`${opts.what ?? "operation"} never settles: nothing is pending that could complete it`);
      }
      if (t.at > limit)
        throw new Stuck(`${opts.what ?? "operation"} did not settle within ${opts.maxMs ?? 86400000} ms of virtual time`);
      if (++fires > maxFires) throw new Stuck(`${opts.what ?? "operation"} did not settle after ${maxFires} timers`);
      this.fire(t);
    }
    if ((state as number) === 2) throw val;
    return val;
  }
  /** run all timers and microtasks until quiescent or until ms elapsed */
  async settle(maxMs = 600_000, maxFires = 50_000) {
    const end = this.now + maxMs;
    let n = 0;
    await turn(3);
    for (;;) {
      const t = this.next();
      if (!t || t.at > end) break;
      if (++n > maxFires) throw new Stuck("timers never quiesce");
      this.fire(t);
      await turn(4);
    }
    await turn(4);
  }
  sleep(ms: number): Promise<void> {
    return new Promise((r) => (globalThis as any).setTimeout(r, Math.max(1, ms)));
  }
}

let clock: VirtualClock | null = null;
export function useClock(): VirtualClock {
  clock?.uninstall();
  clock = new VirtualClock().install();
  return clock;
}

function mulberry(seed: number) {
  let a = seed | 0;
  return () => {
    a = (a + 0x6d2b79f5) | 0;
    let t = Math.imul(a ^ (a >>> 15), 1 | a);
    t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  };
}

export const logs: { ch: string; args: any[] }[] = [];
export let captureLogs = true;

const resetHooks: (() => void)[] = [];
export function onReset(f: () => void) {
  resetHooks.push(f);
}

export function resetGlobals(seed: number) {
  clock?.uninstall();
  clock = null;
  globalThis.fetch = ((..._a: any[]) => {
    throw new Error("unexpected network access");
  }) as any;
  Math.random = seed ? mulberry(seed) : realRandom;
  for (const k of Object.keys(process.env)) if (!(k in baseEnv)) delete process.env[k];
  for (const [k, v] of Object.entries(baseEnv)) if (process.env[k] !== v) process.env[k] = v;
  logs.length = 0;
  for (const ch of Object.keys(realConsole) as (keyof typeof realConsole)[]) {
    (console as any)[ch] = seed
      ? (...args: any[]) => {
          if (logs.length < 5000) logs.push({ ch, args });
        }
      : realConsole[ch];
  }
  for (const f of resetHooks) f();
}
export const realLog = realConsole.log.bind(console);
