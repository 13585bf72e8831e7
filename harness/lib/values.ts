import fc from "fast-check";
import { anyString, jsonValue } from "./arbs";

// values are described by plain data and built inside the case so that shrinking and replay work
export type V = { k: string; v?: any };
export const vArb: fc.Arbitrary<V> = fc.oneof(
  { weight: 100, arbitrary: jsonValue(3).map((v) => ({ k: "json", v })) },
  { weight: 60, arbitrary: anyString.map((v) => ({ k: "json", v })) },
  { weight: 60, arbitrary: fc.constantFrom("undefined", "null", "nan", "inf", "negzero", "bigint", "date", "baddate", "fn", "symbol", "cycle", "map", "set", "class", "throwGetter", "toJSON", "throwToJSON", "sparse", "undefProp", "nullProto", "err", "bytes", "deepCycle", "bigInside", "boxed", "empty", "zero", "false").map((k) => ({ k })) },
  { weight: 1, arbitrary: fc.constantFrom<V>({ k: "text", v: 1_100_000 }, { k: "text", v: 262_200 }, { k: "wide", v: 3000 }, { k: "long", v: 5000 }, { k: "deep", v: 150 }) },
);
export function build(d: V): any {
  switch (d.k) {
    case "json": return structuredClone(d.v);
    case "text": return "lorem ipsum ".repeat(Math.ceil(d.v / 12)).slice(0, d.v - 3) + "end";
    case "wide": return Object.fromEntries(Array.from({ length: d.v }, (_, i) => ["k" + i, i]));
    case "long": return Array.from({ length: d.v }, (_, i) => "v" + i);
    case "deep": { let o: any = { leaf: 1 }; for (let i = 0; i < d.v; i++) o = i % 2 ? [o] : { n: o }; return o; }
    case "undefined": return undefined;
    case "null": return null;
    case "nan": return NaN;
    case "inf": return -Infinity;
    case "negzero": return -0;
    case "bigint": return 12345678901234567890n;
    case "date": return new Date(1700000000123);
    case "baddate": return new Date(NaN);
    case "fn": return () => 1;
    case "symbol": return Symbol("s");
    case "cycle": { const o: any = { a: 1 }; o.self = o; return o; }
    case "deepCycle": { const o: any = { a: [{ b: {} }] }; o.a[0].b.up = o.a; return o; }
    case "map": return new Map([["a", 1]]);
    case "set": return new Set([1]);
    case "class": { class P { x = 1; get y() { return 2; } } return new P(); }
    case "throwGetter": return { ok: 1, get bad() { throw new Error("getter"); } };
    case "toJSON": return { toJSON: () => ({ t: 1 }) };
    case "throwToJSON": return { toJSON: () => { throw new Error("no"); } };
    case "sparse": return [1, , 3];
    case "undefProp": return { a: undefined, b: null, c: [undefined] };
    case "nullProto": return Object.assign(Object.create(null), { a: 1 });
    case "err": return new Error("x");
    case "bytes": return new Uint8Array([1, 2]);
    case "bigInside": return { a: [1n] };
    case "boxed": return Object("str");
    case "empty": return "";
    case "zero": return 0;
    case "false": return false;
  }
}
export const MARK = "<failed to serialize>";
export function enc(v: any): string | undefined {
  if (typeof v === "string") return v;
  if (v === undefined || v === null) return undefined;
  try {
    return JSON.stringify(v);
  } catch {
    return MARK;
  }
}
export const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"] as const;
