import fc from "fast-check";
import ENDPOINTS from "../data/endpoints.json";
import * as core from "@langfuse/core";
import { cleanString, jsonObject } from "./arbs";

export interface Endpoint { client: string; name: string; method: string; path: string; params: string[]; pathTypes: Record<string, string>; query: Record<string, { from: string; type: string; list: boolean }>; body: boolean; errors: Record<string, string>; nothing: boolean }
export const endpoints = ENDPOINTS as unknown as Endpoint[];
export const errorClass = (name: string): any => name.split(".").reduce((o: any, k) => o[k], core as any);
export const target = (client: any, e: Endpoint) => e.client.split(".").reduce((o, k) => o[k], client);

/** path arguments: any non-empty text except dot segments, which no URL can carry */
export const segment = fc.oneof(
  { weight: 2, arbitrary: cleanString },
  { weight: 2, arbitrary: fc.constantFrom("a/b", "a b", "a?b=c", "a#b", "a%2Fb", "a&b", "ü/ö", "..a", "a/..", "../x", "/", "a/", "/a", "//", "a+b", "a:b", "a;b", "a,b", "@", "😀", "%", "%25", "\\", "a\\b", "[x]", "{x}", "'", "a.b", "...") },
).filter((s) => s !== "" && s !== "." && s !== "..");
export const pool = fc.record({ seg: fc.array(segment, { minLength: 2, maxLength: 3 }), n: fc.integer({ min: 0, max: 1000 }), text: fc.array(cleanString, { minLength: 2, maxLength: 3 }), flag: fc.boolean(), body: jsonObject(2), mask: fc.integer({ min: 0, max: 2 ** 30 - 1 }) });
/** arguments for an endpoint out of a pool of values, with what the request must contain */
export function argsFor(e: Endpoint, p: any) {
  let k = 0;
  const args: any[] = [];
  const path: Record<string, string> = {};
  const query: Record<string, string[]> = {};
  let body: any;
  for (const name of e.params) {
    if (name !== "request") {
      const v: any = e.pathTypes[name] === "number" ? p.n : p.seg[k++ % p.seg.length];
      args.push(v);
      path[name] = String(v);
    } else if (e.body) { body = p.body; args.push(p.body); }
    else {
      const req: any = {};
      let i = 0;
      for (const [q, d] of Object.entries(e.query)) {
        const present = !d.type.includes("undefined") || (p.mask >> i % 30) & 1;
        i++;
        if (!present) { if (p.mask & 2) req[d.from] = undefined; continue; }
        let v: any;
        if (d.list && p.mask & 4) v = p.text.slice(0, 1 + (p.mask % p.text.length));
        else if (d.type.includes("number")) v = (p.n + i) % 3 === 0 ? 0 : p.n;
        else if (d.type.includes("boolean")) v = p.flag;
        else v = p.text[(i + p.mask) % p.text.length];
        req[d.from] = v;
        query[q] = Array.isArray(v) ? v.map(String) : [String(v)];
      }
      args.push(req);
    }
  }
  return { args, path, query, body };
}
export { core };
