import fc from "fast-check";
import nodeCrypto from "node:crypto";
import { main, ensure, same, show, deepEqual } from "../lib/runner";
import { cleanString, jsonValue, bytes } from "../lib/arbs";
import { createTraceId, startObservation } from "@langfuse/tracing";
import { createExperimentItemId, createExperimentId, LangfuseMedia, generateUUID } from "@langfuse/core";
import { makeTracing } from "../lib/otel";
import { realRandom } from "../lib/env";

const sha = (d: any) => nodeCrypto.createHash("sha256").update(d);
const HEX32 = /^[0-9a-f]{32}$/;
const seen = new Set<string>();
const seenItem = new Map<string, string>();
const uuids = new Set<string>();

main({
  subs: [
    {
      name: "trace ids",
      arb: fc.record({ seeds: fc.array(fc.oneof(cleanString, fc.string({ unit: "grapheme", maxLength: 60 }).filter((s) => s.isWellFormed()), fc.nat(300).map((n) => "x".repeat(n))), { minLength: 1, maxLength: 4 }), unseeded: fc.nat(3) }),
      run: async (c: any) => {
        Math.random = realRandom; // ids are compared across cases: the per-case seeded source would repeat for equal cases
        const got = await Promise.all(c.seeds.map((s: string) => createTraceId(s)));
        for (const [i, s] of c.seeds.entries()) {
          ensure(HEX32.test(got[i]) && !/^0+$/.test(got[i]), `malformed trace id ${got[i]}`);
          if (s === "") {
            ensure(!seen.has(got[i]), "an unseeded trace id repeated");
            seen.add(got[i]);
            continue;
          }
          same(got[i], sha(Buffer.from(s, "utf8")).digest("hex").slice(0, 32), `trace id for seed ${show(s)}`);
          same(await createTraceId(s), got[i], "same seed again");
        }
        for (let i = 0; i < c.unseeded; i++) {
          const id = await createTraceId();
          ensure(HEX32.test(id) && !/^0+$/.test(id), `malformed trace id ${id}`);
          ensure(!seen.has(id), "an unseeded trace id repeated");
          seen.add(id);
          const u = generateUUID();
          ensure(/^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$/.test(u) && !uuids.has(u), `event id ${u} malformed or repeated`);
          uuids.add(u);
          const x = await createExperimentId();
          ensure(/^[0-9a-f]{16}$/.test(x) && !uuids.has(x), `experiment id ${x} malformed or repeated`);
          uuids.add(x);
        }
        // a seeded id is usable as an explicit parent context and becomes the observation's trace
        makeTracing({});
        const o = startObservation("o", {}, { parentSpanContext: { traceId: got[0], spanId: "0123456789abcdef", traceFlags: 1 } });
        same(o.traceId, got[0], "trace of an observation created under the generated id");
        return { nontrivial: c.seeds.some((s: string) => s) };
      },
      quick: 6000,
      thorough: 200_000,
      rule: "batch of seeds plus unseeded calls; non-trivial = at least one non-empty seed",
    },
    {
      name: "derived ids",
      arb: fc.record({ input: fc.oneof(jsonValue(3), cleanString), bytes: bytes(60), type: fc.constantFrom("image/png", "text/plain") }),
      run: async (c: any) => {
        if (c.input !== null) {
          const text = typeof c.input === "string" ? c.input : JSON.stringify(c.input);
          const id = await createExperimentItemId(c.input);
          same(id, sha(Buffer.from(text, "utf8")).digest("hex").slice(0, 16), "experiment item id");
          same(await createExperimentItemId(structuredClone(c.input)), id, "experiment item id of an equal input");
          const prev = seenItem.get(id);
          ensure(prev === undefined || prev === Buffer.from(text, "utf8").toString("utf8"), "two different inputs share an item id");
          seenItem.set(id, Buffer.from(text, "utf8").toString("utf8"));
        }
        const want = sha(c.bytes).digest("base64url").slice(0, 22);
        const m = new LangfuseMedia({ source: "bytes", contentBytes: c.bytes, contentType: c.type });
        same(await m.getId(), want, "media id from bytes");
        same(await new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array(c.bytes), contentType: "application/pdf" as any }).getId(), want, "media id is independent of the type");
        if (c.bytes.length) same(await new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${c.type};base64,${Buffer.from(c.bytes).toString("base64")}` }).getId(), want, "media id from data URI");
        return { nontrivial: c.input !== null && c.bytes.length > 0 };
      },
      quick: 6000,
      thorough: 200_000,
      rule: "arbitrary JSON input and content bytes; non-trivial = non-null input and non-empty content",
    },
    {
      // randomness of the unseeded ids, position by position
      name: "unseeded ids in bulk",
      arb: fc.record({ n: fc.integer({ min: 1200, max: 2500 }), what: fc.constantFrom("trace", "trace", "experiment", "uuid") }),
      run: async (c: any) => {
        const positions = new Map<number, Set<string>>();
        const all = new Set<string>();
        for (let i = 0; i < c.n; i++) {
          const id = c.what === "trace" ? await createTraceId() : c.what === "experiment" ? await createExperimentId() : generateUUID();
          ensure(!all.has(id), () => `${c.what} id ${id} repeated after ${i} others`);
          all.add(id);
          [...id].forEach((ch, p) => { let s = positions.get(p); if (!s) positions.set(p, (s = new Set())); s.add(ch); });
        }
        for (const [p, s] of positions) {
          if (c.what === "uuid" && [8, 13, 14, 18, 19, 23].includes(p)) continue; // dashes, version and variant
          same(s.size, 16, `number of digits seen at position ${p} of ${c.n} unseeded ${c.what} ids`); // fails by chance with probability below 16 * 40 * (15/16)^1200 < 1e-30
        }
        return { nontrivial: true, labels: [c.what] };
      },
      quick: 8,
      thorough: 200,
      rule: "every case",
    },
  ],
  assumptions: ["seeds are well-formed Unicode; an empty seed counts as no seed", "the platform's random source does not repeat 128-bit values"],
});
