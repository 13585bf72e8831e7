import fc from "fast-check";
import { main, ensure, same, fail, show } from "../lib/runner";
import { useClock, turn } from "../lib/env";
import { FakeNet, type Req } from "../lib/net";
import { LangfuseClient } from "@langfuse/client";

type Op =
  | { t: "create"; n: number }
  | { t: "flush"; wait: boolean; via: "client" | "manager" }
  | { t: "shutdown"; wait: boolean; via: "client" | "manager" }
  | { t: "advance"; ms: number };
type Resp = { delay: number; kind: string };

const op: fc.Arbitrary<Op> = fc.oneof(
  { weight: 5, arbitrary: fc.record({ t: fc.constant("create" as const), n: fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 1, max: 4 }) }, { weight: 1, arbitrary: fc.constantFrom(9, 10, 11, 99, 100, 101, 201) }) }) },
  { weight: 3, arbitrary: fc.record({ t: fc.constant("flush" as const), wait: fc.boolean(), via: fc.constantFrom("client" as const, "manager" as const) }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("shutdown" as const), wait: fc.boolean(), via: fc.constantFrom("client" as const, "manager" as const) }) },
  { weight: 4, arbitrary: fc.record({ t: fc.constant("advance" as const), ms: fc.constantFrom(1, 2, 5, 10, 50, 200, 999, 1000, 1001, 2500, 6000) }) },
);
const resp: fc.Arbitrary<Resp> = fc.record({
  delay: fc.oneof({ weight: 7, arbitrary: fc.constantFrom(0, 1, 3, 20, 300, 1500, 4000) }, { weight: 1, arbitrary: fc.constantFrom(15_000, 40_000, 59_000) }),
  kind: fc.oneof({ weight: 6, arbitrary: fc.constant("ok" as const) }, { weight: 3, arbitrary: fc.constantFrom("partial", "400", "500", "429", "net", "garbage", "401", "403", "404", "408", "413", "422", "503", "noerrors", "allbad", "abort") }),
});

interface Case {
  flushAt?: number;
  interval?: number;
  ops: Op[];
  resps: Resp[];
  tail: "flush" | "shutdown" | "idle";
}
const caseArb: fc.Arbitrary<Case> = fc.record({
  flushAt: fc.option(fc.constantFrom(1, 2, 3, 5, 50, 150, 1000), { nil: undefined }),
  interval: fc.option(fc.constantFrom(0.01, 0.5, 1, 2, 5), { nil: undefined }),
  ops: fc.array(op, { minLength: 1, maxLength: 14 }),
  resps: fc.array(resp, { maxLength: 10 }),
  tail: fc.constantFrom("flush" as const, "shutdown" as const, "idle" as const),
});

function reply(r: Resp, req: Req): any {
  const ids = (req.json?.batch ?? []).map((e: any) => ({ id: e.id, status: 201 }));
  switch (r.kind) {
    case "ok": return { status: 207, json: { successes: ids, errors: [] }, delay: r.delay };
    case "partial": return { status: 207, json: { successes: ids.slice(1), errors: ids.slice(0, 1).map((x: any) => ({ ...x, status: 400, message: "bad" })) }, delay: r.delay };
    case "allbad": return { status: 207, json: { successes: [], errors: ids.map((x: any) => ({ ...x, status: 500, message: "bad" })) }, delay: r.delay };
    case "noerrors": return { status: 207, json: { successes: ids }, delay: r.delay };
    case "abort": return { networkError: new DOMException("The operation was aborted", "AbortError"), delay: r.delay };
    case "garbage": return { status: 200, text: "<html>", delay: r.delay };
    case "net": return { networkError: new TypeError("fetch failed"), delay: r.delay };
    default: return { status: Number(r.kind), ...(r.kind === "500" ? { text: "oops" } : { json: { message: "status " + r.kind } }), delay: r.delay };
  }
}

async function run(c: Case) {
  const clock = useClock();
  if (c.flushAt !== undefined) process.env.LANGFUSE_FLUSH_AT = String(c.flushAt);
  if (c.interval !== undefined) process.env.LANGFUSE_FLUSH_INTERVAL = String(c.interval);
  const flushAt = c.flushAt ?? 10;
  const intervalMs = (c.interval ?? 1) * 1000;

  // per score (by its id): first-attempt order, logical request outcome
  const created: string[] = [];
  const createdAt: number[] = [];
  const sentOrder: string[] = [];
  const attempts = new Map<string, number>(); // batch key -> attempts so far
  const batchOf = new Map<string, string>(); // score id -> batch key
  const finished = new Set<string>(); // batch keys whose final response was delivered
  const retryable = new Map<string, boolean>(); // batch key -> last response retryable
  let overlap = 0;
  let created_during_flight = 0;
  let i = 0;
  const net = new FakeNet((req) => {
    ensure(req.method === "POST" && req.path === "/api/public/ingestion", `unexpected request ${req.method} ${req.url}`);
    const batch = req.json?.batch;
    ensure(Array.isArray(batch), "ingestion request without batch");
    ensure(batch.length >= 1, "empty ingestion request");
    ensure(batch.length <= 100, `ingestion request with ${batch.length} > 100 events`);
    const key = batch.map((e: any) => e.body.id).join("|");
    if (net.inFlight > 1) overlap++;
    const a = (attempts.get(key) ?? 0) + 1;
    attempts.set(key, a);
    if (a === 1) {
      for (const e of batch) {
        ensure(e.type === "score-create", `unexpected event type ${e.type}`);
        if (batchOf.has(e.body.id)) fail(`score ${e.body.id} sent in two different requests`);
        const idx = created.indexOf(e.body.id);
        ensure(idx >= 0, `unknown score ${e.body.id} was sent`);
        same({ name: e.body.name, value: e.body.value, traceId: e.body.traceId }, { name: "s" + idx, value: idx, traceId: "t" + idx }, "score content");
        batchOf.set(e.body.id, key);
        sentOrder.push(e.body.id);
      }
    } else {
      ensure(retryable.get(key) === true, `request repeated although its previous attempt was not a retryable failure`);
      ensure(!finished.has(key), "request repeated after completion");
    }
    const r = c.resps[i++] ?? { delay: 0, kind: "ok" as const };
    const isRetry = r.kind === "408" || r.kind === "429" || Number(r.kind) >= 500;
    retryable.set(key, isRetry);
    const rep = reply(r, req);
    // mark delivered at the moment the reply reaches the client
    const final = !isRetry || a >= 3;
    return (async () => {
      if (rep.delay) await clock.sleep(rep.delay);
      if (final) finished.add(key);
      return { ...rep, delay: 0 };
    })();
  }).install();
  const lf = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });

  const checkDelivered = (upto: number, what: string) => {
    for (let k = 0; k < upto; k++) {
      const b = batchOf.get(created[k]);
      ensure(b !== undefined, () => `${what} resolved but score #${k} (created before the call) was never sent`);
      ensure(finished.has(b), () => `${what} resolved while the request carrying score #${k} (created before the call) was still in flight`);
    }
  };
  const waits: Promise<void>[] = [];
  let flushes = 0;
  const doFlush = (kind: "flush" | "shutdown", via: string) => {
    const upto = created.length;
    flushes++;
    const target: any = via === "client" ? lf : lf.score;
    const p: Promise<any> = target[kind]();
    return p.then(
      () => checkDelivered(upto, kind),
      (e) => fail(`${kind} rejected: ${show(e)}`),
    );
  };
  const checkAuto = () => {
    // without any flush: count or interval reached => sent
    const unsent = created.length - batchOf.size;
    ensure(unsent < flushAt || unsent === 0, () => `${unsent} scores are waiting although the flush count is ${flushAt}`);
    for (let k = 0; k < created.length; k++)
      if (!batchOf.has(created[k]))
        ensure(clock.now - createdAt[k] <= intervalMs + 5, () => `score #${k} is still unsent ${clock.now - createdAt[k]}ms after creation (interval ${intervalMs}ms)`);
  };
  for (const o of c.ops) {
    if (o.t === "create") {
      for (let j = 0; j < o.n; j++) {
        const k = created.length;
        created.push("id" + k);
        createdAt.push(clock.now);
        if (net.inFlight) created_during_flight++;
        lf.score.create({ id: "id" + k, name: "s" + k, value: k, traceId: "t" + k });
      }
      await turn(1);
    } else if (o.t === "advance") await clock.advance(o.ms);
    else {
      const p = doFlush(o.t, o.via);
      if (o.wait) await clock.drive(p, { what: o.t });
      else {
        p.catch(() => {});
        waits.push(p);
        await turn(1);
      }
    }
    await turn(2);
    checkAuto();
  }
  if (c.tail === "idle") {
    await clock.advance(intervalMs + 10);
    checkAuto();
    ensure(batchOf.size === created.length, "scores left unsent after the flush interval");
    await clock.settle();
  } else await clock.drive(doFlush(c.tail, "client"), { what: c.tail });
  for (const w of waits) await clock.drive(w, { what: "flush" });
  await clock.settle();
  ensure(batchOf.size === created.length, () => `${created.length - batchOf.size} scores never sent`);
  same(sentOrder, created, "order in which scores were sent");
  return {
    nontrivial: created.length > 0 && (flushes > 0 || created_during_flight > 0) && net.reqs.length > 1,
    labels: [overlap > 0 && "overlapping requests", created_during_flight > 0 && "created while a request was in flight", flushes > 1 && "several flushes", created.length > 100 && ">100 scores", attempts.size < net.reqs.length && "retried request"],
  };
}

const burst = fc.record({ n: fc.constantFrom(1500, 2501, 12_345, 40_000, 99_999), flushAt: fc.constantFrom(200_000, 150_000), shutdown: fc.boolean() });
async function runBurst(c: { n: number; flushAt: number; shutdown: boolean }) {
  const clock = useClock();
  process.env.LANGFUSE_FLUSH_AT = String(c.flushAt);
  let got = 0;
  const seen = new Set<number>();
  new FakeNet((req) => {
    ensure(req.json.batch.length <= 100, "more than 100 events");
    for (const e of req.json.batch) {
      ensure(!seen.has(e.body.value), "duplicate score");
      seen.add(e.body.value);
      got++;
    }
    return { status: 207, json: { successes: [], errors: [] }, delay: 5 };
  }).install();
  const lf = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  for (let i = 0; i < c.n; i++) lf.score.create({ id: "i" + i, name: "n", value: i, traceId: "t" });
  await clock.drive(c.shutdown ? lf.shutdown() : lf.flush());
  same(got, c.n, "scores delivered from a burst");
  return { nontrivial: true };
}

// many requests under way at once: the queue empties by count into a slow server, and flush waits for all of them
const many = fc.record({ batches: fc.integer({ min: 12, max: 140 }), flushAt: fc.constantFrom(1, 2, 10, 40), delays: fc.array(fc.constantFrom(0, 5, 100, 3000, 20_000, 45_000), { minLength: 1, maxLength: 5 }), shutdown: fc.boolean(), extra: fc.integer({ min: 0, max: 9 }) });
async function runMany(c: { batches: number; flushAt: number; delays: number[]; shutdown: boolean; extra: number }) {
  const clock = useClock();
  process.env.LANGFUSE_FLUSH_AT = String(c.flushAt);
  const n = c.batches * c.flushAt + c.extra;
  const got = new Set<number>();
  const done = new Set<number>();
  let i = 0;
  let peak = 0;
  const net = new FakeNet((req) => {
    const vals = req.json.batch.map((e: any) => e.body.value);
    for (const v of vals) {
      ensure(!got.has(v), "duplicate score");
      got.add(v);
    }
    peak = Math.max(peak, net.inFlight);
    const d = c.delays[i++ % c.delays.length];
    return (async () => {
      if (d) await clock.sleep(d);
      for (const v of vals) done.add(v);
      return { status: 207, json: { successes: [], errors: [] } };
    })();
  }).install();
  const lf = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  for (let k = 0; k < n; k++) {
    lf.score.create({ id: "i" + k, name: "n", value: k, traceId: "t" });
    if (k % c.flushAt === c.flushAt - 1) await turn(1);
  }
  await clock.drive(c.shutdown ? lf.shutdown() : lf.flush());
  same(got.size, n, "scores sent when flush resolved");
  same(done.size, n, "scores whose request had completed when flush resolved");
  return { nontrivial: peak > 10 };
}

main({
  subs: [
    {
      name: "histories",
      arb: caseArb,
      run,
      quick: 8000,
      thorough: 120_000,
      rule: "random histories of create/flush/shutdown/clock advance with scripted slow or failing responses; non-trivial = at least two requests and a flush or a create during a request",
    },
    { name: "bursts", arb: burst, run: runBurst, quick: 4, thorough: 25, rule: "bursts of 1.5k-100k scores queued before one flush" },
    { name: "many-in-flight", arb: many, run: runMany, quick: 60, thorough: 2000, rule: "12-140 batches sent by count into a slow server, then one flush; non-trivial = more than ten requests under way at once" },
  ],
  assumptions: ["fetch is replaced by an in-memory server and timers by a virtual clock; the API client under the score queue is the real one"],
});
