import fc from "fast-check";
import { AsyncLocalStorage } from "node:async_hooks";
import { main, ensure, same, fail, show } from "../lib/runner";
import { useClock, turn } from "../lib/env";
import { FakeNet } from "../lib/net";
import { LangfuseClient, TextPromptClient, ChatPromptClient } from "@langfuse/client";

type Sel = { version?: number; label?: string };
type Op =
  | { t: "get"; name: number; sel: Sel; ttl?: number; fallback?: boolean; maxRetries?: number; timeout?: number; wait: boolean; compat: boolean }
  | { t: "update"; name: number; wait: boolean; compat: boolean; labels: string[] }
  | { t: "create"; name: number; wait: boolean; version: number; labels: string[] }
  | { t: "delete"; name: number; by: Sel; wait: boolean }
  | { t: "advance"; ms: number };
type Script = { ok: "ok" | "404" | "500" | "net"; delay: number };

// names that are prefixes of each other, contain separators or need URL encoding
const NAMES = ["p", "pq", "p-label", "p-", "folder/p q", "chat", "chat-version", "ü?&=#%", "P", "p-version", "p ", "p-version-", "hat", "q-p"];
const isChat = (n: string) => n.startsWith("chat");

const sel: fc.Arbitrary<Sel> = fc.oneof(
  { weight: 3, arbitrary: fc.constant({}) },
  { weight: 2, arbitrary: fc.constantFrom(1, 2, 11, 0, 12).map((version) => ({ version })) },
  { weight: 2, arbitrary: fc.constantFrom("production", "latest", "a", "a.b-c_1", "1", "a.b-c_12", "PRODUCTION", "a ", "").map((label) => ({ label })) },
);
const nameIx = fc.oneof({ weight: 6, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: fc.constant(1) }, { weight: 2, arbitrary: fc.nat(NAMES.length - 1) });
const op: fc.Arbitrary<Op> = fc.oneof(
  {
    weight: 8,
    arbitrary: fc.record(
      {
        t: fc.constant("get" as const),
        name: nameIx,
        sel,
        ttl: fc.constantFrom(0, 1, 2, 10, 60, 300, 0.5, 1.7, 7200, 604_800),
        fallback: fc.boolean(),
        maxRetries: fc.constantFrom(0, 1, 2),
        timeout: fc.constantFrom(40, 700),
        wait: fc.constantFrom(true, true, true, false),
        compat: fc.boolean(),
      },
      { requiredKeys: ["t", "name", "sel", "wait", "compat"] },
    ) as any,
  },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("update" as const), name: nameIx, wait: fc.boolean(), compat: fc.boolean(), labels: fc.constantFrom(["production"], [], ["a", "b"]) }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("create" as const), name: nameIx, wait: fc.boolean(), version: fc.constantFrom(1, 2, 3, 10), labels: fc.constantFrom([], ["production"], ["latest"]) }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("delete" as const), name: nameIx, by: sel, wait: fc.boolean() }) },
  { weight: 5, arbitrary: fc.record({ t: fc.constant("advance" as const), ms: fc.constantFrom(3, 50, 400, 650, 1003, 1750, 2001, 5000, 11_000, 33_000, 59_000, 61_000, 301_000, 4_000_000, 8_000_000, 700_000_000) }) },
);
const script: fc.Arbitrary<Script> = fc.record({
  ok: fc.oneof({ weight: 5, arbitrary: fc.constant("ok" as const) }, { weight: 2, arbitrary: fc.constantFrom("404" as const, "500" as const, "net" as const) }),
  delay: fc.constantFrom(1, 5, 30, 60, 500, 3000, 20_000, 50_000),
});

interface Fetch {
  key: string;
  name: string;
  script: Script;
  value: any;
  attempts: number;
  maxAttempts: number;
  deadline?: number;
  ttl?: number;
  background: boolean;
  epoch: number;
  state: "pending" | "ok" | "failed";
  seen: boolean;
}

const als = new AsyncLocalStorage<Fetch>();
const keyOf = (name: string, s: Sel) => JSON.stringify([name, s.version !== undefined ? "v" + s.version : "l" + (s.label ?? "production")]);

async function run(c: { names?: number[]; ops: Op[]; scripts: Script[]; writeDelays: number[] }) {
  const clock = useClock();
  const entries = new Map<string, { value: any; expiry: number }>();
  const epoch = new Map<string, number>();
  const fetches: Fetch[] = [];
  const refreshing = new Map<string, Fetch>();
  let nScript = 0;
  let nWrite = 0;
  let staleServed = 0, hits = 0, raced = 0, invalidatedWhileFetching = 0, fallbacks = 0;
  const reserved = new Set<number>();
  const slot = (delay: number) => {
    let at = clock.now + delay;
    while (reserved.has(at)) at++;
    reserved.add(at);
    return at - clock.now;
  };
  let version = 0;

  const finish = (f: Fetch, ok: boolean) => {
    f.state = ok ? "ok" : "failed";
    if (refreshing.get(f.key) === f) refreshing.delete(f.key);
    if (ok) {
      if ((epoch.get(f.name) ?? 0) === f.epoch) entries.set(f.key, { value: f.value, expiry: clock.now + (f.ttl ?? 60) * 1000 });
      else invalidatedWhileFetching++;
    }
  };

  const net = new FakeNet((req) => {
    if (req.method === "GET") {
      const m = /^\/api\/public\/v2\/prompts\/([^/]*)$/.exec(req.path);
      ensure(m, `unexpected request ${req.url}`);
      const name = decodeURIComponent(m![1]);
      const s: Sel = {};
      if (req.query.has("version")) s.version = Number(req.query.get("version"));
      if (req.query.has("label")) s.label = req.query.get("label")!;
      const key = keyOf(name, s);
      const own = als.getStore();
      const f = own && own.key === key && own.state === "pending" && own.attempts < own.maxAttempts ? own : undefined;
      ensure(f, () => `unexpected prompt request for ${key}: the prompt is cached and fresh, already being refreshed, or was not asked for`);
      f!.seen = true;
      f!.attempts++;
      const last = f!.script.ok !== "500" || f!.attempts >= f!.maxAttempts;
      return (async () => {
        const d = slot(f!.script.delay);
        if (f!.deadline !== undefined && d > f!.deadline) {
          // the client gives up first
          const t0 = clock.now;
          req.signal?.addEventListener("abort", () => {
            ensure(Math.abs(clock.now - t0 - f!.deadline!) <= 2, () => `request given up after ${clock.now - t0}ms instead of ${f!.deadline}ms`);
            finish(f!, false);
          });
          return { hang: true } as any;
        }
        await clock.sleep(d);
        if (last) finish(f!, f!.script.ok === "ok");
        switch (f!.script.ok) {
          case "ok": return { json: f!.value };
          case "404": return { status: 404, json: { message: "not found" } };
          case "500": return { status: 500, text: "err" };
          default: return { networkError: new TypeError("fetch failed") };
        }
      })();
    }
    // update / delete
    return (async () => {
      const d = c.writeDelays[nWrite++ % Math.max(1, c.writeDelays.length)] ?? 1;
      await clock.sleep(slot(d));
      if (req.method === "POST") return { status: 200, json: { ...req.json, version: req.json.config.v, tags: [] } };
      return { status: 200, json: { name: "x", version: 1, labels: [], type: "text", prompt: "", config: {}, tags: [] } };
    })();
  }).install();
  const lf = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });

  const check = (got: any, want: any, what: string) => {
    ensure(got instanceof (want.type === "chat" ? ChatPromptClient : TextPromptClient), `${what}: wrong client type`);
    same(
      { name: got.name, version: got.version, labels: got.labels, tags: got.tags, config: got.config, type: got.type, prompt: JSON.stringify(got.prompt), fb: got.isFallback },
      { name: want.name, version: want.version, labels: want.labels, tags: want.tags, config: want.config, type: want.type, prompt: JSON.stringify(want.prompt), fb: false },
      what,
    );
  };
  const background: Promise<any>[] = [];

  for (const o of c.ops) {
    if (o.t === "advance") {
      await clock.advance(o.ms);
      continue;
    }
    const name = NAMES[c.names ? c.names[o.name % c.names.length] : o.name];
    if (o.t === "get") {
      const key = keyOf(name, o.sel);
      let e = entries.get(key);
      if (e && e.expiry === clock.now) await clock.advance(1); // stay off the exact boundary
      e = entries.get(key);
      const opts: any = { ...o.sel };
      if (o.ttl !== undefined) opts.cacheTtlSeconds = o.ttl;
      if (o.maxRetries !== undefined) opts.maxRetries = o.maxRetries;
      if (o.timeout !== undefined) opts.fetchTimeoutMs = o.timeout;
      if (isChat(name)) opts.type = "chat";
      if (o.fallback) opts.fallback = isChat(name) ? [{ role: "user", content: "fb {{x}}" }] : "fb {{x}}";
      const reqsBefore = net.reqs.length;
      const mk = (background: boolean): Fetch => {
        version++;
        const f: Fetch = {
          key,
          name,
          script: c.scripts[nScript++] ?? { ok: "ok", delay: 1 },
          value: {
            name,
            version,
            labels: [o.sel.label ?? "production"],
            tags: ["t" + version],
            config: { n: version },
            type: isChat(name) ? "chat" : "text",
            prompt: isChat(name) ? [{ role: "user", content: "v" + version, type: "chatmessage" }] : "v" + version,
          },
          attempts: 0,
          maxAttempts: (o.maxRetries ?? 2) + 1,
          deadline: o.timeout ?? 60_000,
          ttl: o.ttl,
          background,
          epoch: epoch.get(name) ?? 0,
          state: "pending",
          seen: false,
        };
        fetches.push(f);
        return f;
      };
      const call = () => (o.compat ? lf.getPrompt(name, opts) : lf.prompt.get(name, opts));
      const startedAt = clock.now;
      if (e && o.ttl !== 0) {
        const expired = clock.now > e.expiry;
        let f: Fetch | undefined;
        let optional = false;
        if (expired) {
          const running = refreshing.get(key);
          if (!running) f = mk(true);
          else if (running.epoch !== (epoch.get(name) ?? 0)) {
            f = mk(true); // the running refresh predates an update: starting another one is allowed
            optional = true;
          } else raced++;
          if (f && !optional) refreshing.set(key, f);
        }
        const want = e.value;
        let done: any;
        const p = f ? als.run(f, () => Promise.resolve(call())) : Promise.resolve(call());
        p.then((v) => (done = { v }), (err) => (done = { err }));
        await turn(3);
        ensure(done, () => `get of a cached prompt (${key}) did not answer immediately`);
        if ("err" in done) fail(`get of a cached prompt failed: ${show(done.err)}`);
        check(done.v, want, `prompt served from cache for ${key}`);
        ensure(clock.now === startedAt, "clock moved");
        if (expired) staleServed++;
        else hits++;
        await turn(4);
        if (!expired) same(net.reqs.length, reqsBefore, `requests made by a fresh cache hit of ${key}`);
        else if (f && !optional) ensure(f.seen, () => `expired prompt ${key} was served but no refresh was started`);
        if (optional && f) {
          if (f.seen) refreshing.set(key, f);
          else {
            f.state = "failed";
            fetches.splice(fetches.indexOf(f), 1);
          }
        }
      } else {
        const f = mk(false);
        const p = als.run(f, () => Promise.resolve(call())).then(
          (v: any) => ({ v }),
          (err: any) => ({ err }),
        );
        await turn(4);
        ensure(f.seen, () => `no request was sent for the uncached prompt ${key}`);
        const judge = p.then((r: any) => {
          if (f.state === "ok") {
            if ("err" in r) fail(`fetch of ${key} succeeded but get rejected: ${show(r.err)}`);
            check(r.v, f.value, `fetched prompt ${key}`);
          } else if (f.state === "failed") {
            if (o.fallback) {
              fallbacks++;
              if ("err" in r) fail(`get with fallback rejected: ${show(r.err)}`);
              same(
                { n: r.v.name, fb: r.v.isFallback, t: r.v.type, p: JSON.stringify(r.v.prompt), version: r.v.version, labels: r.v.labels },
                {
                  n: name,
                  fb: true,
                  t: isChat(name) ? "chat" : "text",
                  p: JSON.stringify(isChat(name) ? [{ role: "user", content: "fb {{x}}", type: "chatmessage" }] : "fb {{x}}"),
                  version: o.sel.version ?? 0,
                  labels: o.sel.label ? [o.sel.label] : [],
                },
                "fallback prompt",
              );
            } else ensure("err" in r, () => `get of an unavailable prompt resolved with ${show(r)}`);
          } else fail("get settled before its request");
        });
        if (o.wait) await clock.drive(judge, { what: "get" });
        else {
          judge.catch(() => {});
          background.push(judge);
        }
      }
    } else if (o.t === "create") {
      // creating a version changes nothing about what is cached
      const q = lf.prompt.create({ name, prompt: "new", labels: [...o.labels], config: { v: o.version } } as any);
      if (o.wait) await clock.drive(q, { what: o.t });
      else {
        q.catch(() => {});
        background.push(q);
        await turn(4);
      }
    } else {
      const p =
        o.t === "update"
          ? o.compat
            ? lf.updatePrompt({ name, version: 1, newLabels: [...o.labels] })
            : lf.prompt.update({ name, version: 1, newLabels: [...o.labels] })
          : lf.prompt.delete(name, o.by);
      const q = (p as Promise<any>).then(() => {
        epoch.set(name, (epoch.get(name) ?? 0) + 1);
        for (const k of [...entries.keys()]) if (JSON.parse(k)[0] === name) entries.delete(k);
      });
      if (o.wait) await clock.drive(q, { what: o.t });
      else {
        q.catch(() => {});
        background.push(q);
        await turn(4);
      }
    }
  }
  for (const b of background) await clock.drive(b, { what: "pending call" });
  await clock.settle();
  return {
    nontrivial: staleServed + hits > 0 && net.reqs.length > 1,
    labels: [staleServed > 0 && "stale served", raced > 0 && "expired get during refresh", hits > 0 && "fresh hit", invalidatedWhileFetching > 0 && "invalidated while fetching", fallbacks > 0 && "fallback", fetches.some((f) => f.background && f.state === "failed") && "failed refresh"],
  };
}

/** the cache has no size limit: many prompts, each served from cache while fresh and refreshed once each when expired */
async function many(c: { n: number; sel: "label" | "version" | "name"; ttl?: number; second: number; touch: number[] }) {
  const clock = useClock();
  let serial = 0;
  const served = new Map<string, number>();
  const net = new FakeNet((req) => {
    const k = req.path + "?" + req.query.toString();
    const v = ++serial;
    served.set(k, v);
    return { json: { name: decodeURIComponent(req.path.split("/").pop()!), version: v, labels: [], tags: [], config: {}, type: "text", prompt: "v" + v + " of " + k } };
  }).install();
  const lf = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const get = (i: number) => lf.prompt.get(c.sel === "name" ? "n" + i : "n", { ...(c.sel === "label" ? { label: "l" + i } : c.sel === "version" ? { version: i } : {}), ...(c.ttl ? { cacheTtlSeconds: c.ttl } : {}) });
  const first: string[] = [];
  for (let i = 0; i < c.n; i++) first.push((await clock.drive(get(i), { what: "first get" })).prompt);
  same(new Set(first).size, c.n, "different prompts");
  same(net.reqs.length, c.n, "requests for the first gets");
  await clock.advance(c.second);
  const expired = c.second > (c.ttl ?? 60) * 1000;
  const asked = new Set<number>();
  for (const x of [...c.touch, ...Array.from({ length: c.n }, (_, i) => i)]) {
    const i = x % c.n;
    const again = asked.has(i);
    asked.add(i);
    const got = (await clock.drive(get(i), { what: "second get" })).prompt;
    if (!again) same(got, first[i], `prompt ${i} of ${c.n} served from cache`);
    if (again && expired) ensure(got.replace(/^v\d+/, "") === first[i].replace(/^v\d+/, ""), "another prompt's content");
    await turn(2);
  }
  same(net.reqs.length, expired ? 2 * c.n : c.n, "requests altogether");
  return { nontrivial: c.n > 20, labels: [expired && "all expired", c.n > 100 && "over a hundred prompts"] };
}

// one prompt whose cached copy keeps expiring while slow refreshes are under way
const refreshArb = fc.record({
  sel, ttl: fc.constantFrom(undefined, 1, 10), wait: fc.boolean(),
  steps: fc.array(fc.oneof(
    { weight: 6, arbitrary: fc.record({ t: fc.constant("get" as const), ttl: fc.constantFrom(undefined, 1, 10, 300), wait: fc.constantFrom(true, true, false) }) },
    { weight: 6, arbitrary: fc.record({ t: fc.constant("advance" as const), ms: fc.constantFrom(3, 700, 2001, 11_000, 33_000, 48_000, 61_000) }) },
    { weight: 1, arbitrary: fc.constantFrom({ t: "update" as const }, { t: "delete" as const }) },
  ), { minLength: 4, maxLength: 14, size: "max" }),
  scripts: fc.array(fc.record({ ok: fc.constantFrom("ok" as const, "ok" as const, "ok" as const, "404" as const, "500" as const), delay: fc.constantFrom(1, 600, 12_000, 40_000, 55_000) }), { maxLength: 8 }),
}).map((x) => {
  const get = (ttl: any, wait: boolean): any => ({ t: "get", name: 0, sel: x.sel, ...(ttl !== undefined ? { ttl } : {}), wait, compat: false });
  return {
    names: [0], writeDelays: [4],
    ops: [get(x.ttl, true), { t: "advance", ms: 61_000 }, get(x.ttl, x.wait), ...x.steps.map((o: any) => (o.t === "get" ? get(o.ttl, o.wait) : o.t === "update" ? { t: "update", name: 0, wait: true, compat: false, labels: [] } : o.t === "delete" ? { t: "delete", name: 0, by: {}, wait: true } : o))] as Op[],
    scripts: [{ ok: "ok" as const, delay: 1 }, ...x.scripts],
  };
});

main({
  subs: [
    {
      name: "many",
      arb: fc.record({ n: fc.oneof(fc.integer({ min: 2, max: 60 }), fc.integer({ min: 100, max: 1100 })), sel: fc.constantFrom("label" as const, "version" as const, "name" as const), ttl: fc.constantFrom(undefined, 10, 300), second: fc.constantFrom(5, 5000, 9000, 61_000, 400_000), touch: fc.array(fc.nat(2000), { maxLength: 10 }) }),
      run: many,
      quick: 100,
      thorough: 1500,
      rule: "up to 1100 prompts by name, label or version fetched once and asked for again; non-trivial = more than 20 prompts",
    },
    { name: "refreshes", arb: refreshArb, run, quick: 1200, thorough: 40_000, rule: "one prompt that keeps expiring while refreshes of up to 55 s are under way; non-trivial = at least one answer from cache and two requests" },
    {
      name: "histories",
      arb: fc.record({ names: fc.uniqueArray(fc.nat(NAMES.length - 1), { minLength: 1, maxLength: 3 }), ops: fc.array(op, { minLength: 2, maxLength: 25, size: "max" }), scripts: fc.array(script, { maxLength: 20 }), writeDelays: fc.array(fc.constantFrom(1, 4, 40, 800, 10_000), { minLength: 1, maxLength: 4 }) }),
      run,
      quick: 6000,
      thorough: 200_000,
      rule: "histories of get/update/delete/clock advance over up to three of 14 related names, versions, labels and TTLs with scripted slow/failing fetches, compared step by step with a cache model; non-trivial = at least one answer from cache and two requests",
    },
  ],
  assumptions: ["labels follow the server's alphabet (no colon)", "two responses never arrive in the same millisecond"],
});
