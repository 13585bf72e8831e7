import fc from "fast-check";
import { createRequire } from "node:module";
import path from "node:path";
import { main, ensure, same, show } from "../lib/runner";
import { useClock, logs } from "../lib/env";
import { FakeNet } from "../lib/net";
import { makeTracing, isolated } from "../lib/otel";
import * as coreMod from "@langfuse/core";
import { LangfuseMedia, propagateAttributes } from "@langfuse/core";
import { LangfuseClient } from "@langfuse/client";
import { startObservation, updateActiveObservation, setActiveTraceIO, setActiveTraceAsPublic } from "@langfuse/tracing";
import { CallbackHandler } from "@langfuse/langchain";
import { anyString, opt, jsonValue } from "../lib/arbs";

const LEVELS = { DEBUG: 0, INFO: 1, WARN: 2, ERROR: 3, NONE: 4 } as const;
type L = keyof typeof LEVELS;
const METHODS = ["debug", "info", "warn", "error"] as const;
const rank: Record<string, number> = { debug: 0, info: 1, warn: 2, error: 3 };
const level = fc.constantFrom<L>("DEBUG", "INFO", "WARN", "ERROR", "NONE");
const config = fc.record({ level, prefix: opt(anyString), ts: fc.constantFrom("default", true, false) });
const toConfig = (LogLevel: any, c: any) => ({
  level: LogLevel[c.level],
  ...(c.prefix !== undefined ? { prefix: c.prefix } : {}),
  ...(c.ts !== "default" ? { enableTimestamp: c.ts } : {}),
});

// ---------- histories over several loggers and the global one
const op = fc.oneof(
  { weight: 6, arbitrary: fc.record({ t: fc.constant("log"), who: fc.nat(4), m: fc.constantFrom(...METHODS), msg: fc.oneof({ weight: 9, arbitrary: anyString }, { weight: 1, arbitrary: fc.constantFrom("[WARN]", "[ERROR]", "[DEBUG]", "[INFO]", "[Langfuse SDK]", "%s %d", "%o") }), args: fc.array(fc.oneof(jsonValue(1), fc.constantFrom(undefined, NaN, 1n) as any), { maxLength: 3 }) }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("setLevel"), who: fc.nat(4), level }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("create"), config: opt(config), twice: fc.boolean() }) },
  { weight: 2, arbitrary: fc.record({ t: fc.constant("configure"), config, also: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("reset") }) },
  { weight: 1, arbitrary: fc.record({ t: fc.constant("advance"), ms: fc.integer({ min: 1, max: 1e9 }) }) },
);
async function runHistory(c: any) {
  const clock = useClock();
  const { createLogger, getGlobalLogger, configureGlobalLogger, resetGlobalLogger, LogLevel, Logger } = coreMod as any;
  resetGlobalLogger();
  const DEF = { level: "INFO" as L, prefix: undefined as any, ts: "default" as any };
  let g = { ...DEF };
  const mine: { l: any; m: any }[] = [{ l: createLogger(), m: { ...DEF } }, { l: new Logger(), m: { ...DEF } }];
  const pick = (i: number) => (i === 0 ? { l: getGlobalLogger(), m: g } : mine[(i - 1) % mine.length]);
  let emitted = 0, silent = 0;
  try {
    for (const o of c) {
      if (o.t === "create") {
        const cfg = o.config ? toConfig(LogLevel, o.config) : undefined;
        mine.push({ l: createLogger(cfg), m: o.config ? { ...o.config } : { ...DEF } });
        // two loggers made from one configuration object stay independent
        if (cfg && o.twice) mine.push({ l: createLogger(cfg), m: { ...o.config } });
        while (mine.length > 4) mine.shift();
      } else if (o.t === "configure") {
        const cfg = toConfig(LogLevel, o.config);
        configureGlobalLogger(cfg);
        g = { ...o.config };
        if (o.also) mine.push({ l: createLogger(cfg), m: { ...o.config } });
        while (mine.length > 4) mine.shift();
      } else if (o.t === "reset") {
        resetGlobalLogger();
        g = { ...DEF };
      } else if (o.t === "advance") clock.now += o.ms;
      else if (o.t === "setLevel") {
        const x = pick(o.who);
        x.l.setLevel(LogLevel[o.level]);
        x.m.level = o.level;
      } else {
        const x = pick(o.who);
        logs.length = 0;
        x.l[o.m](o.msg, ...o.args);
        const want = rank[o.m] >= LEVELS[x.m.level as L];
        same(logs.length, want ? 1 : 0, `number of console calls of ${o.m} on a logger at level ${x.m.level}`);
        if (want) {
          emitted++;
          same(logs[0].ch, o.m, "console channel");
          const parts = [x.m.ts === false ? "" : new Date(clock.now).toISOString(), x.m.prefix || "[Langfuse SDK]", `[${o.m.toUpperCase()}]`, o.msg].filter(Boolean);
          same(logs[0].args[0], parts.join(" "), "formatted message");
          same(logs[0].args.length, 1 + o.args.length, "number of arguments passed on");
          o.args.forEach((a: any, i: number) => ensure(Object.is(logs[0].args[i + 1], a), "argument not passed on unchanged"));
        } else silent++;
      }
      for (let i = 0; i <= mine.length; i++) {
        const x = pick(i);
        same(x.l.getLevel(), LogLevel[x.m.level], `getLevel of logger ${i}`);
        for (const m of METHODS) same(x.l.isLevelEnabled(LogLevel[m.toUpperCase()]), rank[m] >= LEVELS[x.m.level as L], `isLevelEnabled(${m}) at ${x.m.level}`);
      }
    }
  } finally {
    resetGlobalLogger();
  }
  return { nontrivial: emitted > 0 && silent > 0, labels: [emitted > 0 && "emitted", silent > 0 && "suppressed"] };
}

// ---------- level from the environment, read when the SDK is loaded
const VT = "/opt/veriftools/node/node_modules";
const req = createRequire(VT + "/x.js");
let factory: any;
async function freshCore(): Promise<any> {
  if (!factory) {
    const REPO = process.env.VERIF_REPO || "/repo";
    const r = await req("esbuild").build({
      stdin: { contents: `export { getGlobalLogger, createLogger, configureGlobalLogger, resetGlobalLogger, LogLevel } from ${JSON.stringify(path.join(REPO, "packages/core/src/index.ts"))};`, resolveDir: path.join(REPO, "packages/core") },
      bundle: true, format: "cjs", platform: "node", write: false, logLevel: "silent",
      nodePaths: [`${REPO}/packages/otel/node_modules`, `${REPO}/packages/core/node_modules`],
    });
    factory = new Function("module", "exports", "require", r.outputFiles[0].text);
  }
  const m: any = { exports: {} };
  factory(m, m.exports, createRequire((process.env.VERIF_REPO || "/repo") + "/packages/core/x.js"));
  return m.exports;
}
const caseMix = (s: string) => fc.array(fc.boolean(), { minLength: s.length, maxLength: s.length }).map((bs) => [...s].map((ch, i) => (bs[i] ? ch.toLowerCase() : ch.toUpperCase())).join(""));
const envArb = fc.record({
  debug: opt(fc.oneof(caseMix("true"), fc.constantFrom("", "false", "0", "1", "yes", "TRUE ", "no"))),
  lvl: opt(fc.oneof(...(Object.keys(LEVELS) as L[]).map(caseMix), fc.constantFrom("", "verbose", "trace", "3", "WARNING", "off"))),
  where: fc.constantFrom("process", "process", "global"),
  configure: opt(config), reset: fc.boolean(), late: level,
});
async function runEnv(c: any) {
  useClock();
  const set = (n: string, v: string | undefined) => {
    delete process.env[n];
    delete (globalThis as any)[n];
    if (v === undefined) return;
    if (c.where === "process") process.env[n] = v;
    else (globalThis as any)[n] = v;
  };
  try {
    set("LANGFUSE_DEBUG", c.debug);
    set("LANGFUSE_LOG_LEVEL", c.lvl);
    const m = await freshCore();
    let eff: L = c.debug?.toLowerCase() === "true" ? "DEBUG" : c.lvl && c.lvl.toUpperCase() in LEVELS ? (c.lvl.toUpperCase() as L) : "INFO";
    const check = (l: any, want: L, what: string) => {
      same(l.getLevel(), m.LogLevel[want], what);
      for (const k of METHODS) {
        logs.length = 0;
        l[k]("m");
        same(logs.map((x) => x.ch), rank[k] >= LEVELS[want] ? [k] : [], `${what}: console calls of ${k} at ${want}`);
      }
    };
    check(m.getGlobalLogger(), eff, "level taken from the environment");
    ensure(m.getGlobalLogger() === m.getGlobalLogger(), "the global logger is not shared");
    // a level set explicitly wins over the environment
    if (c.configure) {
      m.configureGlobalLogger(toConfig(m.LogLevel, c.configure));
      check(m.getGlobalLogger(), c.configure.level, "explicitly configured level");
    }
    m.getGlobalLogger().setLevel(m.LogLevel[c.late]);
    check(m.getGlobalLogger(), c.late, "level set later");
    check(m.createLogger({ level: m.LogLevel[c.late] }), c.late, "own logger");
    return { nontrivial: eff !== "INFO" || !!c.configure, labels: [eff] };
  } finally {
    for (const n of ["LANGFUSE_DEBUG", "LANGFUSE_LOG_LEVEL"]) delete (globalThis as any)[n];
  }
}

// ---------- the SDK's own messages: what appears at a level is what appears at DEBUG, filtered
const OPS = ["client", "score", "score-fail", "prompt-fail", "prompt-ok", "prompt-fallback", "update-none", "traceio-none", "public-none", "prop-bad", "media-bad", "mask", "lc", "span", "exp"] as const;
const sdkArb = fc.record({ ops: fc.array(fc.record({ o: fc.constantFrom(...OPS), level, how: fc.constantFrom("configure", "setLevel", "keep") }), { minLength: 1, maxLength: 6 }), prefix: fc.constantFrom("[app]", undefined) });
async function sdkRun(c: any, levelOf: (i: number, o: any) => L | null): Promise<{ ch: string; msg: string }[][]> {
  const { configureGlobalLogger, resetGlobalLogger, getGlobalLogger, LogLevel } = coreMod as any;
  const clock = useClock();
  resetGlobalLogger();
  configureGlobalLogger({ level: LogLevel.INFO, ...(c.prefix ? { prefix: c.prefix } : {}) });
  const out: { ch: string; msg: string }[][] = [];
  let mode = "ok";
  const prompt = (n: string) => ({ name: n, version: 1, type: "text", prompt: "p", config: {}, labels: [], tags: [] });
  new FakeNet((r) => {
    if (mode === "fail") return { status: 404, json: { message: "no" } };
    if (r.path.includes("/v2/prompts/")) return { json: prompt("p") };
    if (r.path.endsWith("/ingestion")) return { status: 207, json: { successes: [], errors: [] } };
    return { json: { id: "x" } };
  }).install();
  const first = levelOf(0, c.ops[0]);
  const apply = (i: number) => {
    const l = levelOf(i, c.ops[i]);
    if (l === null) return;
    if (c.ops[i].how === "setLevel") getGlobalLogger().setLevel(LogLevel[l]);
    else configureGlobalLogger({ level: LogLevel[l], ...(c.prefix ? { prefix: c.prefix } : {}) });
  };
  void first;
  apply(0);
  const client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf.test" });
  const tracing = makeTracing({ mask: ({ data }: any) => { if (String(data).includes("boom")) throw new Error("mask"); return data; } });
  const handler: any = new CallbackHandler({});
  logs.length = 0;
  for (let i = 0; i < c.ops.length; i++) {
    if (i) apply(i);
    logs.length = 0;
    const run = async () => {
      switch (c.ops[i].o) {
        case "client": new LangfuseClient(); break;
        case "score": client.score.create({ name: "s", value: 1, traceId: "t" } as any); await client.flush(); break;
        case "score-fail": mode = "fail"; client.score.create({ name: "s", value: 1, traceId: "t" } as any); await client.flush(); break;
        case "prompt-ok": await client.prompt.get("p"); break;
        case "prompt-fail": mode = "fail"; await client.prompt.get("q", { maxRetries: 0 }).catch(() => {}); break;
        case "prompt-fallback": mode = "fail"; await client.prompt.get("r", { fallback: "x", maxRetries: 0 }); break;
        case "update-none": updateActiveObservation({ input: 1 } as any); break;
        case "traceio-none": setActiveTraceIO({ input: 1 }); break;
        case "public-none": setActiveTraceAsPublic(); break;
        case "prop-bad": propagateAttributes({ userId: "u".repeat(300), sessionId: 3 as any, tags: ["t".repeat(300)], metadata: { k: 4 as any } }, () => {}); break;
        case "media-bad": new LangfuseMedia({ source: "base64_data_uri", base64DataUri: "nonsense" } as any); break;
        case "mask": startObservation("s", { input: "boom" }).end(); await tracing.processor.forceFlush(); break;
        case "span": startObservation("s", { input: "x" }).end(); await tracing.processor.forceFlush(); break;
        case "lc": await handler.handleLLMEnd({ generations: [] }, "unknown-run"); await handler.handleChainEnd({}, "other"); await handler.handleToolEnd?.("x", "third"); break;
        case "exp": await client.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => { throw new Error("t"); }, evaluators: [] } as any); break;
      }
    };
    await clock.drive(isolated(run)).catch((e: any) => { throw e; });
    await clock.settle(5_000);
    mode = "ok";
    out.push(logs.map((l) => ({ ch: l.ch, msg: String(l.args[0]).replace(/[0-9a-f]{8}[0-9a-f-]*/g, "#").replace(/\d{4}-\d\d-\d\dT[\d:.]+Z/, "<ts>") + "|" + l.args.length })));
  }
  resetGlobalLogger();
  return out;
}
async function runSdk(c: any) {
  const all = await sdkRun(c, () => "DEBUG");
  // levels in force during each operation of the second run
  const eff: L[] = [];
  c.ops.forEach((o: any, i: number) => eff.push(o.how === "keep" ? (i ? eff[i - 1] : "INFO") : o.level));
  const got = await sdkRun(c, (i, o) => (o.how === "keep" ? null : o.level));
  let hidden = 0, seen = 0;
  for (let i = 0; i < c.ops.length; i++) {
    const want = all[i].filter((l) => rank[l.ch] >= LEVELS[eff[i]]);
    hidden += all[i].length - want.length;
    seen += want.length;
    same(got[i], want, `messages of "${c.ops[i].o}" at level ${eff[i]} (those at DEBUG at or above it)`);
    for (const l of all[i]) {
      ensure(l.ch in rank, `the SDK wrote to console.${l.ch}`);
      const p = l.msg.match(/\[(DEBUG|INFO|WARN|ERROR)\]/);
      ensure(p && p[1].toLowerCase() === l.ch, () => `message on channel ${l.ch} is labelled ${show(l.msg)}`);
      ensure(l.msg.includes(c.prefix ?? "[Langfuse SDK]"), () => `message without the prefix: ${l.msg}`);
    }
  }
  return { nontrivial: hidden > 0 || seen > 0, labels: [hidden > 0 && "hidden", seen > 0 && "shown", ...c.ops.map((o: any) => o.o)] };
}

await main({
  subs: [
    { name: "history", arb: fc.array(op, { minLength: 1, maxLength: 25 }), run: runHistory, quick: 5000, thorough: 60000, rule: "at least one message emitted and one suppressed" },
    { name: "environment", arb: envArb, run: runEnv, quick: 1200, thorough: 8000, rule: "the effective level differs from the default or a level was configured" },
    { name: "sdk-messages", arb: sdkArb, run: runSdk, quick: 1000, thorough: 8000, rule: "the scenario produces SDK messages", minNontrivial: 0.3 },
  ],
  assumptions: ["`enableTimestamp: undefined` passed explicitly is not generated"],
});
