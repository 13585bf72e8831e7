import fc from "fast-check";
import fs from "node:fs";
import path from "node:path";
import crypto from "node:crypto";
import { resetGlobals, realSetImmediate } from "./env";
import { getGlobalLogger, LogLevel } from "@langfuse/core";

export type CaseInfo = { nontrivial?: boolean; labels?: (string | false | undefined | null)[] } | void;

export interface Sub<T = any> {
  name: string;
  arb: fc.Arbitrary<T>;
  run: (c: T) => CaseInfo | Promise<CaseInfo>;
  quick: number;
  thorough: number;
  /** fixed cases always executed first (regressions of repaired defects etc.) */
  examples?: T[];
  /** what makes a case of this sub-check non-trivial */
  rule: string;
  /** tolerate unhandled rejections (default: they are violations) */
  allowUnhandled?: boolean;
  /** minimum fraction of cases that must be non-trivial (generator health) */
  minNontrivial?: number;
}

let raised: Error[] = [];
export class Violation extends Error {
  constructor(msg: string) {
    super(msg);
    this.name = "Violation";
    raised.push(this); // a violation noticed inside a callback the SDK swallows still fails the case
  }
}
export function fail(msg: string): never {
  throw new Violation(msg);
}
export function ensure(cond: any, msg: string | (() => string)): asserts cond {
  if (!cond) throw new Violation(typeof msg === "function" ? msg() : msg);
}
export function show(v: any, max = 600): string {
  let s: string;
  try {
    s = fc.stringify(v);
  } catch {
    s = String(v);
  }
  return s.length > max ? s.slice(0, max) + `…(${s.length})` : s;
}
export function same(actual: any, expected: any, what: string) {
  if (!deepEqual(actual, expected))
    throw new Violation(`${what}: expected ${show(expected)} but got ${show(actual)}`);
}
export function deepEqual(a: any, b: any): boolean {
  if (Object.is(a, b)) return true;
  if (typeof a !== "object" || typeof b !== "object" || a === null || b === null) return false;
  if (a instanceof Uint8Array && b instanceof Uint8Array)
    return a.length === b.length && a.every((x, i) => x === b[i]);
  if (a instanceof Date && b instanceof Date) return Object.is(a.getTime(), b.getTime());
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) {
    if (a.length !== b.length) return false;
    for (let i = 0; i < a.length; i++) if (!deepEqual(a[i], b[i])) return false;
    return true;
  }
  const ka = Object.keys(a);
  const kb = Object.keys(b);
  if (ka.length !== kb.length) return false;
  for (const k of ka) {
    if (!Object.prototype.hasOwnProperty.call(b, k)) return false;
    if (!deepEqual(a[k], b[k])) return false;
  }
  return true;
}

const ID = process.env.VERIF_CHECK_ID!;
const ROOT = process.env.VERIF_ROOT!;
const SEED = Number(process.env.VERIF_SEED ?? 1) | 0;
const TIER = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const SCALE = Number(process.env.VERIF_SCALE ?? 1);
/** Which of the parallel searches of this run this process is; each draws its own cases. */
const SHARD = Number(process.env.VERIF_SHARD ?? 0) | 0;
process.on("disconnect", () => process.exit(3));

let unhandled: unknown[] = [];
process.on("unhandledRejection", (e) => {
  unhandled.push(e);
});
process.on("uncaughtException", (e) => {
  unhandled.push(e);
});

function hashNum(s: string): number {
  return crypto.createHash("sha1").update(s).digest().readInt32BE(0);
}

let lastHb = 0;
const realNow = Date.now.bind(Date);
function heartbeat(sub: string, n: number) {
  const t = realNow();
  if (t - lastHb > 1000) {
    lastHb = t;
    process.send?.({ hb: { sub, case: n } });
  }
}

/** Real time a run may spend generating cases; on a slow machine later cases are skipped, never the verdict. */
const BUDGET_MS = (TIER === "thorough" ? 720 : 540) * 1000;
const MAX_SHRINK_EVALS = 400;
const MAX_SHRINK_MS = 45_000;

/** A genuine defect recorded in known-findings.json; matched by the sub-check and a predicate key. */
export interface KnownFinding {
  property: string;
  key: string;
  what: string;
}
function loadKnown(): KnownFinding[] {
  try {
    return JSON.parse(fs.readFileSync(path.join(ROOT, "known-findings.json"), "utf8")).findings.filter(
      (f: any) => f.property === ID,
    );
  } catch {
    return [];
  }
}
const known = loadKnown();
const knownHit = new Map<string, number>();
/**
 * Called by a check when it meets a failing situation identified by `key`.
 * Listed key: remembered and reported as KNOWN-FINDING; otherwise it is a violation.
 */
export function knownOrFail(key: string, msg: string): void {
  const k = known.find((f) => f.key === key);
  if (!k) throw new Violation(`${msg} [finding key ${key}]`);
  knownHit.set(key, (knownHit.get(key) ?? 0) + 1);
}

export async function main(opts: {
  level?: "exploration" | "fault_enumeration";
  subs: Sub<any>[];
  assumptions?: string[];
}) {
  const t0 = realNow();
  const level = opts.level ?? "exploration";
  const replayFile = process.env.VERIF_REPLAY;
  const replay = replayFile ? JSON.parse(fs.readFileSync(replayFile, "utf8")) : null;
  const only = process.env.VERIF_ONLY;
  let evaluations = 0;
  const perSub: Record<string, any> = {};
  const subDistincts: Record<string, string[]> = {};
  const samples: any[] = [];
  let violation: any = null;
  const problems: string[] = [];

  for (const sub of opts.subs) {
    if (replay && replay.sub !== sub.name) continue;
    if (only && !sub.name.includes(only)) continue;
    const tSub = realNow();
    const subDeadline = replay ? Infinity : tSub + Math.max(0, t0 + BUDGET_MS - tSub) / (opts.subs.length - opts.subs.indexOf(sub));
    const labels: Record<string, number> = {};
    let n = 0;
    let nt = 0;
    let failedAt = 0;
    let failT = 0;
    let evalsAfterFail = 0;
    const subDistinct = new Set<string>();
    const subSamples: string[] = [];
    const prop = fc.asyncProperty(sub.arb, async (c: any) => {
      if (failedAt) {
        evalsAfterFail++;
        if (evalsAfterFail > MAX_SHRINK_EVALS || realNow() - failT > MAX_SHRINK_MS) return;
      }
      if (!failedAt && realNow() > subDeadline) return;
      n++;
      evaluations++;
      heartbeat(sub.name, n);
      // the textual form is taken before the run so that mutation by the code cannot alter it
      const text = fc.stringify(c);
      resetGlobals(hashNum(text));
      // behaviour must not depend on the log level: a quarter of all cases run with debug logging on
      getGlobalLogger().setLevel(hashNum(text) % 4 === 0 ? LogLevel.DEBUG : LogLevel.INFO);
      unhandled = [];
      try {
        raised = [];
        const info = await sub.run(c);
        if (raised.length) throw raised[0];
        await new Promise<void>((r) => realSetImmediate(() => r()));
        if (!sub.allowUnhandled && unhandled.length)
          throw new Violation(
            `the SDK left an unhandled rejection/exception behind: ${String((unhandled[0] as any)?.stack ?? unhandled[0]).slice(0, 500)}`,
          );
        if (info) {
          for (const l of info.labels ?? []) if (l) labels[l] = (labels[l] ?? 0) + 1;
          if (info.nontrivial && !failedAt) {
            const h = crypto.createHash("sha1").update(sub.name + "\0" + text).digest("base64").slice(0, 16);
            if (!subDistinct.has(h)) {
              subDistinct.add(h);
              nt++;
              if (subSamples.length < 3 || (subSamples.length < 6 && n % 97 === 0))
                subSamples.push(text.length > 700 ? text.slice(0, 700) + "…" : text);
            }
          }
        }
      } catch (e) {
        if (fc.PreconditionFailure.isFailure(e)) {
          n--;
          evaluations--;
        } else if (!failedAt) {
          failedAt = n;
          failT = realNow();
        }
        throw e;
      } finally {
        resetGlobals(0);
      }
    });
    const numRuns = Math.max(1, Math.round((TIER === "thorough" ? sub.thorough : sub.quick) * SCALE));
    const seed = replay ? replay.seed : (SEED * 7919 + hashNum(ID + sub.name) + Math.imul(SHARD, 0x3c6ef372)) | 0;
    const out: any = await fc.check(prop as any, {
      seed,
      numRuns,
      endOnFailure: !!process.env.VERIF_NOSHRINK,
      maxSkipsPerRun: 10,
      ...(replay ? { path: replay.path, numRuns: 1 } : {}),
      ...(sub.examples && !replay && SHARD === 0 ? { examples: sub.examples.map((e) => [e]) as any } : {}),
    });
    perSub[sub.name] = {
      cases: n,
      distinct_nontrivial: nt,
      labels,
      rule: sub.rule,
      wall_s: Math.round((realNow() - tSub) / 100) / 10,
    };
    subDistincts[sub.name] = [...subDistinct];
    for (const s of subSamples.slice(0, 4)) samples.push({ sub: sub.name, case: s });
    if (process.env.VERIF_VERBOSE) console.log(sub.name, JSON.stringify(perSub[sub.name]));
    if (out.failed) {
      const err = out.errorInstance ?? out.error;
      if (out.counterexample == null) {
        console.error(`check error in ${sub.name}: ${err}`);
        process.exit(2);
      }
      violation = {
        property: ID,
        sub: sub.name,
        seed: out.seed,
        path: out.counterexamplePath,
        numShrinks: out.numShrinks,
        counterexample: fc.stringify(out.counterexample),
        error: String((err as any)?.stack ?? err),
      };
      break;
    }
    if (!replay && sub.minNontrivial !== undefined && n >= 100 && nt / n < sub.minNontrivial)
      problems.push(`${sub.name}: only ${nt}/${n} distinct non-trivial cases`);
  }

  const wall = Math.round((realNow() - t0) / 100) / 10;
  let replayPath: string | undefined;
  if (violation) {
    fs.mkdirSync(path.join(ROOT, "replays"), { recursive: true });
    replayPath = path.join(
      ROOT,
      "replays",
      `${ID}-${violation.sub.replace(/[^A-Za-z0-9]+/g, "_")}-${Math.abs(hashNum(violation.counterexample)).toString(16)}.json`,
    );
    fs.writeFileSync(replayPath, JSON.stringify(violation, null, 1));
  }
  // the supervisor (run.mjs) merges the parallel searches, writes the evidence and prints the verdict
  const result = {
    shard: SHARD,
    level,
    evaluations,
    rule: opts.subs.map((s) => `${s.name}: ${s.rule}`).join(" | "),
    samples,
    perSub,
    subDistinct: subDistincts,
    known: known.filter((f) => knownHit.has(f.key)).map((f) => ({ ...f, hits: knownHit.get(f.key) })),
    problems,
    assumptions: opts.assumptions ?? [],
    wall,
    violation: violation ? { ...violation, replayPath } : null,
    partial: !!(replay || only),
  };
  const code = violation ? 1 : 0;
  await new Promise<void>((r) => {
    if (process.send) process.send({ done: true, result }, () => r());
    else r();
  });
  process.exit(code);
}
