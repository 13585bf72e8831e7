// Bundles one check together with the SDK sources of /repo's working tree.
import { createRequire } from "node:module";
import path from "node:path";
import fs from "node:fs";
import { fileURLToPath } from "node:url";

const VT = "/opt/veriftools/node/node_modules";
const require = createRequire(VT + "/x.js");
const esbuild = require("esbuild");

export const REPO = process.env.VERIF_REPO || "/repo";
const HERE = path.dirname(fileURLToPath(import.meta.url));
export const ROOT = path.dirname(HERE);

const PKGS = ["core", "client", "otel", "tracing", "openai", "langchain", "browser", "vercel-ai-sdk"];

export async function buildCheck(id, outDir = path.join(ROOT, ".build"), plugins = []) {
  fs.mkdirSync(outDir, { recursive: true });
  const otelNm = `${REPO}/packages/otel/node_modules/@opentelemetry`;
  const real = (p) => fs.realpathSync(p);
  const otelBaseSiblings = path.dirname(real(`${otelNm}/sdk-trace-base`));
  const alias = {
    "@opentelemetry/api": real(`${otelNm}/api`),
    "@opentelemetry/core": real(`${otelNm}/core`),
    "@opentelemetry/sdk-trace-base": real(`${otelNm}/sdk-trace-base`),
    "@opentelemetry/resources": real(`${otelBaseSiblings}/resources`),
    "@langchain/core": `${REPO}/packages/langchain/node_modules/@langchain/core`,
  };
  for (const p of PKGS) alias[`@langfuse/${p}`] = `${REPO}/packages/${p}/src/index.ts`;
  const entry = path.join(HERE, "checks", `${id}.ts`);
  const outfile = path.join(outDir, `${id}.mjs`);
  await esbuild.build({
    entryPoints: [entry],
    bundle: true,
    format: "esm",
    platform: "node",
    target: "node22",
    outfile,
    sourcemap: "inline",
    alias,
    plugins,
    nodePaths: [VT, `${REPO}/packages/otel/node_modules`, `${REPO}/packages/langchain/node_modules`, `${REPO}/packages/vercel-ai-sdk/node_modules`, `${REPO}/packages/client/node_modules`, `${REPO}/packages/openai/node_modules`, `${REPO}/node_modules`],
    conditions: ["import", "node", "module", "default"],
    banner: {
      js: 'import { createRequire as __cr } from "node:module"; const require = __cr(import.meta.url);',
    },
    tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: false, esModuleInterop: true } },
    logLevel: "silent",
  });
  return outfile;
}
