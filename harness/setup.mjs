// Verifies offline that every check bundles from /repo's working tree. Bundles are rebuilt by each check run.
import { buildCheck } from "./build.mjs";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
const dir = path.join(path.dirname(fileURLToPath(import.meta.url)), "checks");
const ids = fs.readdirSync(dir).filter((f) => /^[A-Z]\d+\.ts$/.test(f)).map((f) => f.slice(0, -3));
for (const id of ids) await buildCheck(id);
console.log(`bundled ${ids.length} checks`);
