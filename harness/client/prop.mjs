// Runs generated cases with fast-check, shrinks failures, collects the figures check.py reports.
import { createRequire } from "node:module";
import fs from "node:fs";
import { HarnessError } from "./svelte.mjs";
const require = createRequire("/opt/veriftools/node/node_modules/");
export const fc = require("fast-check");

const scale = Number(process.env.VERIF_SCALE ?? "1");
const seed0 = Number(BigInt(process.env.VERIF_RUN_SEED ?? "1") % 2147483647n);
const stats = { evaluations: 0, distinct_nontrivial: 0, samples: [], classes: {}, tests: {}, known: {}, excluded: {}, failures: [] };
const distinct = new Set();
export const cls = (name) => void (stats.classes[name] = (stats.classes[name] ?? 0) + 1);
export const nontrivial = (key) => {
  const s = typeof key === "string" ? key : JSON.stringify(key);
  if (distinct.has(s)) return;
  distinct.add(s);
  if (stats.samples.length < 8 && distinct.size % 37 === 1) stats.samples.push(s.slice(0, 600));
};
export class Violation extends Error {}
export const must = (ok, msg) => {
  if (!ok) throw new Violation(typeof msg === "function" ? msg() : msg);
};
const show = (v) => JSON.stringify(v, (_k, x) => (x === undefined ? "<undefined>" : x), 1);
export const same = (got, want, what) => {
  const a = show(got);
  const b = show(want);
  if (a !== b) throw new Violation(`${what}\n got: ${a}\nwant: ${b}`);
};
let index = 0;
const started = Date.now();
const budget = Number(process.env.VERIF_BUDGET ?? "1e9") * 1000;
export function check(name, arb, runs, fn) {
  const n = Math.max(1, Math.ceil(runs * scale));
  let harness = null;
  let count = 0;
  let failed = false;
  const r = fc.check(
    fc.property(arb, (c) => {
      // on a slow machine only the tier's basic number of cases is run
      if (!failed && count >= runs && Date.now() - started > budget) return;
      count++;
      // for check.py, which watches over cases that never end
      if (process.env.VERIF_CASE) fs.writeFileSync(process.env.VERIF_CASE, JSON.stringify({ test: name, n: count, input: show(c) ?? "" }));
      try {
        fn(c);
      } catch (e) {
        if (e instanceof HarnessError || String(e?.message ?? e).startsWith("HARNESS:")) harness = harness ?? { e, c };
        else {
          failed = true;
          throw e;
        }
      }
    }),
    { numRuns: n, seed: (seed0 * 31 + 1000 * index++) % 2147483647, endOnFailure: false, interruptAfterTimeLimit: Number(process.env.VERIF_LIMIT ?? "780") * 800, markInterruptAsFailure: false }
  );
  if (process.env.VERIF_CASE) fs.rmSync(process.env.VERIF_CASE, { force: true });
  stats.evaluations += count;
  stats.tests[name] = (stats.tests[name] ?? 0) + count;
  if (harness) stats.failures.push({ test: name, input: show(harness.c), message: String(harness.e.stack ?? harness.e), kind: "harness" });
  else if (r.failed) {
    const e = r.errorInstance ?? r.error;
    const v = e instanceof Violation;
    stats.failures.push({ test: name, input: show(r.counterexample?.[0]), message: v ? e.message : "the page fails: " + String(e?.stack ?? e).slice(0, 1500), kind: "violation" });
  }
}
export function finish() {
  stats.distinct_nontrivial = distinct.size;
  if (process.env.VERIF_STATS) fs.writeFileSync(process.env.VERIF_STATS, JSON.stringify(stats));
  else console.log(JSON.stringify(stats, null, 1).replace(/\\n/g, "\n"));
  process.exit(stats.failures.length ? 1 : 0);
}
