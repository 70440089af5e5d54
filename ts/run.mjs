// node ts/run.mjs <ID> quick|thorough | node ts/run.mjs <ID> replay <file>
// Bundles the repository's TypeScript, explores the cases of a check on all cores, writes the evidence file.
import { Worker } from "node:worker_threads";
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
const root = path.resolve(path.dirname(new URL(import.meta.url).pathname), "..");
const [id, tierArg, replayFile] = process.argv.slice(2);
const require = createRequire("/opt/veriftools/node/node_modules/");
const t0 = Date.now();
let tier = tierArg ?? process.env.VERIF_TIER ?? "quick", only = null;
if (tier === "replay") {
  const r = JSON.parse(fs.readFileSync(replayFile, "utf8"));
  tier = r.tier; only = { phase: r.phase, index: r.index };
}
const N = only ? 1 : +(process.env.VC_THREADS ?? 8);
const STUCK_S = 60;
const tmp = fs.mkdtempSync(root + "/target/ts-");
const cleanup = () => { try { fs.rmSync(tmp, { recursive: true, force: true }); } catch { } };
process.on("exit", cleanup);
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(2));

const component = id === "C36" || id === "C41", page = id === "C41";
const entry = `
export * as parsing from "/repo/src/mathml/parsing";
export * as renderer from "/repo/src/mathml/renderer";
export * as renderResult from "/repo/src/mathml/render-result";
export * as core from "/repo/src/core";
export * as rows from "/repo/src/input-tree/row-indices";
export * as viewport from "/repo/src/rendering/viewport-coordinate";
export * as selection from "/repo/src/rendering/rendered-selection";
${component ? 'export * as component from "/repo/src/component/math-editor";' : ""}`;
try {
  await require("esbuild").build({
    entryPoints: page ? { app: "entry:app", main: "/repo/src/main.ts" } : { app: "entry:app" },
    bundle: true, format: "esm", splitting: true, platform: "node", target: "esnext", outdir: tmp, outExtension: { ".js": ".mjs" }, logLevel: "error",
    define: { "import.meta.env": '{"DEV":true,"PROD":false,"MODE":"development"}' },
    plugins: [{
      name: "app",
      setup(b) {
        b.onResolve({ filter: /^entry:app$/ }, () => ({ path: "app", namespace: "entry" }));
        b.onLoad({ filter: /.*/, namespace: "entry" }, () => ({ contents: entry, resolveDir: "/repo", loader: "ts" }));
        b.onResolve({ filter: /^lil-gui$/ }, () => ({ path: "lil-gui", namespace: "gui" }));
        b.onLoad({ filter: /.*/, namespace: "gui" }, () => ({ contents: "export class GUI { add() { return this; } }", loader: "js" }));
        b.onResolve({ filter: /aftermath-core\/pkg/ }, () => ({ path: root + "/ts/pkg.cjs" }));
        b.onResolve({ filter: /^[a-z@][^:]*$/ }, (a) => (/\.css/.test(a.path) ? null : { path: a.path, external: true }));
        b.onResolve({ filter: /\.css(\?inline)?$/ }, (a) => ({ path: a.path, namespace: "css" }));
        b.onLoad({ filter: /.*/, namespace: "css" }, () => ({ contents: 'export default "";', loader: "js" }));
      },
    }],
  });
} catch (e) {
  console.error("the front end does not build: no verdict\n" + e.message);
  process.exit(2);
}

const known = [];
for (const line of fs.readFileSync(root + "/known_findings.txt", "utf8").split("\n")) {
  const m = /^finding: property=(\S+) key=(\S+) (.*)$/.exec(line);
  if (m && m[1] === id) known.push({ key: m[2], text: m[3] });
}
const isKnown = (k) => known.some((f) => f.key === k);

const fails = new Map(), totals = { states: 0, transitions: 0, traces: 0 }, counters = {}, phases = new Map(), samples = [], assumptions = new Set();
const stop = new Int32Array(new SharedArrayBuffer(4));
function addFail(f) {
  if (!isKnown(f.key)) Atomics.store(stop, 0, 1);
  const o = fails.get(f.key);
  if (!o || f.phaseNo < o.phaseNo || (f.phaseNo === o.phaseNo && f.index < o.index)) fails.set(f.key, f);
}
function finish() {
  let violations = 0;
  for (const f of known) if (fails.has(f.key)) console.log(`KNOWN-FINDING: property=${id} ${f.text}`);
  for (const [key, f] of fails) if (!isKnown(key)) {
    violations++;
    const file = `${root}/replays/${id}-${key.replace(/[^a-zA-Z0-9]/g, "_").slice(0, 40)}.json`;
    fs.mkdirSync(root + "/replays", { recursive: true });
    fs.writeFileSync(file, JSON.stringify({ property: id, tier, phase: f.phase, index: f.index, key, what: f.msg, case: f.case }, null, 1));
    console.error(`violated: [${key}] ${f.msg}\n  phase ${f.phase} case ${JSON.stringify(f.case)}`);
    console.log(`VIOLATION property=${id} replay=${file}`);
  }
  if (!only) {
    fs.mkdirSync(root + "/evidence", { recursive: true });
    fs.writeFileSync(`${root}/evidence/${id}.json`, JSON.stringify({
      property: id, tier, seed: +(process.env.VERIF_SEED ?? 0), level: "model_checking",
      coverage: {
        states: totals.states, transitions: totals.transitions, traces_validated_against_impl: totals.traces,
        exhaustive: violations === 0, counters, phases: [...phases.values()], samples: samples.slice(0, 12),
        known_findings_seen: [...fails.keys()].filter(isKnown),
      },
      assumptions: [...assumptions], wall_s: (Date.now() - t0) / 1000, violations,
    }, null, 1));
  }
  console.error(`[${id}] states=${totals.states} transitions=${totals.transitions} traces=${totals.traces} wall=${(Date.now() - t0) / 1000}s ${JSON.stringify(counters)}`);
  process.exit(violations ? 1 : 0);
}

let running = N;
const workers = [], beat = new Int32Array(new SharedArrayBuffer(4 * 64));
for (let i = 0; i < N; i++) {
  const w = new Worker(root + "/ts/worker.mjs", {
    workerData: { id, tier, only, shard: i, shards: N, root, tmp, stop, beat },
    resourceLimits: { maxOldGenerationSizeMb: 3000, stackSizeMb: 60 },
  });
  workers.push(w);
  w.on("message", (m) => {
    if (m.type === "fail") addFail(m);
    else if (m.type === "assume") assumptions.add(m.text);
    else if (m.type === "done") {
      for (const k in totals) totals[k] += m.totals[k];
      for (const k in m.counters) counters[k] = k.startsWith("max_") ? Math.max(counters[k] ?? 0, m.counters[k]) : (counters[k] ?? 0) + m.counters[k];
      for (const p of m.phases) {
        const o = phases.get(p.phase) ?? { phase: p.phase, cases: p.cases, explored: 0, wall_s: 0 };
        o.explored += p.explored; o.wall_s = Math.max(o.wall_s, p.wall_s);
        phases.set(p.phase, o);
      }
      samples.push(...m.samples);
      if (--running === 0) finish();
    } else if (m.type === "engine") {
      console.error("engine failure: " + m.text);
      process.exit(2);
    }
  });
  w.on("error", (e) => { console.error("worker failed: " + (e?.stack ?? e)); process.exit(2); });
  w.on("exit", (c) => { if (c) { console.error("worker ended with " + c); process.exit(2); } });
}
// a case that does not come back
const last = [...beat].slice(0, N), since = last.map(() => Date.now());
setInterval(() => {
  for (let i = 0; i < N; i++) {
    const b = Atomics.load(beat, i);
    if (b !== last[i] || b < 0) { last[i] = b; since[i] = Date.now(); }
    else if (Date.now() - since[i] > STUCK_S * 1000) {
      addFail({ key: "hang", msg: `no result within ${STUCK_S} s`, phase: "?", phaseNo: -1, index: Atomics.load(beat, 32 + i), case: { index: Atomics.load(beat, 32 + i) } });
      finish();
    }
  }
}, 500).unref();
