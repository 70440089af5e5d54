import { workerData as W, parentPort } from "node:worker_threads";
import { install } from "./dom.mjs";
import { connect, Panic } from "./rpc.mjs";
const send = (m) => parentPort.postMessage(m);
const totals = { states: 0, transitions: 0, traces: 0 }, counters = {}, phases = [], samples = [];
globalThis.log = console.error.bind(console);
for (const k of ["log", "warn", "info", "debug"]) console[k] = () => { };
let phaseNo = 0;
export class Fail extends Error {
  constructor(key, msg) { super(msg); this.key = key; }
}
const ctx = {
  id: W.id, tmp: W.tmp, root: W.root, tier: W.tier, thorough: W.tier === "thorough", body: install(),
  pick: (q, t) => (W.tier === "thorough" ? t : q),
  assume: (text) => W.shard === 0 && send({ type: "assume", text }),
  count: (k, n = 1) => { counters[k] = (counters[k] ?? 0) + n; },
  states: (n) => { totals.states += n; },
  transitions: (n) => { totals.transitions += n; },
  fail: (key, msg) => { throw new Fail(key, msg); },
  /** Explores every case of a deterministic generator. Cases are handed out in blocks; `prepare` sees a whole block.
   * A check whose judge is asynchronous has to wait for the result. */
  run(phase, cases, show, judge, prepare, block = 128, asynchronous = false) {
    const no = phaseNo++;
    if (W.only && W.only.phase !== phase) return;
    const t0 = Date.now();
    let n = 0, explored = 0, held = [];
    const failed = (index, c, e) => {
      const where = String(e?.stack ?? "");
      const at = { type: "fail", phase, phaseNo: no, index, case: show(c) };
      if (e instanceof Fail) send({ ...at, key: e.key, msg: e.message });
      else if (e instanceof Panic) send({ ...at, key: "crash", msg: e.message });
      else send({ ...at, key: "crash", msg: where.split("\n").slice(0, 5).join(" | ") || String(e) });
    };
    const started = (index) => {
      Atomics.add(W.beat, W.shard, 1);
      Atomics.store(W.beat, 32 + W.shard, index);
      totals.traces++;
    };
    const flush = () => {
      if (!held.length) return;
      let ready;
      if (prepare) ready = prepare(held.map((h) => h[1]));
      held.forEach(([index, c], i) => {
        if (Atomics.load(W.stop, 0)) return;
        started(index);
        try { judge(c, ready?.[i]); explored++; } catch (e) { failed(index, c, e); }
      });
      held = [];
    };
    /** The cases of this worker, in blocks. */
    function* mine() {
      for (const c of cases()) {
        const i = n++;
        if (W.only ? i === W.only.index : Math.floor(i / block) % W.shards === W.shard) {
          held.push([i, c]);
          if (held.length === block) { yield; if (Atomics.load(W.stop, 0)) break; }
        }
        if (W.shard === 0 && !W.only && (i === 10 || i === 200 || i === 3000)) samples.push({ phase, case: show(c) });
        if ((i & 65535) === 0) Atomics.add(W.beat, W.shard, 1);
      }
      yield;
    }
    const end = () => {
      const wall_s = (Date.now() - t0) / 1000;
      phases.push({ phase, cases: n, explored, wall_s });
      if (W.shard === 0) log(`[${W.id}] phase ${phase}: ${n} cases, ${wall_s}s`);
      if (Atomics.load(W.stop, 0)) throw "stopped";
    };
    if (!asynchronous) {
      for (const _ of mine()) flush();
      end();
      return;
    }
    return (async () => {
      for (const _ of mine()) {
        for (const [index, c] of held) {
          if (Atomics.load(W.stop, 0)) break;
          started(index);
          try { await judge(c); explored++; } catch (e) { failed(index, c, e); }
        }
        held = [];
      }
      end();
    })();
  },
};
let close = () => { };
try {
  close = connect(W.root, W.tmp, W.shard);
  const { checks } = await import("./checks.mjs");
  let app;
  try { app = await import(W.tmp + "/app.mjs"); } catch (e) {
    send({ type: "fail", key: "crash", msg: "loading the front end failed: " + (e?.stack ?? e), phase: "load", phaseNo: -1, index: 0, case: {} });
    throw "stopped";
  }
  await checks[W.id](ctx, app);
} catch (e) {
  if (e !== "stopped") {
    // what the application itself refuses before any case is explored is a finding; anything else is an engine failure
    const where = String(e?.stack ?? e);
    if (!(e instanceof Panic) && (e instanceof TypeError || !where.split("\n").slice(1, 3).some((f) => f.includes(W.tmp)))) {
      send({ type: "engine", text: where });
      throw e;
    }
    send({ type: "fail", key: "crash", msg: where.split("\n").slice(0, 5).join(" | "), phase: "setup", phaseNo: -1, index: 0, case: {} });
  }
}
close();
Atomics.store(W.beat, W.shard, -1);
send({ type: "done", totals, counters, phases, samples });
parentPort.close();
setTimeout(() => process.exit(0), 50).unref?.();
