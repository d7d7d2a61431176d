"use strict";
// One search worker: loads the built library, runs every subcheck of a
// property with fast-check, reports counts, samples and shrunk failures.
const path = require("node:path");
const fs = require("node:fs");
const crypto = require("node:crypto");
const { Worker } = require("node:worker_threads");
const fc = require("fast-check");

const job = JSON.parse(process.env.VERIF_JOB);
delete process.env.VERIF_JOB;
process.on("disconnect", () => process.exit(3));

const spec = require(path.join(__dirname, "..", "checks", job.id + ".js"));
const sha = (s) => crypto.createHash("sha1").update(s).digest("hex").slice(0, 14);

function subSeed(name) {
  const h = crypto.createHash("sha256").update(`${job.seed}/${job.id}/${name}/${job.shard}`).digest();
  return h.readInt32BE(0);
}

class Violation extends Error {
  constructor(msg, key) {
    super(msg);
    this.name = "Violation";
    this.key = key;
  }
}

// A shrunk counterexample is nice to have: stop looking after a while.
const SHRINK_MS = job.replay ? Infinity : Number(process.env.VERIF_SHRINK_MS ?? 45000);
const started = Date.now();
// An exception that escapes from the library's event handlers would end the
// caller's process: it fails the case that was running.
let escaped = null;
const onEscape = (kind) => (e) => {
  if (e instanceof Violation) return void (escaped ??= e);
  const stack = String(e && e.stack ? e.stack : e);
  const spawning = e && typeof e.syscall === "string" && e.syscall.startsWith("spawn"); // nobody listened to a child process
  if (!spawning && !stack.includes(path.dirname(job.entry))) {
    process.send({ crashed: `shard ${job.shard}: ${kind}: ${stack}` }, () => process.exit(2));
    return;
  }
  escaped ??= new Violation(`${kind} in the library: ${stack.slice(0, 1500)}`);
};
process.on("uncaughtException", onEscape("uncaught exception"));
process.on("unhandledRejection", onEscape("unhandled rejection"));

// What is running now, for the parent to report if this process cannot.
const stateFd = fs.openSync(job.scratch + ".state", "w");
const state = (s) => fs.writeSync(stateFd, JSON.stringify(s).padEnd(300), 0);
const beat = new Int32Array(new SharedArrayBuffer(4));
const alive = () => Atomics.add(beat, 0, 1);
setInterval(alive, 1000).unref();
new Worker(path.join(__dirname, "watch.js"), { workerData: { beat: beat.buffer, limit: 45, file: job.scratch + ".hang" } }).unref();

const out = { subs: {}, failures: [], knownHits: [] };
let order = 0;

const ctx = {
  fc,
  tier: job.tier,
  shard: job.shard,
  shards: job.shards,
  scratch: job.scratch,
  lib: null,
  Violation,
  fail(msg, key) {
    throw new Violation(msg, key);
  },
  /**
   * prop(name, { runs: [quick, thorough] (totals over all shards), arb, check(value, t), opts })
   * t.nontrivial(): this case counts; t.label(s): distribution counters.
   */
  async prop(name, { runs, arb, check, only, shards, beforeEach, afterEach }) {
    const myOrder = order++;
    if (job.replay && job.replay.subcheck !== name) return;
    const nsh = Math.min(shards || job.shards, job.shards);
    if (only ? !only(job.shard) : job.shard >= nsh) return;
    const total = job.tier === "thorough" ? runs[1] : runs[0] * (spec.quickScale ?? 1);
    const numRuns = job.replay ? 1 : Math.max(1, Math.ceil(total / nsh));
    const s = (out.subs[name] = { cases: 0, nontrivial: 0, labels: {}, samples: [], hashes: [] });
    const seen = new Set();
    let failed = false;
    let failedAt = 0;
    // once something has been found, don't let slow subchecks delay the answer
    if (out.failures.length > 0 && Date.now() - started > 150000) return;
    const sampleAt = new Set([0, Math.floor(numRuns / 2)]);
    const seed = job.replay ? job.replay.seed : subSeed(name);
    let run = -1;
    const pred = async (value) => {
      if (job.replay?.describe) {
        process.send({ described: fc.stringify(value) }, () => process.exit(0));
        return new Promise(() => {});
      }
      alive();
      if (!failed) state({ subcheck: name, order: myOrder, shard: job.shard, seed, path: job.replay ? job.replay.path : String(++run) });
      if (failed && Date.now() - failedAt > SHRINK_MS) return true;
      escaped = null;
      const t = {
        nt: false,
        labels: [],
        nontrivial(b = true) {
          if (b) this.nt = true;
        },
        label(l) {
          this.labels.push(l);
        },
      };
      try {
        await check(value, t);
        if (escaped) throw escaped;
      } catch (e) {
        if (e && e.key != null && job.known.includes(e.key)) {
          if (!out.knownHits.includes(e.key)) out.knownHits.push(e.key);
          t.label("known-finding:" + e.key);
        } else {
          if (!failed) fs.writeFileSync(job.scratch + ".first", JSON.stringify({ subcheck: name, order: myOrder, shard: job.shard, seed, path: job.replay ? job.replay.path : String(run), counterexample: fc.stringify(value), error: String(e?.message ?? e).slice(0, 4000) }));
          failed = true;
          failedAt ||= Date.now();
          throw e;
        }
      }
      if (!failed) {
        s.cases++;
        for (const l of t.labels) s.labels[l] = (s.labels[l] || 0) + 1;
        if (t.nt) {
          s.nontrivial++;
          const str = fc.stringify(value);
          const h = sha(str);
          if (!seen.has(h)) {
            seen.add(h);
            if (s.samples.length < 2 && (seen.size === 1 || sampleAt.has(s.cases))) s.samples.push(str.slice(0, 1500));
          }
        }
      }
      return true;
    };
    let property = fc.asyncProperty(arb, pred);
    if (beforeEach) property = property.beforeEach(beforeEach);
    if (afterEach) property = property.afterEach(afterEach);
    const params = { seed, numRuns, endOnFailure: false, markInterruptAsFailure: false };
    if (job.replay) {
      params.seed = job.replay.seed;
      params.path = job.replay.path;
    }
    const t0 = Date.now();
    const r = await fc.check(property, params);
    s.hashes = [...seen];
    if (process.env.VERIF_TIMING) console.error(`${job.id}[${job.shard}] ${name}: ${numRuns} runs ${Date.now() - t0}ms`);
    if (r.failed) {
      const err = r.errorInstance;
      out.failures.push({
        subcheck: name,
        order: myOrder,
        shard: job.shard,
        seed: r.seed,
        path: r.counterexamplePath,
        numShrinks: r.numShrinks,
        counterexample: fc.stringify(r.counterexample && r.counterexample[0]),
        error: err ? String(err.message || err).slice(0, 4000) : "property returned false",
        stack: err && err.stack ? String(err.stack).slice(0, 3000) : undefined,
      });
      process.send({ interim: out.failures });
    }
  },
};

(async () => {
  ctx.lib = require(job.entry);
  ctx.entry = job.entry;
  ctx.u = require("./util")(ctx);
  try {
    await spec.run(ctx);
  } catch (e) {
    // A property violated outside the generated cases (calibration calls).
    if (!(e instanceof Violation)) throw e;
    out.failures.push({ subcheck: "calibration", order: -1, shard: job.shard, seed: 0, path: "", counterexample: "fixed benign calls", error: e.message, stack: e.stack });
  }
  process.send(out, () => process.exit(0));
})().catch((e) => {
  const msg = `shard ${job.shard}: ` + (e && e.stack ? e.stack : e);
  process.send({ crashed: msg }, () => process.exit(2));
});
