"use strict";
const path = require("node:path");
const fs = require("node:fs");
const g = require("../lib/gens");
const { fc } = g;

// What an attempt does. `answered` faults produce a complete but bad answer.
const fault = fc.constantFrom("exit", "exit", "exitMid", "garbage", "error", "empty");
const attempt = fc.oneof({ weight: 3, arbitrary: fault }, { weight: 2, arbitrary: fc.constant("ok") });
const API = ["read", "readRaw", "extractBinaryTag", "extractBinaryTagToBuffer", "rewriteAllTags", "customRetriable", "customOnce", "write", "write", "editTags", "deleteAllTags"];

module.exports = {
  id: "C05",
  level: "exploration",
  shards: 20,
  rule:
    "Batches of calls of every kind run concurrently over a pool of stand-in children (1-4 processes, 0-3 retries), each with its own generated fault schedule: for every attempt the child dies before answering, dies half-way, answers garbage, nothing, or an error, hangs past the task timeout, or answers properly. The stand-in logs each command it receives. Oracle: a per-call model of the number of attempts, the outcome and (for the last attempt) the error. Non-trivial: at least one call meets a fault.",
  assumptions: ["a retry is a new command for the same file, which is how the stand-in counts attempts"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    class Custom extends L.ExifToolTask {
      parse(s, err) {
        if (err) throw err;
        const m = /^value (\S+)\s*$/.exec(s);
        if (!m) throw new Error("unusable answer " + s.trim());
        return m[1];
      }
    }
    // The control entry for attempt i of a call
    const ctl = (api, act, i, id, p) => {
      const tag = `${id}-${i}`;
      if (act === "exit") return { act: "exit" };
      if (act === "hang") return { act: "hang" };
      const json = (o) => JSON.stringify([{ SourceFile: p, ...o }]);
      const ok = {
        read: json({ Title: tag }),
        readRaw: json({ Title: tag }),
        extractBinaryTag: "    1 output files created\n",
        extractBinaryTagToBuffer: json({ ThumbnailImage: "base64:" + Buffer.from(tag).toString("base64") }),
        rewriteAllTags: "    1 image files created\n",
        customRetriable: "value " + tag + "\n",
        customOnce: "value " + tag + "\n",
        write: "    1 image files updated\n",
        editTags: "    1 image files updated\n",
        deleteAllTags: "    1 image files updated\n",
      }[api];
      if (act === "exitMid") return { act: "exitMid", stdout: ok };
      if (act === "garbage") return { stdout: `garbage [${tag}]\n` };
      if (act === "error") return { stdout: "", stderr: `Error: failure ${tag}\n` };
      if (act === "empty") return { stdout: "" };
      return { stdout: ok };
    };
    // Does this attempt end the call, and how?
    const verdict = (api, act) => {
      if (act === "ok") return "ok";
      const w = api === "write" || api === "editTags" || api === "deleteAllTags";
      if (w) return act === "garbage" || act === "empty" ? "ok" : "fail"; // an answer without errors is a result
      // a missing payload is an answer, not a failure to retry
      if (api === "extractBinaryTagToBuffer" && ["garbage", "error", "empty"].includes(act)) return "final";
      return "fail";
    };
    const ONCE = ["write", "editTags", "deleteAllTags", "customOnce"];
    const invoke = (f, api, p, id) =>
      ({
        read: () => f.et.read(p),
        readRaw: () => f.et.readRaw(p),
        extractBinaryTag: () => f.et.extractBinaryTag("ThumbnailImage", p, path.join(f.dir, id + ".out")),
        extractBinaryTagToBuffer: () => f.et.extractBinaryTagToBuffer("ThumbnailImage", p),
        rewriteAllTags: () => f.et.rewriteAllTags(p, path.join(f.dir, id + ".out")),
        customRetriable: () => f.et.enqueueTask(() => new Custom(["-foo", p])),
        customOnce: () => f.et.enqueueTask(() => new Custom(["-foo", p]), false),
        write: () => f.et.write(p, { Title: "x" }),
        editTags: () => f.et.editTags(p, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]),
        deleteAllTags: () => f.et.deleteAllTags(p),
      })[api]();
    const got = (api, v) => (api === "read" || api === "readRaw" ? v.Title : api === "extractBinaryTagToBuffer" ? v.toString() : api.startsWith("custom") ? v : undefined);

    const batch = async (c, t, opts, exact) => {
      const f = u.fake({ maxProcs: c.procs, taskRetries: c.retries, minDelayBetweenSpawnMillis: 0, ...opts });
      try {
        const calls = c.calls.map((x, n) => {
          const id = "call" + n;
          const api = x.api;
          const p = path.join(f.dir, id);
          f.file({ attempts: x.acts.map((a, i) => ctl(api, a, i, id, p)) }, id);
          return { ...x, id, p };
        });
        const results = await Promise.all(calls.map((x) => u.settles(invoke(f, x.api, x.p, x.id), `${x.api} ${x.acts}`)));
        // give a stray retry time to show up
        await new Promise((r) => setTimeout(r, c.linger));
        const count = {};
        for (const cmd of f.commands()) for (const a of cmd) if (calls.some((x) => x.p === a)) count[a] = (count[a] ?? 0) + 1;
        calls.forEach((x, n) => {
          const once = ONCE.includes(x.api);
          const limit = once ? 1 : 1 + c.retries;
          const r = results[n];
          const act = (i) => x.acts[Math.min(i, x.acts.length - 1)];
          let i = 0;
          while (i < limit - 1 && verdict(x.api, act(i)) === "fail") i++;
          const last = verdict(x.api, act(i));
          const what = `${x.api} with attempts [${x.acts}], taskRetries ${c.retries}`;
          t.label(`${x.api}: ${last === "ok" ? (i ? "ok after " + i : "ok") : "rejected"}`);
          const sent = count[x.p] ?? 0;
          u.ok(sent <= limit, () => `${what}: sent ${sent} times`);
          if (!exact) {
            if (!r.ok && !once && last !== "final") u.eq(sent, limit, `${what} rejected (${r.error}) after attempts`);
            if (last === "ok") u.ok(r.ok, () => `${what} rejected: ${r.error}`);
            else u.ok(!r.ok, () => `${what} resolved: ${u.show(r.value)}`);
            return;
          }
          u.eq(sent, i + 1, `${what}: times sent (${r.ok ? "resolved" : "rejected " + r.error})`);
          u.eq(r.ok, last === "ok", `${what}: resolved (${u.show(r)})`);
          if (r.ok) {
            const v = got(x.api, r.value);
            if (v !== undefined) u.eq(v, `${x.id}-${Math.min(i, x.acts.length - 1)}`, `${what}: answer of the attempt that succeeded`);
          } else {
            u.ok(r.error instanceof Error, () => `${what} rejected with ${u.show(r.error)}`);
            if (["error", "garbage"].includes(act(i))) {
              const carries = new RegExp(`\\b${x.id}-(\\d)\\b`).exec(r.error.message);
              // invalid JSON is reported by JSON.parse, which need not quote all of it
              if (carries) u.eq(carries[1], String(Math.min(i, x.acts.length - 1)), `${what}: the error is that of attempt`);
              else u.ok(act(i) === "garbage" && /^read/.test(x.api), () => `${what}: rejected with ${r.error}`);
            }
          }
        });
      } finally {
        await f.end();
      }
    };
    const call = fc.record({ api: fc.constantFrom(...API), acts: fc.array(attempt, { minLength: 1, maxLength: 5 }) });

    await ctx.prop("fault-schedules", {
      runs: [220, 4000],
      arb: fc.record({ procs: fc.integer({ min: 1, max: 4 }), retries: fc.integer({ min: 0, max: 3 }), linger: fc.constantFrom(0, 0, 0, 120), calls: fc.array(call, { minLength: 1, maxLength: 10 }) }),
      async check(c, t) {
        t.nontrivial(c.calls.some((x) => x.acts.some((a) => a !== "ok")));
        await batch(c, t, {}, true);
      },
    });

    // The same with children that hang until the task times out.
    const slow = fc.record({ api: fc.constantFrom(...API), acts: fc.array(fc.constantFrom("hang", "hang", "ok", "exit", "error"), { minLength: 1, maxLength: 3 }) });
    await ctx.prop("timeouts", {
      runs: [8, 240],
      arb: fc.record({ procs: fc.constant(4), retries: fc.integer({ min: 0, max: 1 }), linger: fc.constant(200), calls: fc.array(slow, { minLength: 3, maxLength: 6 }) }),
      async check(c, t) {
        t.nontrivial(c.calls.some((x) => x.acts.includes("hang")));
        await batch(c, t, { taskTimeoutMillis: 4000 }, true);
      },
    });

    // Options given per call don't change the number of attempts.
    await ctx.prop("options-and-arguments", {
      runs: [120, 2500],
      arb: fc.record({
        retries: fc.integer({ min: 0, max: 2 }),
        api: fc.constantFrom("write", "editTags", "deleteAllTags", "read", "readRaw"),
        act: fc.constantFrom("exit", "exitMid", "error"),
        opts: fc.record({ ignoreMinorErrors: fc.boolean(), useMWG: fc.boolean(), taskRetries: fc.constantFrom(undefined, 0, 5), retriable: fc.constantFrom(undefined, true), writeArgs: fc.constantFrom(undefined, ["-overwrite_original"], ["-n"]), readArgs: fc.constantFrom(undefined, ["-fast2"]) }, { noNullPrototype: true }),
        legacy: fc.boolean(),
      }),
      async check(c, t) {
        t.nontrivial();
        const f = u.fake({ taskRetries: c.retries });
        try {
          const p = f.file({ attempts: [ctl(c.api, c.act, 0, "x")] }, "x");
          const opts = { ...c.opts };
          for (const k of Object.keys(opts)) if (opts[k] === undefined) delete opts[k];
          const call = {
            write: () => (c.legacy ? f.et.write(p, { Title: "x" }, opts.writeArgs ?? [], opts) : f.et.write(p, { Title: "x" }, opts)),
            editTags: () => f.et.editTags(p, [{ tag: "IPTC:Keywords", operation: "remove", value: "x" }], opts),
            deleteAllTags: () => f.et.deleteAllTags(p, { ...opts, retain: ["Title"] }),
            read: () => (c.legacy ? f.et.read(p, opts.readArgs ?? [], opts) : f.et.read(p, opts)),
            readRaw: () => (c.legacy ? f.et.readRaw(p, opts.readArgs ?? [], opts) : f.et.readRaw(p, opts)),
          }[c.api];
          const r = await u.settles(call(), c.api);
          await new Promise((done) => setTimeout(done, 60));
          const what = `${c.api} (${c.act}) with ${u.show(opts)} on an instance with taskRetries ${c.retries}`;
          u.ok(!r.ok, () => `${what} resolved: ${u.show(r.value)}`);
          u.eq(f.commands().length, /^read/.test(c.api) ? 1 + c.retries : 1, `${what}: times sent`);
        } finally {
          await f.end();
        }
      },
    });

    // The exported retry helper on its own: any function, synchronous or not.
    await ctx.prop("retry-helper", {
      runs: [1600, 30000],
      arb: fc.record({ outcomes: fc.array(fc.constantFrom("throw", "reject", "late", "value", "undefined"), { minLength: 1, maxLength: 6 }), max: fc.integer({ min: 0, max: 5 }), base: fc.constantFrom(0, 1) }),
      async check({ outcomes, max, base }, t) {
        let calls = 0;
        let running = 0;
        let overlap = false;
        const f = () => {
          const i = calls++;
          const k = outcomes[Math.min(i, outcomes.length - 1)];
          if (running > 0) overlap = true;
          if (k === "throw") throw new Error("e" + i);
          if (k === "value") return "v" + i;
          if (k === "undefined") return undefined;
          running++;
          return new Promise((_, no) => setTimeout(() => { running--; no(new Error("e" + i)); }, k === "late" ? 2 : 0));
        };
        const r = await u.settles(ctx.lib.retryOnReject(f, max, base), "retryOnReject");
        const seen = [...outcomes, ...Array(max + 1).fill(outcomes[outcomes.length - 1])].slice(0, max + 1);
        const ok = seen.findIndex((x) => x === "value" || x === "undefined");
        t.nontrivial(ok !== 0);
        const what = `retryOnReject over ${u.show(outcomes)} with ${max} retries`;
        u.eq(r.ok ? { value: r.value } : { error: r.error?.message }, ok >= 0 ? { value: seen[ok] === "value" ? "v" + ok : undefined } : { error: "e" + max }, what);
        await new Promise((done) => setTimeout(done, 4));
        u.eq([calls, overlap], [ok >= 0 ? ok + 1 : max + 1, false], `${what}: [attempts, overlapping]`);
      },
    });
  },
};
