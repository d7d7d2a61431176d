"use strict";
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));

const call = fc.record({
  api: fc.constantFrom("read", "readRaw", "write", "editTags", "deleteAllTags", "version", "buffer", "rewriteAllTags"),
  delayMs: fc.oneof({ weight: 3, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: fc.integer({ min: 1, max: 120 }) }),
  act: fc.oneof({ weight: 6, arbitrary: fc.constant("ok") }, { weight: 1, arbitrary: fc.constantFrom("hang", "exit", "exitMid", "exitAfter") }),
  finish: fc.boolean(), // await it before ending
});
const step = fc.record({ how: fc.constantFrom("end", "end", "endNow", "dispose", "asyncDispose", "asyncDispose", "close", "closeNow"), gap: fc.oneof({ weight: 3, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 80 }) }), wait: fc.boolean() });
const ENDS = ["end", "endNow", "dispose", "asyncDispose"];

module.exports = {
  id: "C07",
  level: "exploration",
  shards: 24,
  rule:
    "Shutdown histories are generated: completed, running, queued and hanging calls on a pool of 1-3 stand-in children (normal, ignoring SIGTERM, ignoring the exit command, ignoring both, or never answering at startup), followed by a generated sequence of end(), end(false), Symbol.dispose, Symbol.asyncDispose and closeChildProcesses, awaited or not, with gaps, and calls submitted in between and afterwards, while a second instance keeps working. Oracle: nothing throws, everything settles, `ended` turns and stays true at the first ending step, later calls reject and are never sent, resolved calls carry their own answer, no child pid is alive afterwards (and, for obedient children with time to obey, already when a graceful end(), or an asyncDispose that was the first ending step, settles), and the bystander instance is unaffected. Non-trivial: a call is pending at the end, a child misbehaves, or there is more than one ending step.",
  assumptions: ["30 s is longer than any bounded wait in the shutdown path (task wait 2 s, graceful wait, disposal timeouts)"],
  async run(ctx) {
    const u = ctx.u;
    const startOf = { normal: {}, ignoreTerm: { ignoreTerm: true }, ignoreExit: { ignoreExit: true }, stubborn: { ignoreTerm: true, ignoreExit: true }, mute: { muteVer: true }, muteStubborn: { muteVer: true, ignoreTerm: true, ignoreExit: true } };
    let bystander;
    const alive = (c) => {
      if (c.pid == null || c.exitCode != null || c.signalCode != null) return false;
      try {
        process.kill(c.pid, 0);
        return true;
      } catch {
        return false;
      }
    };
    const invoke = (f, x, p) =>
      ({
        read: () => f.et.read(p),
        readRaw: () => f.et.readRaw(p),
        write: () => f.et.write(p, { Title: "x" }),
        editTags: () => f.et.editTags(p, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]),
        deleteAllTags: () => f.et.deleteAllTags(p),
        version: () => f.et.version(),
        buffer: () => f.et.extractBinaryTagToBuffer("ThumbnailImage", p),
        rewriteAllTags: () => f.et.rewriteAllTags(p, p + ".out"),
      })[x.api]();
    const stdout = (x, p, id) => ({ read: JSON.stringify([{ SourceFile: p, Title: id }]), readRaw: JSON.stringify([{ SourceFile: p, Title: id }]), buffer: JSON.stringify([{ ThumbnailImage: "base64:" + Buffer.from(id).toString("base64") }]) })[x.api];
    const own = (x, v, id, what) => {
      if (x.api === "read" || x.api === "readRaw") u.eq(v.Title, id, what);
      else if (x.api === "buffer") u.eq(v.toString(), id, what);
      else if (x.api === "version") u.eq(v, "13.59", what);
      else if (x.api === "rewriteAllTags") u.eq(v, undefined, what);
      else u.eq(v, { created: 0, updated: 1, unchanged: 0 }, what);
    };

    const history = async (c, t) => {
      const mute = c.child.startsWith("mute");
      const f = u.fake({ maxProcs: c.procs, taskRetries: c.retries, disposalTimeoutMs: c.syncMs, asyncDisposalTimeoutMs: c.asyncMs, endGracefulWaitTimeMillis: c.graceMs, onIdleIntervalMillis: 25, minDelayBetweenSpawnMillis: 0, spawnTimeoutMillis: 60000, taskTimeoutMillis: 60000 }, startOf[c.child]);
      let n = 0;
      const submit = (x) => {
        const id = `d${++n}`;
        const p = path.join(f.dir, id);
        const so = stdout(x, p, id);
        f.file({ ...(so ? { stdout: so } : {}), delayMs: x.delayMs, ...(x.act === "ok" ? {} : { act: x.act }) }, id);
        let promise;
        try {
          promise = invoke(f, x, p);
        } catch (e) {
          ctx.fail(`${x.api} threw synchronously: ${e}`);
        }
        const r = u.settles(promise, `${x.api} (${x.act}) around a shutdown`, 60000);
        r.catch(() => {});
        return { x, id, p, r };
      };
      const judge = async (s) => {
        const r = await s.r;
        if (r.ok) own(s.x, r.value, s.id, `${s.x.api} (${s.x.act})`);
        else u.ok(r.error instanceof Error, () => `${s.x.api} rejected with ${u.show(r.error)}`);
        return r;
      };
      try {
        const early = [];
        const finished = [];
        for (const x of c.calls) {
          const s = submit(x);
          early.push(s);
          if (x.finish && x.act === "ok" && !mute && !early.some((e) => e.x.act === "hang")) {
            await s.r;
            if (early.every((e) => e.x.act === "ok")) finished.push(s);
          }
        }
        await sleep(c.settle);
        u.eq(f.et.ended, false, "ended before any ending step");
        let ended = false;
        const late = [];
        const between = [];
        const waits = [];
        let sync = null;
        for (const s of c.steps) {
          if (s.gap) await sleep(s.gap);
          let p;
          try {
            p = { end: () => f.et.end(), endNow: () => f.et.end(false), dispose: () => f.et[Symbol.dispose](), asyncDispose: () => f.et[Symbol.asyncDispose](), close: () => f.et.closeChildProcesses(), closeNow: () => f.et.closeChildProcesses(false) }[s.how]();
          } catch (e) {
            ctx.fail(`${s.how} threw: ${e}`);
          }
          const barrier = s.how === "end" || (s.how === "asyncDispose" && !ended);
          if (ENDS.includes(s.how)) ended = true;
          if (s.how === "dispose") {
            u.eq(p, undefined, "Symbol.dispose returns");
            sync = s;
          }
          u.eq(f.et.ended, ended, `ended right after ${s.how}`);
          const w = u.settles(p, s.how, 60000).then((r) => {
            u.ok(r.ok, () => `${s.how} rejected: ${r.error && r.error.stack}`);
            u.eq(f.et.ended, ended, `ended after ${s.how} settled`);
            if (barrier && c.barrier) u.eq(f.children.filter(alive).length, 0, `children alive when ${s.how} settled (${c.child} children)`);
          });
          w.catch(() => {});
          if (s.wait) await w;
          else waits.push(w);
          const x = submit(c.probe);
          (ended ? late : between).push(x);
        }
        if (!ended) {
          ended = true;
          const r = await u.settles(f.et.end(), "end", 60000);
          u.ok(r.ok, () => `end rejected: ${r.error}`);
        }
        await Promise.all(waits);
        for (const s of finished) u.ok((await s.r).ok, () => `${s.x.api} completed before the shutdown, but was rejected`);
        for (const s of [...early, ...between]) await judge(s);
        for (const s of late) {
          const r = await judge(s);
          u.ok(!r.ok, () => `${s.x.api} after ending resolved: ${u.show(r.value)}`);
        }
        // again, after everything
        for (const how of ["end", "dispose", "asyncDispose"]) {
          const r = await u.settles(Promise.resolve().then(() => (how === "end" ? f.et.end() : how === "dispose" ? f.et[Symbol.dispose]() : f.et[Symbol.asyncDispose]())), how + " again", 60000);
          u.ok(r.ok, () => `${how} again rejected: ${r.error}`);
          u.eq(f.et.ended, true, `ended after ${how} again`);
        }
        // no survivors: end() resolves when children are gone, up to the time SIGKILL takes
        let left;
        for (let i = 0; i < 600; i++) {
          left = f.children.filter(alive);
          if (!left.length) break;
          await sleep(50);
        }
        u.eq(left.length, 0, `children alive after [${c.steps.map((s) => s.how)}] with ${c.child} children`);
        u.eq(f.et.pids, [], "pids after ending");
        const sent = f.commands().flat();
        for (const s of late) u.ok(!sent.includes(s.p), () => `${s.x.api}, called after ending, was sent to a child`);
        const spawned = f.children.length;
        const last = await u.settles(invoke(f, c.probe, path.join(f.dir, "last")), "call after ending");
        u.ok(!last.ok, () => `${c.probe.api} long after ending resolved`);
        u.eq(f.children.length, spawned, "children spawned after ending");
        t.nontrivial(c.child !== "normal" || c.calls.some((x) => !x.finish || x.act !== "ok") || c.steps.filter((s) => ENDS.includes(s.how)).length > 1);
        t.label("children: " + c.child);
        for (const s of c.steps) t.label(s.how);
        // the bystander
        const q = bystander.tagsFile({ Title: "by" + n });
        const b = await u.settles(bystander.et.read(q), "read on another instance");
        u.ok(b.ok && b.value.Title === "by" + n, () => `another instance: ${u.show(b)}`);
        u.eq([bystander.et.ended, bystander.children.length], [false, 1], "another instance: [ended, children]");
      } finally {
        await f.end();
      }
    };
    bystander = u.fake({ onIdleIntervalMillis: 0 });
    await bystander.et.read(bystander.tagsFile({ Title: "x" }));

    const base = (child, calls) => ({
      child,
      procs: fc.integer({ min: 1, max: 3 }),
      retries: fc.integer({ min: 0, max: 1 }),
      syncMs: fc.constantFrom(1, 20, 100, 1000),
      asyncMs: fc.constantFrom(1, 20, 100, 5000),
      graceMs: fc.constantFrom(0, 20, 200),
      settle: fc.constantFrom(0, 0, 5, 60),
      calls,
      steps: fc.array(step, { minLength: 1, maxLength: 4 }),
      probe: call.map((x) => ({ ...x, act: "ok", delayMs: 0 })),
    });
    await ctx.prop("shutdown-histories", {
      runs: [576, 8000],
      arb: fc.record(base(fc.constantFrom("normal", "normal", "ignoreTerm", "ignoreExit", "stubborn"), fc.array(call, { maxLength: 8 }))),
      check: history,
    });
    await ctx.prop("startup-hangs", {
      runs: [96, 1500],
      arb: fc.record(base(fc.constantFrom("mute", "muteStubborn"), fc.array(call.map((x) => ({ ...x, finish: false })), { minLength: 1, maxLength: 3 }))),
      check: history,
    });

    // Queues much longer than the pool, ended while busy.
    await ctx.prop("busy-queues", {
      runs: [96, 1500],
      arb: fc.record(base(fc.constant("normal"), fc.array(call.map((x) => ({ ...x, finish: false, act: x.act === "hang" ? "ok" : x.act })), { minLength: 15, maxLength: 40, size: "max" }))),
      check: history,
    });
    // Children that obey, and time to: none is left when the shutdown settles.
    await ctx.prop("nothing-left-when-settled", {
      runs: [192, 3000],
      arb: fc.record({ ...base(fc.constant("normal"), fc.array(call.map((x) => ({ ...x, act: "ok" })), { maxLength: 6 })), graceMs: fc.constant(30000), asyncMs: fc.constantFrom(1, 1, 5, 20, 5000), barrier: fc.constant(true), steps: fc.array(step.map((s) => ({ ...s, how: { endNow: "end", closeNow: "close" }[s.how] ?? s.how })), { minLength: 1, maxLength: 3 }) }),
      check: history,
    });
    await bystander.end();
  },
};
