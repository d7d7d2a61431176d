"use strict";
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

const API = ["read", "read", "readRaw", "write", "editTags", "deleteAllTags", "extractBinaryTagToBuffer", "extractBinaryTag", "rewriteAllTags", "custom"];
const NOISE = { long: "é".repeat(40), huge: "x".repeat(70000) };
const ONCE = ["write", "editTags", "deleteAllTags"];
const act = fc.oneof({ weight: 12, arbitrary: fc.constant("ok") }, { weight: 1, arbitrary: fc.constant("exit") }, { weight: 1, arbitrary: fc.constant("exitMid") }, { weight: 1, arbitrary: fc.constant("error") });
const call = fc.record({
  api: fc.constantFrom(...API),
  act,
  delayMs: fc.oneof({ weight: 3, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: fc.integer({ min: 1, max: 8 }) }, { weight: 1, arbitrary: fc.integer({ min: 20, max: 60 }) }),
  cuts: fc.oneof({ weight: 3, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: fc.array(fc.nat(300), { minLength: 1, maxLength: 3 }) }),
  noise: fc.constantFrom("", "", "", "{ready}", "Warning: ", "long", "huge"),
  // when to submit: immediately, after a tick, or after some earlier call settled
  wait: fc.oneof({ weight: 3, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 30 }) }, { weight: 1, arbitrary: fc.integer({ min: -5, max: -1 }) }),
});

module.exports = {
  id: "C06",
  level: "exploration",
  shards: 16,
  rule:
    "Histories of 3-30 calls of every kind are generated, each with its own submission time (at once, later, or after an earlier call), answer delay, chunk boundaries, noise (text that looks like the end-of-response marker, 70 KB values) and fault (child dies before or while answering, reports an error), over pools of 1-4 stand-in children that are recycled after 1, 2, 3 or unlimited tasks, with child kills, graceful closings and stray idle output injected at generated times. Oracle: every call settles; every answer carries a token that only the child serving that very call could know; a call fails only if its own command was faulted, or there is an injected death to account for it (at most one attempt per death); every command the children logged is whole. A further check answers read() with the metadata of a generated other path (another directory, another name, another case, longer or shorter) or of another spelling of its own: only the latter may resolve. Non-trivial: at least two calls overlap; the answer names another file.",
  assumptions: ["one child death can cost at most the attempt it was serving, or the one being handed to it"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    class Custom extends L.ExifToolTask {
      parse(s, err) {
        if (err) throw err;
        const m = /^value (\S+)\s*$/.exec(s);
        if (!m) throw new Error("unusable answer " + s.trim());
        return m[1];
      }
    }
    const answer = (x, p) => {
      const json = (o) => JSON.stringify([{ SourceFile: p, ...o }]) + "\n";
      switch (x.api) {
        case "read":
        case "readRaw":
          return { stdout: json({ Title: x.id, Noise: x.noise || "none" }), stderr: `Warning: ${x.id}\n` };
        case "extractBinaryTagToBuffer":
          return { stdout: json({ ThumbnailImage: "base64:" + Buffer.from(x.id + x.noise).toString("base64") }) };
        case "extractBinaryTag":
          return { stdout: "    1 output files created\n" };
        case "rewriteAllTags":
          return { stdout: "    1 image files created\n" };
        case "custom":
          return { stdout: `value ${x.id}\n` };
        default:
          return { stdout: `${String(x.n).padStart(5)} image files updated\n`, stderr: `Warning: ${x.id}\n` };
      }
    };
    const invoke = (f, x) =>
      ({
        read: () => f.et.read(x.p),
        readRaw: () => f.et.readRaw(x.p),
        extractBinaryTag: () => f.et.extractBinaryTag("ThumbnailImage", x.p, path.join(f.dir, "out")),
        extractBinaryTagToBuffer: () => f.et.extractBinaryTagToBuffer("ThumbnailImage", x.p),
        rewriteAllTags: () => f.et.rewriteAllTags(x.p, path.join(f.dir, "out")),
        custom: () => f.et.enqueueTask(() => new Custom(["-foo", x.p])),
        write: () => f.et.write(x.p, { Title: x.id }),
        editTags: () => f.et.editTags(x.p, [{ tag: "XMP-dc:Subject", operation: "add", value: x.id }]),
        deleteAllTags: () => f.et.deleteAllTags(x.p),
      })[x.api]();
    const own = (x, v, what) => {
      switch (x.api) {
        case "read":
        case "readRaw":
          u.eq([v.SourceFile, v.Title, v.Noise, v.errors, v.warnings], [x.p, x.id, x.noise || "none", [], ["Warning: " + x.id]], what);
          return u.eq(Object.keys(v).sort(), ["Noise", "SourceFile", "Title", "errors", "warnings"], what + ": fields");
        case "extractBinaryTagToBuffer":
          return u.eq(v.toString(), x.id + x.noise, what);
        case "custom":
          return u.eq(v, x.id, what);
        case "extractBinaryTag":
        case "rewriteAllTags":
          return u.eq(v, undefined, what);
        default:
          return u.eq(v, { created: 0, updated: x.n, unchanged: 0, warnings: ["Warning: " + x.id] }, what);
      }
    };

    let serial = 0;
    const history = async (c, t, options = {}) => {
      const fakes = Array.from({ length: c.instances ?? 1 }, () => u.fake({ maxProcs: c.procs, taskRetries: c.retries, maxTasksPerProcess: c.recycle, minDelayBetweenSpawnMillis: 0, streamFlushMillis: 1, onIdleIntervalMillis: 25, ...options }));
      let deaths = 0;
      try {
        const done = [];
        const calls = c.calls.map((x, i) => {
          const f = fakes[i % fakes.length];
          const y = { ...x, noise: NOISE[x.noise] ?? x.noise, f, id: `t${++serial}x${ctx.shard}`, n: 1 + (i % 99999), p: path.join(f.dir, "c" + i) };
          const a = answer(y, y.p);
          f.file({ ...(x.act === "error" ? { stdout: "", stderr: `Error: fail ${y.id}\n` } : { ...a, ...(x.act === "exit" || x.act === "exitMid" || x.act === "exitAfter" || x.act === "hang" ? { act: x.act } : {}) }), delayMs: x.delayMs, cuts: x.act === "ok" ? x.cuts : [] }, "c" + i);
          return y;
        });
        const timers = (c.events ?? []).map(
          (e) =>
            new Promise((resolve) =>
              setTimeout(async () => {
                const f = fakes[0];
                if (e.kind === "kill") {
                  const live = f.children.filter((ch) => ch.exitCode == null && ch.signalCode == null);
                  if (live.length) {
                    deaths++;
                    live[e.pick % live.length].kill("SIGKILL");
                  }
                } else if (e.kind === "close") {
                  if (!e.graceful) deaths += c.procs;
                  const t0 = Date.now();
                  await u.settles(f.et.closeChildProcesses(e.graceful), "closeChildProcesses");
                  // a graceful close waits 2 s for running commands, then gives them up
                  if (e.graceful && Date.now() - t0 > 1500) deaths += c.procs;
                }
                resolve();
              }, e.at),
            ),
        );
        for (const x of calls) if (x.act === "exitAfter") deaths += 1 + c.retries;
        const pending = [];
        for (const [i, x] of calls.entries()) {
          const run = async () => {
            if (x.wait > 0) await new Promise((r) => setTimeout(r, x.wait));
            if (x.wait < 0 && pending[i + x.wait]) await pending[i + x.wait];
            x.r = await u.settles(invoke(x.f, x), `${x.api} (${x.act})`);
          };
          pending.push(run());
        }
        await Promise.all(pending);
        await Promise.all(timers);
        t.nontrivial(calls.length > 1);
        let unexplained = 0;
        for (const x of calls) {
          const attempts = ONCE.includes(x.api) ? 1 : 1 + c.retries;
          const what = `${x.api} (${x.act}, token ${x.id})`;
          const fails = x.act === "exit" || x.act === "exitMid" || x.act === "error" || x.act === "hang";
          if (x.r.ok) {
            if (fails && !(x.act === "error" && /^read/.test(x.api))) ctx.fail(`${what} resolved: ${u.show(x.r.value)}`);
            own(x, x.r.value, `${what}: result`);
          } else {
            u.ok(x.r.error instanceof Error, () => `${what} rejected with ${u.show(x.r.error)}`);
            // never someone else's error
            for (const y of calls) if (y !== x) u.ok(!new RegExp(`\\bfail ${y.id}\\b`).test(x.r.error.message), () => `${what} was given the error of ${y.id}: ${x.r.error.message.slice(0, 300)}`);
            if (x.act === "error" && /^(read|write|edit|delete|custom)/.test(x.api) && deaths === 0) u.ok(x.r.error.message.includes(`fail ${x.id}`), () => `${what} rejected with ${x.r.error.message.slice(0, 300)}`);
            if (!fails) unexplained += attempts;
          }
        }
        u.ok(unexplained <= deaths, () => `${unexplained} attempts of sound commands failed with ${deaths} injected child deaths: ${u.show(calls.filter((x) => !x.r.ok && x.act === "ok").map((x) => [x.api, String(x.r.error).slice(0, 200)]))}`);
        t.label(deaths ? "with deaths" : "no deaths");
        if (unexplained) t.label("attempt lost to an injected death");
        // every command is whole, and its file is that of one call, at most as often as allowed
        for (const f of fakes) {
          const mine = calls.filter((x) => x.f === f);
          const seen = {};
          const shapes = {};
          for (const cmd of f.commands()) {
            const x = mine.find((y) => cmd.includes(y.p));
            u.ok(x, () => `a child received a command for no call: ${u.show(cmd)}`);
            seen[x.id] = (seen[x.id] ?? 0) + 1;
            const shape = JSON.stringify(cmd.map((a) => (a === x.p ? "FILE" : a.split(x.id).join("ID"))));
            u.ok((shapes[x.api] ??= shape) === shape, () => `${x.api} sent ${shape} and ${shapes[x.api]}`);
          }
          for (const x of mine) {
            const limit = ONCE.includes(x.api) ? 1 : 1 + c.retries;
            u.ok((seen[x.id] ?? 0) <= limit, () => `${x.api} ${x.id} was sent ${seen[x.id]} times`);
            if (x.r.ok) u.ok(seen[x.id] >= 1, () => `${x.api} ${x.id} resolved without being sent`);
          }
          u.eq(f.et.pendingTasks, 0, "pendingTasks after everything settled");
        }
        // the pool still works
        for (const f of fakes) {
          const q = f.tagsFile({ Title: "still " + serial });
          const r = await u.settles(f.et.read(q), "read afterwards");
          if (deaths === 0) u.ok(r.ok, () => `read afterwards rejected: ${r.error}`);
          if (r.ok) u.eq(r.value.Title, "still " + serial, "read afterwards");
        }
      } finally {
        for (const f of fakes) await f.end();
      }
    };

    const base = { procs: fc.integer({ min: 1, max: 4 }), retries: fc.integer({ min: 0, max: 2 }), recycle: fc.constantFrom(1, 2, 3, 1000000, 1000000), instances: fc.constantFrom(1, 1, 1, 2) };
    await ctx.prop("faults-and-recycling", {
      runs: [320, 6000],
      arb: fc.record({ ...base, calls: fc.array(call, { minLength: 3, maxLength: 24, size: "max" }) }),
      check: (c, t) => history(c, t),
    });
    const event = fc.oneof(fc.record({ kind: fc.constant("kill"), at: fc.integer({ min: 0, max: 200 }), pick: fc.nat(3) }), fc.record({ kind: fc.constant("close"), at: fc.integer({ min: 0, max: 200 }), graceful: fc.boolean() }));
    const lively = fc.tuple(call, fc.constantFrom(0, 0, 0, 1)).map(([x, e]) => (e && x.act === "ok" ? { ...x, act: "exitAfter" } : x));
    await ctx.prop("kills-and-closings", {
      runs: [320, 6000],
      arb: fc.record({ ...base, instances: fc.constant(1), calls: fc.array(lively, { minLength: 3, maxLength: 20, size: "max" }), events: fc.array(event, { minLength: 1, maxLength: 4 }) }),
      check: (c, t) => history(c, t),
    });
    await ctx.prop("timeouts", {
      runs: [16, 300],
      arb: fc.record({ procs: fc.integer({ min: 2, max: 4 }), retries: fc.integer({ min: 0, max: 1 }), recycle: fc.constant(1000000), calls: fc.tuple(fc.array(call, { minLength: 2, maxLength: 6 }), fc.array(call.map((x) => ({ ...x, act: "hang" })), { minLength: 1, maxLength: 2 }), fc.array(call, { minLength: 2, maxLength: 6 })).map((a) => a.flat()) }),
      check: (c, t) => history(c, t, { taskTimeoutMillis: 4000 }),
    });

    // An answer that names another file is never given out as this file's metadata.
    const seg = fc.oneof(fc.constantFrom("a", "b", "img", "IMG", "a b", "é", "[1]", "..x", "a.jpg"), fc.string({ minLength: 1, maxLength: 6 }).filter((x) => !/[\0/\n\r\\]/.test(x) && x.trim() === x && x !== "." && x !== ".." && x !== "" && x.normalize() === x));
    await ctx.prop("misdirected-answers", {
      runs: [160, 4000],
      arb: fc.record({ segs: fc.array(seg, { minLength: 1, maxLength: 4 }), how: fc.constantFrom("parent", "name", "prefix", "suffix", "case", "deeper", "shallower", "other root", "swap", "same", "dot", "slashes", "updown"), at: fc.nat(3), other: seg, retries: fc.integer({ min: 0, max: 1 }) }),
      async check(c, t) {
        const f = u.fake({ maxProcs: 1, taskRetries: c.retries, streamFlushMillis: 1 });
        try {
          const segs = [...c.segs];
          const own = path.join(f.dir, "m", ...segs);
          const i = c.at % segs.length;
          const last = segs.length - 1;
          const but = (j, v) => path.join(f.dir, "m", ...segs.map((x, k) => (k === j ? v : x)));
          const said = {
            parent: () => path.join(f.dir, c.other + "2", ...segs),
            name: () => but(last, c.other),
            prefix: () => but(i, c.other + segs[i]),
            suffix: () => but(i, segs[i] + c.other),
            case: () => but(i, segs[i] === segs[i].toUpperCase() ? segs[i].toLowerCase() : segs[i].toUpperCase()),
            deeper: () => path.join(own, c.other),
            shallower: () => path.join(f.dir, "m", ...segs.slice(1), ...(segs.length < 2 ? [segs[0], segs[0]] : [])),
            "other root": () => "/" + path.join(c.other, ...segs),
            swap: () => path.join(f.dir, "m", ...[...segs].reverse()),
            same: () => own,
            dot: () => path.dirname(own) + "/./" + path.basename(own),
            slashes: () => path.dirname(own) + "//" + path.basename(own),
            updown: () => path.dirname(own) + "/zz/../" + path.basename(own),
          }[c.how]();
          const mine = path.normalize(said) === own;
          require("node:fs").mkdirSync(path.dirname(own), { recursive: true });
          f.file({ stdout: JSON.stringify([{ SourceFile: said, Title: "of " + c.how }]) + "\n" }, path.relative(f.dir, own));
          const r = await u.settles(f.et.read(own), "read");
          t.label(mine ? "its own answer" : "another file's answer");
          t.nontrivial(!mine);
          if (mine) {
            u.ok(r.ok, () => `read(${u.show(own)}) rejected its own answer, naming ${u.show(said)}: ${r.error}`);
            u.eq([r.value.Title, r.value.SourceFile], ["of " + c.how, own], "read of its own answer");
          } else u.ok(!r.ok, () => `read(${u.show(own)}) resolved with an answer that names ${u.show(said)}: ${u.show(r.value)}`);
        } finally {
          await f.end();
        }
      },
    });

    // Stray output of an idle child is never taken for an answer.
    await ctx.prop("stray-output", {
      runs: [64, 1500],
      arb: fc.record({ stray: fc.constantFrom("{ready}\n", '[{"SourceFile":"x","Title":"stray"}]\n{ready}\n', "    1 image files updated\n{ready}\n", "noise\n", "13.59\n{ready}\n"), onStderr: fc.boolean(), before: fc.integer({ min: 1, max: 3 }), after: fc.array(call.map((x) => ({ ...x, act: "ok" })), { minLength: 1, maxLength: 4 }) }),
      async check(c, t) {
        const f = u.fake({ maxProcs: 1, taskRetries: 0, streamFlushMillis: 1, onIdleIntervalMillis: 25 });
        try {
          for (let i = 0; i < c.before; i++) await f.et.read(f.tagsFile({ Title: "b" + i }));
          const ends = () => f.et.spawnedProcs - f.et.pids.length;
          const e0 = ends();
          await f.et.read(f.tagsFile({ Title: "last" }, { straySoon: { text: c.stray, stderr: c.onStderr, ms: 15 } }));
          // wait until the pool has noticed, at most 3 s
          for (let i = 0; i < 300 && ends() === e0; i++) await new Promise((r) => setTimeout(r, 10));
          if (ends() === e0) return t.label("not noticed (skipped)");
          t.nontrivial();
          for (const [i, x] of c.after.entries()) {
            const y = { ...x, noise: NOISE[x.noise] ?? x.noise, f, id: `s${++serial}`, n: 7 + i, p: path.join(f.dir, "a" + i) };
            f.file({ ...answer(y, y.p), cuts: x.cuts }, "a" + i);
            const r = await u.settles(invoke(f, y), x.api);
            u.ok(r.ok, () => `${x.api} after stray output ${JSON.stringify(c.stray)} rejected: ${r.error}`);
            own(y, r.value, `${x.api} after stray output ${JSON.stringify(c.stray)}`);
          }
        } finally {
          await f.end();
        }
      },
    });
  },
};
