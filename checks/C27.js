"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));

// Text that a shell, or a careless join/split, would change; no NUL (the OS refuses it).
const word = fc.oneof(
  fc.constantFrom("", " ", "a b", "'", '"', "$HOME", "`x`", "%d", "-stay_open", "True", "-@", "-", "a\nb", "é", "日本", "*", "--", "=", ";", "\\", "-config", "x,y"),
  fc.string({ unit: "grapheme", maxLength: 8 }).filter((s) => !s.includes("\0") && s.isWellFormed()),
);
const envName = fc.constantFrom("FOO", "foo", "PERL5LIB", "A_B_1", "PATH", "LANG", "EXIFTOOL_HOME", "ET_1", "LC_FOO"); // (node itself crashes over an odd LC_ALL)
const fileName = fc.constantFrom("exiftool", "exif tool", "et'q\"x", "é日本", "$x", "-et", "et.pl", "a;b", "%d");

module.exports = {
  id: "C27",
  level: "exploration",
  technique: "stateful property-based testing: generated start configurations, loads and start-up faults over stand-in executables, against what the children logged",
  shards: 16,
  rule:
    "Start-up: the location of exiftool (text, promise, sync or async function; odd file names), launch arguments (blanks, quotes, shell characters, line breaks, Unicode), environment and the host's EXIFTOOL_HOME are generated for one or two instances at a time; the stand-in executable logs how it was started. Oracle: every child of an instance was started from that path with exactly those arguments and that environment plus LANG=C (and EXIFTOOL_HOME). Limits: bursts of 1-40 calls (quick, slow, erroneous) over pools with generated maxProcs, maxTasksPerProcess and spawn delay. Oracle from the children's log: never more than maxProcs commands in progress, no child served more than its limit, no child replaced without reason (reuse: no more children than maxProcs when nothing recycles them, errors included), counters consistent while running and at rest. Faults: exiftool is missing, not executable, a directory, exits at once, or its path cannot be determined, for a generated time. Oracle: no exception escapes, startError is reported (unless the child starts and exits), calls made meanwhile resolve once exiftool becomes usable, or reject when the instance is ended. Non-trivial: a non-default start setting, more calls than processes, or a fault.",
  assumptions: ["calls made while exiftool cannot be started stay pending by design (the pool keeps trying to start it)", "LANG is always C"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    let n = 0;
    const FAKE = "#!" + process.execPath + "\n" + fs.readFileSync(path.join(__dirname, "..", "lib", "fake-exiftool.js"), "utf8").replace(/^#!.*\n/, "");
    const common = { maxProcs: 1, taskRetries: 0, checkPerl: false, onIdleIntervalMillis: 25, healthCheckIntervalMillis: 0, streamFlushMillis: 2, taskTimeoutMillis: 120000, spawnTimeoutMillis: 60000, maxProcAgeMillis: 0, minDelayBetweenSpawnMillis: 0 };

    // ---- how children are started
    await ctx.prop("started-as-configured", {
      runs: [700, 14000],
      arb: fc.array(
        fc.record({
          name: fileName,
          form: fc.constantFrom("text", "text", "promise", "sync", "async"),
          args: fc.array(word, { maxLength: 5 }),
          env: fc.dictionary(envName, word, { maxKeys: 4, noNullPrototype: true }),
          home: fc.constantFrom(null, null, "/somewhere else", ""),
          procs: fc.integer({ min: 1, max: 2 }),
        }),
        { minLength: 1, maxLength: 2 },
      ),
      async check(insts, t) {
        const saved = process.env.EXIFTOOL_HOME;
        const made = [];
        try {
          for (const c of insts) {
            const dir = path.join(ctx.scratch, "st" + ++n);
            fs.mkdirSync(dir);
            const bin = path.join(dir, c.name);
            fs.writeFileSync(bin, FAKE, { mode: 0o755 });
            const log = path.join(dir, "log");
            fs.writeFileSync(log, "");
            const env = { ...c.env, FAKE_LOG: log, FAKE_LOG_ENV: "1", FAKE_CTL_DIR: dir };
            if (c.home == null) delete process.env.EXIFTOOL_HOME;
            else process.env.EXIFTOOL_HOME = c.home;
            const exiftoolPath = { text: bin, promise: Promise.resolve(bin), sync: () => bin, async: async () => bin }[c.form];
            const et = new L.ExifTool({ ...common, maxProcs: c.procs, exiftoolPath, exiftoolArgs: c.args, exiftoolEnv: env });
            const want = { ...env, LANG: "C" };
            const blank = (s) => s == null || s.trim() === "";
            if (!blank(c.home) && blank(env.EXIFTOOL_HOME)) want.EXIFTOOL_HOME = c.home;
            made.push({ c, dir, bin, log, et, want });
            t.nontrivial(c.args.length > 0 || Object.keys(c.env).length > 0 || c.name !== "exiftool");
            t.label(c.form);
          }
          const reads = made.flatMap((m) => Array.from({ length: m.c.procs + 1 }, (_, i) => u.settles(m.et.read(path.join(m.dir, "f" + i)), "read")));
          for (const r of await Promise.all(reads)) u.ok(r.ok, () => `read rejected: ${r.error}`);
          for (const m of made) {
            u.eq(await m.et.exiftoolPath(), m.bin, "exiftoolPath()");
            const starts = fs.readFileSync(m.log, "utf8").split("\n").filter(Boolean).map((l) => JSON.parse(l)).filter((r) => r.start);
            u.ok(starts.length >= 1 && starts.length <= m.c.procs, () => `${starts.length} children for maxProcs ${m.c.procs}`);
            for (const s of starts) {
              u.eq(s.argv, m.c.args, "launch arguments");
              u.eq(s.env, m.want, "environment");
            }
          }
        } finally {
          if (saved == null) delete process.env.EXIFTOOL_HOME;
          else process.env.EXIFTOOL_HOME = saved;
          for (const m of made) {
            await m.et.end();
            fs.rmSync(m.dir, { recursive: true, force: true });
          }
        }
      },
    });

    const packaged = await new L.ExifTool(common).exiftoolPath();
    await ctx.prop("packaged-by-default", {
      runs: [60, 600],
      arb: fc.record({ given: fc.constantFrom("", " ", "  \t", undefined), as: fc.constantFrom("value", "promise") }),
      async check({ given, as }, t) {
        t.nontrivial();
        const et = new L.ExifTool({ ...common, exiftoolPath: as === "promise" ? Promise.resolve(given) : given });
        u.eq(await et.exiftoolPath(), packaged, `exiftoolPath() when given ${u.show(given)} (${as})`);
        u.ok(fs.statSync(packaged).isFile(), "the packaged exiftool exists");
        u.eq(await L.exiftoolPath(), packaged, "exiftoolPath export");
        await et.end();
      },
    });

    // ---- limits
    const load = fc.record({
      procs: fc.integer({ min: 1, max: 4 }),
      perProc: fc.constantFrom(1, 2, 3, 7, 1000),
      spawnDelay: fc.constantFrom(0, 0, 1, 20),
      bursts: fc.array(
        fc.array(fc.record({ api: fc.constantFrom("read", "readRaw", "write", "version", "deleteAllTags"), delayMs: fc.constantFrom(0, 0, 1, 5, 25), act: fc.constantFrom("ok", "ok", "ok", "error") }), { minLength: 1, maxLength: 20, size: "max" }),
        { minLength: 1, maxLength: 3 },
      ),
    });
    await ctx.prop("within-limits", {
      runs: [400, 8000],
      arb: load,
      async check(c, t) {
        const f = u.fake({ ...common, maxProcs: c.procs, maxTasksPerProcess: c.perProc, minDelayBetweenSpawnMillis: c.spawnDelay }, { logDone: true });
        try {
          let total = 0;
          for (const burst of c.bursts) {
            const pending = burst.map((x, i) => {
              total++;
              const p = path.join(f.dir, `c${total}`);
              f.file({ ...(x.act === "error" && x.api !== "version" ? { stdout: "", stderr: "Error: no good\n" } : {}), delayMs: x.delayMs }, `c${total}`);
              const call = { read: () => f.et.read(p), readRaw: () => f.et.readRaw(p), write: () => f.et.write(p, { Title: "x" }), version: () => f.et.version(), deleteAllTags: () => f.et.deleteAllTags(p) }[x.api];
              return u.settles(call(), x.api).then((r) => {
                const fails = x.act === "error" && /^(write|delete)/.test(x.api);
                if (x.act === "ok" || x.api === "version") u.ok(r.ok, () => `${x.api} rejected: ${r.error}`);
                else u.ok(!(fails && r.ok), `${x.api} resolved although exiftool reported an error`);
              });
            });
            const watch = setInterval(() => {
              const b = f.et.busyProcs;
              if (b > c.procs || b < 0 || f.et.pendingTasks < 0 || f.et.spawnedProcs > f.children.length + 1) bad ??= `busyProcs ${b} of ${c.procs}, pendingTasks ${f.et.pendingTasks}, spawnedProcs ${f.et.spawnedProcs} of ${f.children.length}`;
            }, 2);
            let bad;
            await Promise.all(pending);
            clearInterval(watch);
            u.ok(bad == null, bad);
            u.eq(f.et.pendingTasks, 0, "pendingTasks at rest");
          }
          t.nontrivial(total > c.procs);
          t.label("recycled after " + c.perProc);
          // what the children saw
          const served = {};
          const open = new Set();
          for (const r of f.records()) {
            if (r.done || r.end) open.delete(r.pid);
            if (!r.cmd) continue;
            if (r.cmd.length === 1 && r.cmd[0] === "-ver") continue; // start-up, health check or version()
            served[r.pid] = (served[r.pid] ?? 0) + 1;
            open.add(r.pid);
            u.ok(open.size <= c.procs, () => `${open.size} commands in progress with maxProcs ${c.procs}`);
          }
          for (const [pid, k] of Object.entries(served)) u.ok(k <= c.perProc, () => `child ${pid} served ${k} commands, limit ${c.perProc}`);
          u.eq(f.et.spawnedProcs, f.children.length, "spawnedProcs");
          if (c.perProc > total) u.ok(f.children.length <= c.procs, () => `${f.children.length} children for ${total} calls with maxProcs ${c.procs}`);
          u.ok(f.et.pids.length <= c.procs, () => `${f.et.pids.length} pids with maxProcs ${c.procs}`);
          const known = new Set(f.children.map((x) => x.pid));
          for (const p of f.et.pids) u.ok(known.has(p), () => `pid ${p} is not a child`);
        } finally {
          await f.end();
        }
      },
    });

    // ---- an exiftool that cannot be started
    const FAULTS = ["missing", "notExecutable", "directory", "badInterpreter", "exits", "pathRejects", "pathThrows"];
    await ctx.prop("cannot-start", {
      runs: [160, 3200],
      arb: fc.record({
        fault: fc.constantFrom(...FAULTS),
        calls: fc.array(fc.constantFrom("read", "readRaw", "write", "version", "deleteAllTags"), { minLength: 1, maxLength: 4 }),
        procs: fc.integer({ min: 1, max: 3 }),
        retries: fc.integer({ min: 0, max: 2 }),
        ms: fc.constantFrom(0, 20, 150, 350),
        then: fc.constantFrom("repair", "repair", "end", "endNow", "dispose", "asyncDispose"),
      }),
      async check(c, t) {
        const dir = path.join(ctx.scratch, "cs" + ++n);
        fs.mkdirSync(dir);
        const bin = path.join(dir, "exiftool");
        const log = path.join(dir, "log");
        fs.writeFileSync(log, "");
        let broken = true;
        if (c.fault === "notExecutable") fs.writeFileSync(bin, FAKE, { mode: 0o644 });
        if (c.fault === "directory") fs.mkdirSync(bin);
        if (c.fault === "badInterpreter") fs.writeFileSync(bin, "#!/nonexistent/perl\n", { mode: 0o755 });
        if (c.fault === "exits") fs.writeFileSync(bin, "#!/bin/sh\nexit 3\n", { mode: 0o755 });
        const viaPath = /^path/.test(c.fault);
        // the location is asked for once per instance, so a failing location is final
        const repair = c.then === "repair" && !viaPath;
        const exiftoolPath = viaPath
          ? () => {
              if (c.fault === "pathThrows") throw new Error("no such tool");
              return Promise.reject(new Error("no such tool"));
            }
          : bin;
        const et = new L.ExifTool({ ...common, maxProcs: c.procs, taskRetries: c.retries, exiftoolPath, exiftoolEnv: { FAKE_LOG: log, FAKE_CTL_DIR: dir } });
        let startErrors = 0;
        et.on("startError", (e) => {
          startErrors++;
          if (!(e instanceof Error)) broken = "startError with " + u.show(e);
        });
        try {
          const p = (i) => path.join(dir, "f" + i);
          const pending = c.calls.map((api, i) =>
            u.settles({ read: () => et.read(p(i)), readRaw: () => et.readRaw(p(i)), write: () => et.write(p(i), { Title: "x" }), version: () => et.version(), deleteAllTags: () => et.deleteAllTags(p(i)) }[api](), `${api} with an exiftool that cannot be started (${c.fault})`, 60000),
          );
          let settled = 0;
          for (const q of pending) q.then(() => settled++, () => settled++);
          await sleep(c.ms);
          t.nontrivial();
          t.label(c.fault);
          t.label(c.then);
          if (c.ms >= 150 && c.fault !== "exits") {
            for (let i = 0; i < 1000 && startErrors === 0; i++) await sleep(10);
            u.ok(startErrors >= 1, `no startError (${c.fault})`);
          }
          if (repair) {
            if (c.fault === "directory") fs.rmdirSync(bin);
            fs.writeFileSync(bin + ".new", FAKE, { mode: 0o755 });
            fs.renameSync(bin + ".new", bin);
            for (const [i, q] of pending.entries()) {
              const r = await q;
              u.ok(r.ok || c.fault === "exits", () => `${c.calls[i]} rejected although exiftool became usable: ${r.error}`);
            }
            const r = await u.settles(et.read(p(99)), "read after the repair", 60000);
            u.ok(r.ok, () => `read after the repair rejected: ${r.error}`);
          } else {
            const end = { repair: () => et.end(), end: () => et.end(), endNow: () => et.end(false), dispose: () => et[Symbol.dispose](), asyncDispose: () => et[Symbol.asyncDispose]() }[c.then];
            const e = await u.settles(Promise.resolve().then(end), c.then, 60000);
            u.ok(e.ok, () => `${c.then} rejected: ${e.error}`);
            for (const [i, q] of pending.entries()) {
              const r = await q;
              u.ok(!r.ok, () => `${c.calls[i]} resolved without exiftool: ${u.show(r.value)}`);
              u.ok(r.error instanceof Error, () => `${c.calls[i]} rejected with ${u.show(r.error)}`);
            }
            u.eq(et.ended, true, "ended");
          }
          if (typeof broken === "string") ctx.fail(broken);
        } finally {
          await et.end().catch(() => {});
          await sleep(1);
          fs.rmSync(dir, { recursive: true, force: true });
        }
      },
    });
  },
};
