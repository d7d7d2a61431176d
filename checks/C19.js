"use strict";
const fs = require("node:fs");
const path = require("node:path");
const util = require("node:util");
const g = require("../lib/gens");
const meta = require("../lib/meta");
const { fc } = g;

const N = { noNullPrototype: true };
const some = (model, freq = 0.45) => fc.record(model, { requiredKeys: [], ...N });
const dst = [() => undefined, () => 60, () => -60];
const geo = [() => "Asia/Tokyo", () => "America/Chicago", () => undefined];
const readOpts = some({
  readArgs: fc.constantFrom(["-fast"], [], ["-n"], ["-fast2", "-G"], ["-G"], ["-api", "largefilesupport=1"], ["-ext", "jpg", "-fast"]),
  useMWG: fc.boolean(),
  struct: fc.constantFrom(0, 1, 2, "undef"),
  numericTags: fc.constantFrom([], ["Orientation"], ["*Duration*", "GPSLatitude", "GPSLongitude"], ["ISO", "XMP-dc:Title"]),
  ignoreMinorErrors: fc.boolean(),
  imageHashType: fc.constantFrom(false, "MD5", "SHA256", "SHA512"),
  geolocation: fc.boolean(),
  keepUTCTime: fc.boolean(),
  backfillTimezones: fc.boolean(),
  defaultVideosToUTC: fc.boolean(),
  ignoreZeroZeroLatLon: fc.boolean(),
  inferTimezoneFromDatestamps: fc.boolean(),
  inferTimezoneFromDatestampTags: fc.constantFrom([], ["ModifyDate"], ["CreateDate", "DateTimeOriginal"]),
  inferTimezoneFromTimeStamp: fc.boolean(),
  preferTimezoneInferenceFromGps: fc.boolean(),
  adjustTimeZoneIfDaylightSavings: fc.constantFrom(...dst),
  geoTz: fc.constantFrom(...geo),
});
const writeOpts = some({ useMWG: fc.boolean(), struct: fc.constantFrom(0, 1, 2, "undef"), ignoreMinorErrors: fc.boolean(), writeArgs: fc.constantFrom([], ["-overwrite_original"], ["-n", "-P"], ["-overwrite_original", "-q"]) });
// what an instance may be constructed with
const instOpts = fc.tuple(readOpts, writeOpts, fc.integer({ min: 0, max: 3 })).map(([a, b, k]) => (k === 0 ? {} : k === 1 ? { ...b, ...a } : { ...a, ...b }));
const F = { read: ["adjustTimeZoneIfDaylightSavings", "backfillTimezones", "defaultVideosToUTC", "geolocation", "geoTz", "ignoreMinorErrors", "ignoreZeroZeroLatLon", "imageHashType", "inferTimezoneFromDatestamps", "inferTimezoneFromDatestampTags", "inferTimezoneFromTimeStamp", "keepUTCTime", "numericTags", "preferTimezoneInferenceFromGps", "readArgs", "struct", "useMWG"], raw: ["readArgs", "ignoreMinorErrors", "useMWG"], write: ["useMWG", "struct", "ignoreMinorErrors", "writeArgs"], task: ["ignoreMinorErrors"] };
const only = (o, keys) => Object.fromEntries(Object.entries(o ?? {}).filter(([k]) => keys.includes(k)));

const stamp = fc.tuple(meta.quietTime, fc.constantFrom(null, null, 0, 120, -300)).map(([f, o]) => meta.textOf(f, "", o));
const tagsArb = fc.record(
  { DateTimeOriginal: stamp, CreateDate: stamp, ModifyDate: stamp, GPSDateTime: stamp, TimeStamp: stamp, OffsetTime: fc.constantFrom("+02:00", "-05:00"), TimeZone: fc.constantFrom("+03:00", "-08:00"), GPSLatitude: fc.constantFrom(0, 45, -30.5), GPSLongitude: fc.constantFrom(0, 10, 120.25), MIMEType: fc.constantFrom("video/mp4", "image/jpeg"), Make: fc.constant("NIKON"), DaylightSavings: fc.constantFrom("Yes", "No"), GeolocationTimeZone: fc.constantFrom("Asia/Kolkata", "America/Denver"), Title: fc.constantFrom("x", "a\nb"), Warning: fc.constant("[minor] odd") },
  { requiredKeys: [], ...N },
);
const wtags = fc.record({ Title: fc.constantFrom("t", "two\nlines", null), Keywords: fc.constantFrom(["a", "b"], []), GPSLatitude: fc.constantFrom(1.5, -3, null), GPSLongitude: fc.constantFrom(7, -8.25), GPSAltitude: fc.constantFrom(-5, 10), "XMP:Creator": fc.constantFrom(["x"], "y"), RegionInfo: fc.constant({ AppliedToDimensions: { W: 1, H: 2, Unit: "pixel" }, RegionList: [{ Name: "n", Type: "Face" }] }), Orientation: fc.constant(1) }, { requiredKeys: [], ...N });
const edits = fc.array(fc.record({ operation: fc.constantFrom("add", "remove"), tag: fc.constantFrom("IPTC:Keywords", "XMP-dc:Subject"), value: fc.constantFrom("a", "b c", "&amp;") }, N), { minLength: 1, maxLength: 3 });
const call = fc.oneof(
  { weight: 5, arbitrary: fc.record({ m: fc.constant("read"), tags: tagsArb, o: fc.option(readOpts, { freq: 5, nil: undefined }), legacy: fc.constantFrom(false, false, true) }) },
  { weight: 2, arbitrary: fc.record({ m: fc.constant("readRaw"), tags: tagsArb, o: fc.option(readOpts.map((o) => only(o, F.raw)), { freq: 5, nil: undefined }), legacy: fc.constantFrom(false, true) }) },
  { weight: 3, arbitrary: fc.record({ m: fc.constant("write"), w: wtags, o: fc.option(writeOpts, { freq: 5, nil: undefined }), legacy: fc.constantFrom(false, false, true) }) },
  { weight: 1, arbitrary: fc.record({ m: fc.constant("editTags"), e: edits, o: fc.option(writeOpts, { freq: 4, nil: undefined }) }) },
  { weight: 1, arbitrary: fc.record({ m: fc.constant("deleteAllTags"), o: fc.option(fc.record({ retain: fc.constantFrom([], ["Title"], ["XMP:Title", "Orientation"]), ignoreMinorErrors: fc.boolean() }, { requiredKeys: [], ...N }), { freq: 4, nil: undefined }) }) },
  { weight: 1, arbitrary: fc.record({ m: fc.constantFrom("rewriteAllTags"), o: fc.option(fc.record({ allowMakerNoteRepair: fc.boolean(), ignoreMinorErrors: fc.boolean() }, { requiredKeys: [], ...N }), { freq: 4, nil: undefined }) }) },
  { weight: 1, arbitrary: fc.record({ m: fc.constantFrom("version", "extractBinaryTag", "extractBinaryTag", "extractBinaryTagToBuffer", "extractBinaryTagToBuffer", "extractThumbnail"), o: fc.option(fc.record({ ignoreMinorErrors: fc.boolean() }, { requiredKeys: [], ...N }), { freq: 4, nil: undefined }) }) },
);

const clone = (v) => (Array.isArray(v) ? v.map(clone) : v && typeof v === "object" && [Object.prototype, null].includes(Object.getPrototypeOf(v)) ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, clone(x)])) : v);
const freeze = (v) => {
  if (v && typeof v === "object" && !Object.isFrozen(v)) {
    Object.freeze(v);
    Object.values(v).forEach(freeze);
  }
  return v;
};

module.exports = {
  id: "C19",
  level: "exploration",
  technique: "stateful property-based testing: histories of calls on several instances with generated options, compared metamorphically with one fully specified call",
  shards: 8,
  rule:
    "Histories of concurrent and sequential read, readRaw, write, editTags, deleteAllTags, rewriteAllTags and binary-extraction calls are generated over two instances built with generated options, with generated per-call options (current and legacy signatures), half of them deep-frozen. Oracle: the same call on a shared default instance with the merged options given in full, and on a fresh instance constructed with them, must send the same command and give the same result; the arguments an option stands for are present exactly when the merged options ask for them; everything passed in, and the exported defaults, equal their snapshots afterwards. Non-trivial: a call option that overrides an instance option, or an instance option that overrides a default.",
  assumptions: ["an option explicitly set to undefined is not claimed", "the logger option is documented to be global", "deleteAllTags does not take writeArgs"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    const D = L.DefaultExifToolOptions;
    const base = { maxProcs: 2 };
    const fake = u.fake(base);
    const mk = (o) => new L.ExifTool({ ...only(fake.et.options, ["maxProcs", "maxTasksPerProcess", "maxProcAgeMillis", "taskRetries", "checkPerl", "onIdleIntervalMillis", "healthCheckIntervalMillis", "streamFlushMillis", "taskTimeoutMillis", "spawnTimeoutMillis", "processFactory"]), ...o });
    const defaultsBefore = clone({ ...D });
    let seq = 0;

    // Runs one call; returns what the child saw and what the caller got.
    const perform = async (et, c, o) => {
      const id = "c" + ++seq;
      const p = path.join(fake.dir, id + ".jpg");
      const out = path.join(fake.dir, id + ".out");
      let ctl = { stdout: "    1 image files updated\n" };
      if (c.m === "read" || c.m === "readRaw") ctl = { stdout: JSON.stringify([{ SourceFile: p, ...c.tags }]) };
      else if (c.m === "extractBinaryTagToBuffer") ctl = { stdout: JSON.stringify([{ SourceFile: p, PreviewImage: "base64:aGk=" }]) };
      else if (c.m.startsWith("extract")) ctl = { stdout: "    1 output files created\n" };
      else if (c.m === "rewriteAllTags") ctl = { stdout: "    1 image files created\n" };
      fs.writeFileSync(p + ".ctl", JSON.stringify(ctl));
      const go = () => {
        switch (c.m) {
          case "read":
          case "readRaw":
            return c.legacy && o !== undefined ? et[c.m](p, o.readArgs, omit(o, "readArgs")) : o === undefined ? et[c.m](p) : et[c.m](p, o);
          case "write":
            return c.legacy && o !== undefined ? et.write(p, c.w, o.writeArgs, omit(o, "writeArgs")) : o === undefined ? et.write(p, c.w) : et.write(p, c.w, o);
          case "editTags":
            return et.editTags(p, c.e, o);
          case "deleteAllTags":
            return et.deleteAllTags(p, o);
          case "rewriteAllTags":
            return et.rewriteAllTags(p, out, o);
          case "extractBinaryTag":
            return et.extractBinaryTag("PreviewImage", p, out, o);
          case "extractBinaryTagToBuffer":
            return et.extractBinaryTagToBuffer("PreviewImage", p, o);
          case "extractThumbnail":
            return et.extractThumbnail(p, out, o);
          default:
            return et.version();
        }
      };
      const r = await u.settles(go(), c.m);
      const norm = (s) => (typeof s === "string" ? s.split(id).join("ID") : s);
      const deep = (v) => (Array.isArray(v) ? v.map(deep) : v && typeof v === "object" && v.constructor === Object ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, deep(x)])) : v && typeof v === "object" ? [v.constructor.name, JSON.stringify(v)] : norm(v));
      return { id, p, norm, out: r.ok ? { ok: deep(r.value) } : { error: norm(String(r.error?.message ?? r.error)) } };
    };
    const omit = (o, k) => Object.fromEntries(Object.entries(o).filter(([x]) => x !== k));
    const pool = [];
    const seen = (res) => {
      pool.push(...fake.records().filter((r) => r.cmd).map((r) => r.cmd));
      const mine = pool.filter((cmd) => cmd.some((a) => a.includes(res.p)));
      return mine.map((cmd) => cmd.map((a) => a.split(res.id).join("ID")));
    };
    const fields = (m) => (m === "read" ? F.read : m === "readRaw" ? F.raw : m === "write" || m === "editTags" ? F.write : m === "deleteAllTags" ? ["useMWG", "struct", "ignoreMinorErrors"] : F.task);
    const pairs = (cmd, a) => cmd.flatMap((x, i) => (x === a ? [cmd[i + 1]] : []));
    const has = (cmd, list) => list.length === 0 || cmd.some((_, i) => list.every((x, k) => cmd[i + k] === x));

    const expectArgs = (c, m, cmd, what) => {
      const isTrue = (b, arg, w) => u.eq(arg, b, `${what}: ${w} in command ${JSON.stringify(cmd)}`);
      isTrue(m.ignoreMinorErrors === true, cmd.includes("-ignoreMinorErrors"), "-ignoreMinorErrors");
      if ("useMWG" in m) isTrue(m.useMWG === true, pairs(cmd, "-use").includes("MWG"), "-use MWG");
      const api = pairs(cmd, "-api").map((s) => String(s).toLowerCase());
      const struct = api.filter((a) => a.startsWith("struct="));
      if (c.m === "read") {
        u.eq(struct, ["struct=" + (typeof m.struct === "number" ? m.struct : 0)], `${what}: struct option`);
        isTrue(m.geolocation === true, api.includes("geolocation"), "geolocation");
        isTrue(m.keepUTCTime === true, api.includes("keeputctime"), "keepUTCTime");
        u.eq(api.filter((a) => a.startsWith("imagehashtype=")), m.imageHashType ? ["imagehashtype=" + m.imageHashType.toLowerCase()] : [], `${what}: image hash type`);
        u.eq(cmd.filter((a) => /^-[^#]+#$/.test(a)), m.numericTags.map((x) => `-${x}#`), `${what}: numeric tags`);
      }
      if (c.m === "write" || c.m === "editTags" || c.m === "deleteAllTags") u.eq(struct, ["struct=" + (typeof m.struct === "number" ? m.struct : 2)], `${what}: struct option`);
      const args = c.m === "read" || c.m === "readRaw" ? m.readArgs : m.writeArgs;
      if (args) u.ok(has(cmd, args), () => `${what}: ${JSON.stringify(args)} missing from ${JSON.stringify(cmd)}`);
      // and no argument of another level
      for (const other of ["-n", "-fast", "-fast2", "-G", "-ext", "-P", "-q", "-overwrite_original"]) if (cmd.includes(other) && !(args ?? []).includes(other)) ctx.fail(`${what}: ${other} was sent though the options in force do not ask for it: ${JSON.stringify(cmd)}`);
    };

    try {
      await ctx.prop("option-histories", {
        runs: [1400, 24000],
        arb: fc.record({
          inst: fc.tuple(instOpts, instOpts),
          calls: fc.array(fc.record({ on: fc.nat(1), c: call, together: fc.boolean(), viaInstance: fc.integer({ min: 0, max: 3 }).map((n) => n === 0) }), { minLength: 1, maxLength: 8 }),
          frozen: fc.boolean(),
        }),
        async check({ inst, calls, frozen }, t) {
          fake.records();
          pool.length = 0;
          const live = clone(inst);
          const callsLive = clone(calls);
          const before = clone([live, callsLive]);
          if (frozen) freeze([live, callsLive]);
          const ets = live.map((o) => mk(o));
          try {
            const results = [];
            let batch = [];
            for (const s of callsLive) {
              batch.push(perform(ets[s.on], s.c, s.c.o).then((r) => ({ s, r })));
              if (!s.together) results.push(...(await Promise.all(batch.splice(0))));
            }
            results.push(...(await Promise.all(batch)));
            if (!util.isDeepStrictEqual([live, callsLive], before)) ctx.fail(`the library changed what it was given: ${u.show(live)} ${u.show(callsLive)}, was ${u.show(before)}`);
            u.eq({ ...D }, defaultsBefore, "DefaultExifToolOptions after the calls");
            for (const { s, r } of results) {
              const { c } = s;
              if (c.m === "version") continue;
              const own = live[s.on];
              const f = fields(c.m);
              const merged = { ...only(D, f), ...only(own, f), ...only(c.o, f) };
              if (c.o && f.some((k) => k in c.o && k in own)) t.nontrivial();
              else if (f.some((k) => k in own)) t.nontrivial();
              t.label(c.m + (c.legacy && c.o ? " legacy" : ""));
              const what = `${c.m}() with ${u.show(c.o)} on an instance with ${u.show(own)}`;
              const mine = seen(r);
              if (mine.length > 1) ctx.fail(`${what}: ${mine.length} commands were sent`);
              if (mine[0]) expectArgs(c, merged, mine[0], what);
              // the same call, fully specified
              const extra = c.m === "deleteAllTags" ? only(c.o, ["retain"]) : c.m === "rewriteAllTags" ? only(c.o, ["allowMakerNoteRepair"]) : {};
              const full = { ...(c.m === "deleteAllTags" ? only(merged, ["ignoreMinorErrors"]) : merged), ...extra };
              if (c.m !== "deleteAllTags") {
                const ref = await perform(fake.et, { ...c, legacy: false }, full);
                u.eq(r.out, ref.out, `result of ${what}, compared with every option given in the call`);
                u.eq(mine, seen(ref), `command of ${what}, compared with every option given in the call`);
              }
              if (s.viaInstance) {
                const et = mk(merged);
                try {
                  const ref = await perform(et, { ...c, legacy: false }, Object.keys(extra).length ? extra : undefined);
                  u.eq(r.out, ref.out, `result of ${what}, compared with an instance that has those options`);
                  u.eq(mine, seen(ref), `command of ${what}, compared with an instance that has those options`);
                } finally {
                  await et.end().catch(() => {});
                }
              }
            }
          } finally {
            await Promise.all(ets.map((e) => e.end().catch(() => {})));
          }
        },
      });

      // The deprecated way of asking for an image hash still works, at either level.
      await ctx.prop("deprecated-options", {
        runs: [120, 1000],
        arb: fc.record({ i: fc.constantFrom(undefined, true, false), it: fc.constantFrom(undefined, undefined, "SHA256", false), c: fc.constantFrom(undefined, true, false), ct: fc.constantFrom(undefined, undefined, "SHA512", false) }),
        async check({ i, it, c, ct }, t) {
          const o = (a, b) => ({ ...(a === undefined ? {} : { includeImageDataMD5: a }), ...(b === undefined ? {} : { imageHashType: b }) });
          const iOpts = freeze(o(i, it));
          const cOpts = freeze(o(c, ct));
          t.nontrivial(i !== undefined || c !== undefined);
          const level = (a, b) => (b !== undefined ? b : a === undefined ? undefined : a ? "MD5" : false);
          const want = level(c, ct) ?? level(i, it) ?? false;
          const et = mk(iOpts);
          try {
            fake.records();
            pool.length = 0;
            const r = await perform(et, { m: "read", tags: { Title: "x" } }, cOpts);
            const cmd = seen(r)[0];
            u.eq(pairs(cmd, "-api").filter((a) => /^imagehashtype=/i.test(a)), want ? ["imagehashtype=" + want] : [], `image hash of read(${u.show(cOpts)}) on an instance with ${u.show(iOpts)}`);
          } finally {
            await et.end().catch(() => {});
          }
        },
      });
    } finally {
      await fake.end();
    }

    /* ---- the same over the real exiftool: a history does not change an answer ---- */
    const dir = path.join(ctx.scratch, "c19");
    fs.mkdirSync(dir, { recursive: true });
    const file = path.join(dir, "a.jpg");
    fs.writeFileSync(file, u.JPEG);
    const setup = u.real();
    await setup.write(file, { "XMP-dc:Subject": ["xmp1", "xmp2"], "IPTC:Keywords": ["iptc1"], "XMP:Title": "t", "EXIF:ImageDescription": "d", "EXIF:DateTimeOriginal": "2020:02:03 04:05:06", Orientation: 6, "EXIF:GPSLatitude": 10.5, "EXIF:GPSLatitudeRef": "S", "EXIF:GPSLongitude": 20.25, "EXIF:GPSLongitudeRef": "W", RegionInfo: { AppliedToDimensions: { W: 1, H: 2, Unit: "pixel" }, RegionList: [{ Name: "n", Type: "Face" }] } }, { writeArgs: ["-overwrite_original"], useMWG: false }).catch((e) => ctx.fail("setup: " + e.message));
    await setup.end();
    const realOpts = [
      {},
      { struct: 0 },
      { struct: 2, numericTags: [] },
      { numericTags: ["Orientation"], readArgs: ["-n"] },
      { readArgs: ["-G"] },
      { imageHashType: "MD5" },
      { ignoreMinorErrors: false, readArgs: ["-fast2", "-api", "largefilesupport=0"] },
      { readArgs: ["-charset", "iptc=UTF8", "-c", "%.6f", "-d", "%Y"] },
      { readArgs: ["-sep", ", ", "-a", "-u"] },
      { readArgs: ["-api", "Filter=tr/a-z/A-Z/"] },
    ];
    const solo = new Map();
    const key = (i, mwg, raw) => `${i}/${mwg}/${raw}`;
    const strip = (r) => JSON.stringify(Object.fromEntries(Object.entries(r).filter(([k]) => !/FileAccessDate/.test(k)).sort(([a], [b]) => (a < b ? -1 : 1))));
    const differing = (a, b) => {
      if (a.startsWith("error") || b.startsWith("error")) return a;
      const [x, y] = [JSON.parse(a), JSON.parse(b)];
      const d = Object.fromEntries(Object.entries(x).filter(([k, v]) => !util.isDeepStrictEqual(v, y[k])));
      return Object.keys(d).length ? d : { order: Object.keys(x) };
    };
    const readBy = async (et, i, mwg, raw) => {
      const o = { ...realOpts[i], useMWG: mwg };
      const r = await u.settles(raw ? et.readRaw(file, o) : et.read(file, o), "read");
      return r.ok ? strip(r.value) : "error " + r.error.message;
    };
    await ctx.prop("real-histories", {
      runs: [160, 3000],
      arb: fc.record({ steps: fc.array(fc.record({ i: fc.nat(realOpts.length - 1), mwg: fc.boolean(), raw: fc.boolean(), write: fc.constantFrom(false, false, true) }), { minLength: 2, maxLength: 8 }) }),
      async check({ steps }, t) {
        t.nontrivial(new Set(steps.map((s) => s.i)).size > 1);
        const et = u.real();
        let usedMWG = false;
        try {
          for (const s of steps) {
            const alone = async (mwg) => {
              const k = key(s.i, mwg, s.raw);
              if (!solo.has(k)) {
                const one = u.real();
                try {
                  solo.set(k, await readBy(one, s.i, mwg, s.raw));
                } finally {
                  await one.end();
                }
              }
              return solo.get(k);
            };
            if (s.write) {
              const other = path.join(dir, "b.jpg");
              fs.writeFileSync(other, u.JPEG);
              usedMWG ||= s.mwg;
              await et.write(other, { Title: "other" }, { useMWG: s.mwg, writeArgs: ["-overwrite_original", "-n", "-sep", "x", "-charset", "Latin"] });
            }
            const got = await readBy(et, s.i, s.mwg, s.raw);
            const want = await alone(s.mwg);
            const what = `${s.raw ? "readRaw" : "read"}(${JSON.stringify(realOpts[s.i])}, useMWG ${s.mwg}) in ${JSON.stringify(steps)}, compared with a fresh process`;
            // known finding: -use MWG stays in force for the life of an exiftool process
            if (!s.mwg && usedMWG && got !== want && got === (await alone(true))) ctx.fail(what + ": MWG tags are still in use", "mwg-sticks");
            if (got !== want) u.eq(differing(got, want), differing(want, got), what);
            usedMWG ||= s.mwg;
          }
        } finally {
          await et.end();
        }
      },
    });
  },
};
