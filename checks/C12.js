"use strict";
const g = require("../lib/gens");
const { fc } = g;
const TZS = ["UTC", "America/Los_Angeles", "Asia/Kathmandu", "Australia/Lord_Howe"];
const CAPTURED = ["SubSecDateTimeOriginal", "SubSecCreateDate", "DateTimeOriginal", "CreateDate", "MediaCreateDate", "CreationDate", "DateTimeCreated"];
const UTCTAGS = ["GPSDateTime", "DateTimeUTC", "GPSDateStamp+GPSTimeStamp", "SonyDateTime2"];

module.exports = {
  id: "C12",
  level: "exploration",
  quickScale: 12,
  shardEnvs: () => TZS.flatMap((TZ) => [{ TZ }, { TZ }]),
  rule:
    "Histories of settings changes (assign, re-assign, reset one, reset all) interleaved with inferences, and tag sets holding a UTC time, a capture time at a generated distance from a generated offset, and noise tags. Oracle: brute-force nearest member of an independently written offset table under the settings then in force; ties may go to either neighbour. Non-trivial: a difference that is not itself an offset, a setting changed earlier in the history, or a rejected inference.",
  assumptions: [],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    const { Settings, ExifDateTime } = L;
    const table = (s) => [...g.OFFSETS, ...(s.archaic ? g.ARCHAIC : []), ...(s.baker ? [-720] : [])];
    const nearest = (d, s, tol) => {
      const c = table(s).map((o) => [Math.abs(o - d), o]).filter(([x]) => x <= tol);
      const m = Math.min(...c.map(([x]) => x));
      return c.filter(([x]) => x === m).map(([, o]) => o);
    };
    const delta = fc.oneof(
      { weight: 4, arbitrary: fc.tuple(fc.constantFrom(...g.OFFSETS, ...g.ARCHAIC, -720), fc.oneof(fc.integer({ min: -45, max: 45 }), fc.double({ min: -35, max: 35, noNaN: true }))).map(([o, d]) => o + d) },
      { weight: 1, arbitrary: fc.double({ min: -2000, max: 2000, noNaN: true }) },
      { weight: 1, arbitrary: fc.integer({ min: -1000, max: 1000 }) },
    );
    const agree = (got, d, s, tol, what) => {
      const exp = nearest(d, s, tol);
      u.ok(exp.length === 0 ? got === undefined : exp.includes(got), () => `${what}: got ${got}, expected ${exp.length ? exp.join(" or ") : "none"}`);
    };
    const op = fc.oneof(
      { weight: 2, arbitrary: fc.boolean().map((v) => ({ op: "archaic", v })) },
      { weight: 2, arbitrary: fc.boolean().map((v) => ({ op: "baker", v })) },
      { weight: 2, arbitrary: fc.constantFrom(0, 1, 5, 15, 30, 45, 7.5).map((v) => ({ op: "tol", v })) },
      { weight: 1, arbitrary: fc.constantFrom("archaic", "baker", "tol", "all").map((v) => ({ op: "reset", v })) },
      { weight: 4, arbitrary: fc.record({ op: fc.constant("infer"), d: delta, tol: fc.option(fc.constantFrom(0, 3, 10, 30, 61), { freq: 3 }) }) },
      { weight: 2, arbitrary: fc.record({ op: fc.constant("valid"), o: fc.constantFrom(...g.OFFSETS, ...g.ARCHAIC, -720, -1, 15, 720.5, 59) }) },
    );
    await ctx.prop("settings-history", {
      runs: [8000, 200000],
      arb: fc.array(op, { minLength: 2, maxLength: 16 }),
      check(ops, t) {
        const s = { archaic: false, baker: false, tol: 30 };
        let changed = false;
        Settings.reset();
        try {
          for (const [i, o] of ops.entries()) {
            const what = `step ${i} ${JSON.stringify(o)} under ${JSON.stringify(s)}`;
            if (o.op === "archaic") Settings.allowArchaicTimezoneOffsets.value = s.archaic = o.v;
            else if (o.op === "baker") Settings.allowBakerIslandTime.value = s.baker = o.v;
            else if (o.op === "tol") Settings.maxValidOffsetMinutes.value = s.tol = o.v;
            else if (o.op === "reset") {
              if (o.v === "archaic" || o.v === "all") s.archaic = false;
              if (o.v === "baker" || o.v === "all") s.baker = false;
              if (o.v === "tol" || o.v === "all") s.tol = 30;
              if (o.v === "all") Settings.reset();
              else ({ archaic: Settings.allowArchaicTimezoneOffsets, baker: Settings.allowBakerIslandTime, tol: Settings.maxValidOffsetMinutes })[o.v].reset();
            } else if (o.op === "infer") {
              t.nontrivial(changed || !table(s).includes(o.d));
              const got = o.tol == null ? L.inferLikelyOffsetMinutes(o.d) : L.inferLikelyOffsetMinutes(o.d, o.tol);
              t.label(got === undefined ? "none" : "found");
              agree(got, o.d, s, o.tol ?? s.tol, what);
              continue;
            } else {
              const v = table(s).includes(o.o);
              u.eq(L.validTzOffsetMinutes(o.o), v, what + " validTzOffsetMinutes");
              u.eq(L.normalizeZone(o.o)?.isValid ?? false, v, what + " normalizeZone");
              u.eq(L.offsetMinutesToZoneName(o.o) != null, v, what + " offsetMinutesToZoneName");
              continue;
            }
            changed = true;
          }
          u.eq(L.inferLikelyOffsetMinutes(undefined), undefined, "inferLikelyOffsetMinutes(undefined)");
        } finally {
          Settings.reset();
        }
      },
    });

    const wall = (ms) => {
      const d = new Date(ms);
      const p = (n, w = 2) => String(n).padStart(w, "0");
      return { date: `${p(d.getUTCFullYear(), 4)}:${p(d.getUTCMonth() + 1)}:${p(d.getUTCDate())}`, time: `${p(d.getUTCHours())}:${p(d.getUTCMinutes())}:${p(d.getUTCSeconds())}` };
    };
    const tagCase = fc.record({
      utc: fc.integer({ min: Date.UTC(1990, 0, 1) / 1000, max: Date.UTC(2035, 0, 1) / 1000 }).map((s) => s * 1000),
      utcTag: fc.constantFrom(...UTCTAGS),
      utcZ: fc.constantFrom("", "", "Z", "+00:00"),
      frac: fc.constantFrom("", "", ".25", ".999"),
      capTag: fc.constantFrom(...CAPTURED),
      off: fc.oneof(g.offsetMin, fc.constantFrom(...g.ARCHAIC.filter(Number.isInteger), -720)),
      drift: fc.oneof(fc.constant(0), fc.integer({ min: -40 * 60, max: 40 * 60 })),
      capZone: fc.oneof({ weight: 7, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: g.offsetMin }),
      asObject: fc.boolean(),
      missing: fc.constantFrom("", "", "", "", "utc", "cap", "blankDate"),
      archaic: fc.boolean(),
      baker: fc.boolean(),
      tol: fc.constantFrom(30, 30, 15, 5),
      extra: fc.constantFrom({}, { Make: "X", ModifyDate: "2001:01:01 00:00:00" }, { DateTimeOriginal: "garbage" }, { GPSDateTime: "garbage" }, { DateTimeUTC: "2020:01:01 00:00:00+03:00" }),
    });
    await ctx.prop("utc-vs-capture-time", {
      runs: [20000, 400000],
      arb: tagCase,
      check(c, t) {
        Settings.allowArchaicTimezoneOffsets.value = c.archaic;
        Settings.allowBakerIslandTime.value = c.baker;
        Settings.maxValidOffsetMinutes.value = c.tol;
        try {
          const tags = { ...c.extra };
          const local = c.utc + c.off * 60000 + c.drift * 1000;
          const w = wall(c.utc);
          if (c.utcTag.includes("+")) {
            delete tags.GPSDateTime;
            delete tags.DateTimeUTC;
            tags.GPSDateStamp = c.missing === "blankDate" ? " " : w.date;
            tags.GPSTimeStamp = w.time + c.frac;
          } else {
            if (c.utcTag !== "GPSDateTime" && tags.GPSDateTime) delete tags.GPSDateTime;
            const text = `${w.date} ${w.time}${c.frac}${c.utcZ}`;
            tags[c.utcTag] = c.asObject ? ExifDateTime.fromEXIF(text) : text;
          }
          const noUtc = c.missing === "utc" || (c.missing === "blankDate" && c.utcTag.includes("+"));
          if (c.missing === "utc") for (const k of ["GPSDateTime", "DateTimeUTC", "GPSDateStamp", "GPSTimeStamp", "SonyDateTime2"]) delete tags[k];
          if (noUtc) for (const k of ["GPSDateTime", "DateTimeUTC"]) delete tags[k];
          const l = wall(local);
          if (c.missing !== "cap") tags[c.capTag] = `${l.date} ${l.time}${c.capZone == null ? "" : g.offStr(c.capZone)}`;
          const before = JSON.stringify(tags);
          const got = L.extractTzOffsetFromUTCOffset(tags);
          u.eq(JSON.stringify(tags), before, "tags are not modified");
          const s = { archaic: c.archaic, baker: c.baker };
          let exp = noUtc || c.missing === "cap" || c.capZone != null ? [] : nearest((local - c.utc) / 60000, s, c.tol);
          t.nontrivial(c.drift !== 0 || exp.length === 0 || c.archaic || c.baker);
          t.label(exp.length ? "inferred" : "none");
          const what = `extractTzOffsetFromUTCOffset(${before}) under ${JSON.stringify({ ...s, tol: c.tol })}`;
          const names = exp.map((o) => (Number.isInteger(o) ? g.zoneName(o) : "UTC-0:25:21"));
          u.ok(exp.length === 0 ? got === undefined : names.includes(got?.zone), () => `${what}: got ${got?.zone}, expected ${names.join(" or ") || "none"}`);
          if (got) {
            u.eq(got.tz, got.zone, what + " tz");
            u.ok(L.isZoneValid(L.normalizeZone(got.zone)), `${got.zone} is a valid zone`);
            u.ok(got.src.includes(c.capTag), `src ${JSON.stringify(got.src)} names ${c.capTag}`);
          }
        } finally {
          Settings.reset();
        }
      },
    });

    // The zone an explicit tag states: highest-priority tag wins.
    const ZT = ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset"];
    const zv = fc.oneof({ weight: 5, arbitrary: g.offsetMin.map((o) => ({ o, v: g.offStr(o) })) }, { weight: 1, arbitrary: fc.constantFrom("", "nope", "+99:00", null, undefined, true).map((v) => ({ v })) });
    await ctx.prop("explicit-zone-tags", {
      runs: [8000, 100000],
      arb: fc.record({ tags: fc.record(Object.fromEntries(ZT.map((k) => [k, k === "TimeZoneOffset" ? fc.oneof(zv, g.offsetMin.map((o) => ({ o, v: o / 60 })), fc.tuple(g.offsetMin, g.offsetMin).map(([o, p]) => ({ o, v: [o / 60, p / 60] }))) : zv])), { requiredKeys: [] }), order: fc.boolean(), dst: fc.constantFrom(undefined, "Yes", "No", true, false, 1), make: fc.constantFrom("NIKON CORPORATION", "Canon", undefined) }),
      check({ tags, order, dst, make }, t) {
        const keys = order ? Object.keys(tags) : Object.keys(tags).reverse();
        const o = Object.fromEntries(keys.map((k) => [k, tags[k].v]));
        if (dst !== undefined) o.DaylightSavings = dst;
        if (make !== undefined) o.Make = make;
        t.nontrivial(keys.length > 1);
        const win = ZT.find((k) => tags[k]?.o !== undefined);
        const got = L.extractTzOffsetFromTags(o);
        const what = `extractTzOffsetFromTags(${JSON.stringify(o)})`;
        if (win === undefined) return void u.eq(got, undefined, what);
        const adj = make === "NIKON CORPORATION" && (dst === "Yes" || dst === true || dst === 1) ? 60 : 0;
        if (adj && !["Yes"].includes(dst)) return; // only the documented text form is decided
        t.label(adj ? "nikon-dst" : win);
        u.eq(got?.zone, g.zoneName(g.OFFSETS.includes(tags[win].o + adj) ? tags[win].o + adj : tags[win].o), what);
        u.ok(got.src.startsWith(win), `${what} src ${got.src}`);
        // a custom adjustment replaces the default one
        const got2 = L.extractTzOffsetFromTags(o, { adjustTimeZoneIfDaylightSavings: () => undefined });
        u.eq(got2?.zone, g.zoneName(tags[win].o), what + " without adjustment");
        const got3 = L.extractTzOffsetFromTags(o, { adjustTimeZoneIfDaylightSavings: (tt, z) => (u.eq(tt, o, "tags given to adjust"), u.eq(L.normalizeZone(z)?.offset(0), tags[win].o, "zone given to adjust"), 30) });
        u.eq(got3?.zone, g.zoneName(g.OFFSETS.includes(tags[win].o + 30) ? tags[win].o + 30 : tags[win].o), what + " with +30 minutes");
      },
    });
  },
};
