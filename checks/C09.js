"use strict";
const g = require("../lib/gens");
const { fc } = g;
const TZS = ["UTC", "America/Sao_Paulo", "Pacific/Apia", "America/Los_Angeles", "Asia/Beirut", "Asia/Kathmandu", "Pacific/Kiritimati", "Europe/London"];

module.exports = {
  id: "C09",
  level: "exploration",
  quickScale: 4,
  shardEnvs: () => TZS.map((TZ) => ({ TZ })),
  rule:
    "Dates are generated as (year | year-month | full date) x textual layout and times as (fields, fraction, offset, style), written out as text by the harness; the oracle is the generated tuple. Non-trivial: a partial date, a month-end/leap day, a fraction, or an explicit/default zone. Shards run under different system time zones, including ones whose calendar skips local midnights or whole days.",
  assumptions: ["ExifTime rendering is only decided for fixed-offset zones (an IANA zone's offset depends on today's date)"],
  async run(ctx) {
    const { ExifDate, ExifTime } = ctx.lib;
    const u = ctx.u;
    const MON = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
    const p2 = (n) => g.pad(n, 2);

    const LAYOUTS = {
      "y:MM:dd": (f) => `${g.pad(f.year, 4)}:${p2(f.month)}:${p2(f.day)}`,
      "y-MM-dd": (f) => `${g.pad(f.year, 4)}-${p2(f.month)}-${p2(f.day)}`,
      "y:M:d": (f) => `${f.year}:${f.month}:${f.day}`,
      "MMM d y": (f) => `${MON[f.month - 1].slice(0, 3)} ${f.day} ${f.year}`,
      "MMMM d y": (f) => `${MON[f.month - 1]} ${f.day} ${f.year}`,
      "y:MM": (f) => `${g.pad(f.year, 4)}:${p2(f.month)}`,
      "y-MM": (f) => `${g.pad(f.year, 4)}-${p2(f.month)}`,
      "y:M": (f) => `${f.year}:${f.month}`,
      "y-M": (f) => `${f.year}-${f.month}`,
      y: (f) => `${g.pad(f.year, 4)}`,
    };
    const kindOf = (l) => (l === "y" ? "year" : /d/.test(l) ? "full" : "month");
    const SKIPPED = [{ year: 2011, month: 12, day: 30 }, { year: 1994, month: 12, day: 31 }, { year: 1995, month: 1, day: 1 }, { year: 2018, month: 11, day: 4 }, { year: 2017, month: 10, day: 15 }];
    const ancient = fc.tuple(g.ymd, fc.oneof(fc.integer({ min: 2, max: 99 }), fc.integer({ min: 100, max: 999 }))).map(([f, year]) => ({ ...f, year, day: Math.min(f.day, 28) }));
    const dates = fc.oneof({ weight: 8, arbitrary: g.ymd }, { weight: 1, arbitrary: fc.constantFrom(...SKIPPED) }, { weight: 1, arbitrary: ancient });

    const verify = (e, f, kind, raw, what) => {
      const exp = { year: f.year, month: kind === "year" ? undefined : f.month, day: kind === "full" ? f.day : undefined };
      u.ok(e instanceof ExifDate, () => `${what} did not parse as a date`);
      u.eq(u.pick(e, ["year", "month", "day"]), exp, what);
      u.eq(
        [e.isPartial(), e.isYearOnly(), e.isYearMonth(), e.isFullDate()],
        [kind !== "full", kind === "year", kind === "month", kind === "full"],
        what + " [isPartial,isYearOnly,isYearMonth,isFullDate]",
      );
      if (raw !== undefined) u.eq(e.rawValue, raw, what + " rawValue");
    };

    await ctx.prop("date-parse-render", {
      runs: [24000, 500000],
      arb: fc.record({ f: dates, layout: fc.constantFrom(...Object.keys(LAYOUTS)), ws: fc.constantFrom("", "", " ", "\n") }),
      check({ f, layout, ws }, t) {
        const kind = kindOf(layout);
        t.nontrivial(kind !== "full" || f.day >= 28);
        t.label("layout:" + layout);
        const s = LAYOUTS[layout](f);
        const e = ExifDate.from(ws + s + ws);
        verify(e, f, kind, undefined, `ExifDate.from(${JSON.stringify(ws + s + ws)})`);
        u.eq(String(e.rawValue).trim(), s, "rawValue");
        // each reader accepts its own layouts, and never drops or invents a part of another's
        const OWN = { fromISO: ["y-MM-dd"], fromExifStrict: ["y:MM:dd", "y-MM-dd", "y:M:d"], fromExifLoose: ["MMM d y", "MMMM d y"], fromYearMonth: ["y:MM", "y-MM", "y:M", "y-M"], fromYear: ["y"] };
        for (const [api, own] of Object.entries(OWN)) {
          const x = ExifDate[api](s);
          if (x != null || (own.includes(layout) && (api !== "fromISO" || f.year >= 1000))) verify(x, f, kind, undefined, `ExifDate.${api}(${JSON.stringify(s)})`);
        }
        if (kind === "full") verify(ExifDate.fromEXIF(s), f, kind, s, `ExifDate.fromEXIF(${JSON.stringify(s)})`);
        const y = String(f.year);
        const dash = kind === "year" ? y : kind === "month" ? `${y}-${p2(f.month)}` : `${y}-${p2(f.month)}-${p2(f.day)}`;
        // (a year before 1000 may be written with or without leading zeros)
        const unpad = (x) => x.replace(/^0+/, "");
        u.eq(unpad(e.toISOString()), dash, "toISOString");
        u.eq(unpad(e.toString()), dash, "toString");
        u.eq(unpad(e.toExifString()), dash.replace(/-/g, ":"), "toExifString");
        verify(ExifDate.from(e.toExifString()), f, kind, undefined, "re-parsed toExifString");
        verify(ExifDate.from(e.toISOString()), f, kind, undefined, "re-parsed toISOString");
        verify(ExifDate.fromJSON(JSON.parse(JSON.stringify(e))), f, kind, e.rawValue, "JSON copy");
        const d = e.toDate();
        const apiaGap = SKIPPED.some((x) => x.year === f.year && x.month === f.month && x.day === f.day);
        if (!apiaGap) {
          u.eq([d.getFullYear(), d.getMonth() + 1, d.getDate()], [f.year, kind === "year" ? 1 : f.month, kind === "full" ? f.day : 1], "toDate is that local day");
          u.eq(e.toMillis(), d.getTime() + 12 * 3600000, "toMillis defaults to 12 hours into the local day");
          u.eq(e.toMillis(0), d.getTime(), "toMillis(0)");
        }
      },
    });

    const { DateTime } = require(require.resolve("luxon", { paths: [ctx.entry] }));
    await ctx.prop("from-luxon", {
      runs: [2000, 20000],
      arb: fc.record({ f: g.dt, o: g.offsetMin, ms: fc.nat(999), valid: fc.boolean(), raw: fc.option(fc.string(), { nil: undefined }) }),
      check({ f, o, ms, valid, raw }, t) {
        t.nontrivial();
        const dt = valid ? DateTime.fromObject({ ...f, millisecond: ms }, { zone: g.zoneName(o) }) : DateTime.invalid("generated");
        const d = ExifDate.fromDateTime(dt, raw);
        const tm = ExifTime.fromDateTime(dt, raw);
        if (!valid) return void u.eq([d, tm, ctx.lib.ExifDateTime.fromDateTime(dt)], [undefined, undefined, undefined], "fromDateTime of an invalid date");
        u.eq([u.pick(d, ["year", "month", "day"]), d.rawValue], [u.pick(f, ["year", "month", "day"]), raw], "ExifDate.fromDateTime");
        u.eq([u.pick(tm, ["hour", "minute", "second", "millisecond"]), tm.rawValue], [{ ...u.pick(f, ["hour", "minute", "second"]), millisecond: ms }, raw], "ExifTime.fromDateTime");
      },
    });

    await ctx.prop("date-numeric-year", {
      runs: [2000, 20000],
      arb: fc.oneof(fc.integer({ min: 1, max: 9999 }), fc.constantFrom(0, -1, 10000, 12.5, NaN)),
      check(y, t) {
        t.nontrivial();
        const e = ExifDate.from(y);
        if (Number.isInteger(y) && y >= 1 && y <= 9999) verify(e, { year: y }, "year", undefined, `ExifDate.from(${y})`);
        else u.eq(e, undefined, `ExifDate.from(${y})`);
      },
    });

    await ctx.prop("date-impossible", {
      runs: [6000, 100000],
      arb: fc.record({ f: g.ymd, bad: fc.constantFrom("month13", "month0", "day0", "dayover"), layout: fc.constantFrom("y:MM:dd", "y-MM-dd", "y:M:d", "y:MM", "y-MM") }),
      check({ f, bad, layout }, t) {
        const kind = kindOf(layout);
        const b = { ...f };
        if (bad === "month13" || (kind !== "full" && bad === "dayover")) b.month = 13;
        else if (bad === "month0" || (kind !== "full" && bad === "day0")) b.month = 0;
        else if (bad === "day0") b.day = 0;
        else b.day = g.daysIn(f.year, f.month) + 1;
        t.nontrivial();
        t.label(bad);
        const s = LAYOUTS[layout](b);
        u.eq(ExifDate.from(s), undefined, `impossible date ${JSON.stringify(s)}`);
      },
    });

    // An independent reader: what a date found in this text can only be.
    const readDate = (text) => {
      const s = text.trim();
      let m;
      if ((m = /^[+]?(\d+)([:-])(\d{1,2})\2(\d{1,2})$/.exec(s))) return [+m[1], +m[3], +m[4]];
      if ((m = /^(\d+)[:-](\d{1,2})$/.exec(s))) return [+m[1], +m[2], undefined];
      if ((m = /^(\d{1,4})$/.exec(s))) return [+m[1], undefined, undefined];
      if ((m = /^(\S+)\s+(\d{1,2})\s+(\d+)$/.exec(s))) {
        const w = m[1].toLowerCase();
        const i = MON.findIndex((x) => x.toLowerCase() === w || x.toLowerCase().slice(0, 3) === w);
        if (i >= 0) return [+m[3], i + 1, +m[2]];
      }
      return undefined;
    };
    await ctx.prop("date-arbitrary-text", {
      runs: [40000, 600000],
      arb: fc.oneof(
        fc.tuple(g.hms, fc.constantFrom("", "Z", ".5", "+02:00", " ", "-05:00"), fc.constantFrom("", "T", " ")).map(([f, z, p]) => `${p}${p2(f.hour)}:${p2(f.minute)}:${p2(f.second)}${z}`),
        fc.tuple(g.ymd, fc.constantFrom(...Object.keys(LAYOUTS)), fc.string({ unit: fc.constantFrom(..."0123456789:-+ /TZW.,\n\tQaJan日"), maxLength: 6 }), fc.nat(14), fc.nat(3)).map(([f, l, x, i, d]) => {
          const s = LAYOUTS[l](f);
          return s.slice(0, i) + x + s.slice(i + d);
        }),
        fc.string({ unit: fc.constantFrom(..."0123456789:- /TZ"), maxLength: 14 }),
        fc.string({ unit: "grapheme", maxLength: 20 }),
        fc.tuple(g.ymd, fc.constantFrom(...Object.keys(LAYOUTS)), fc.string({ maxLength: 3 }), fc.nat(10)).map(([f, l, x, i]) => {
          const s = LAYOUTS[l](f);
          return s.slice(0, i) + x + s.slice(i);
        }),
      ),
      check(s, t) {
        for (const api of ["from", "fromEXIF", "fromISO", "fromExifStrict", "fromExifLoose", "fromYearMonth", "fromYear"]) {
          const e = ExifDate[api](s);
          if (e == null) continue;
          t.nontrivial();
          u.ok(e.month == null || (e.month >= 1 && e.month <= 12), `${api}(${JSON.stringify(s)}) month in range: ${e.month}`);
          u.ok(e.day == null || (e.month != null && e.day >= 1 && e.day <= g.daysIn(e.year, e.month)), `${api}(${JSON.stringify(s)}) day exists: ${e.day}`);
          u.eq([e.year, e.month, e.day], readDate(s), `${api}(${JSON.stringify(s)}) is the date in the text`);
          const e2 = ExifDate.from(e.toExifString());
          if (e.year >= 1 && e.year <= 9999) {
            u.ok(e2 != null, () => `${api}(${JSON.stringify(s)}) renders as unparseable ${e.toExifString()}`);
            u.eq(u.pick(e2, ["year", "month", "day"]), u.pick(e, ["year", "month", "day"]), `${api}(${JSON.stringify(s)}) re-parsed`);
          }
        }
      },
    });

    const time = fc.record({
      f: g.hms,
      frac: g.fraction,
      seconds: fc.boolean(),
      zone: fc.oneof({ weight: 1, arbitrary: fc.constant(null) }, { weight: 2, arbitrary: fc.record({ o: g.offsetMin, style: fc.constantFrom(...g.OFFSET_STYLES) }) }),
      ws: fc.constantFrom("", "", " ", "\n"),
    });
    const writeTime = ({ f, frac, seconds, zone, ws }) => {
      const hasSec = seconds || frac != null;
      return {
        s: ws + `${p2(f.hour)}:${p2(f.minute)}` + (hasSec ? `:${p2(f.second)}` : "") + (frac != null ? "." + frac : "") + (zone ? g.writeOffset(zone.o, zone.style) : "") + ws,
        exp: { hour: f.hour, minute: f.minute, second: hasSec ? f.second : 0, millisecond: g.fracMs(frac) },
      };
    };
    const TF = ["hour", "minute", "second", "millisecond"];
    const render = (f, zone) => {
      const off = zone == null ? "" : g.offStr(zone);
      return `${p2(f.hour)}:${p2(f.minute)}:${p2(f.second)}` + (f.millisecond == null ? "" : "." + g.pad(f.millisecond, 3)) + off;
    };

    await ctx.prop("time-parse-render", {
      runs: [20000, 400000],
      arb: fc.record({ c: time, def: fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: g.offsetMin }) }),
      check({ c, def }, t) {
        t.nontrivial(c.zone != null || c.frac != null || def != null);
        const { s, exp } = writeTime(c);
        const e = ExifTime.fromEXIF(s, def == null ? undefined : g.zoneName(def));
        u.ok(e instanceof ExifTime, () => `ExifTime.fromEXIF(${JSON.stringify(s)}) did not parse`);
        u.eq(u.pick(e, TF), exp, `ExifTime.fromEXIF(${JSON.stringify(s)})`);
        const zone = c.zone ? c.zone.o : def;
        u.eq([e.hasZone, e.zone], [zone != null, zone == null ? undefined : g.zoneName(zone)], `zone of ${JSON.stringify(s)}`);
        u.eq(e.rawValue, s, "rawValue");
        u.eq(e.inferredZone === true, c.zone == null && def != null, `inferredZone of ${JSON.stringify(s)}`);
        const r = render(exp, zone);
        u.eq([e.toString(), e.toISOString(), e.toExifString()], [r, r, r], `rendering of ${JSON.stringify(s)}`);
        const e2 = ExifTime.fromEXIF(r);
        u.eq([u.pick(e2, TF), e2.zone], [exp, e.zone], `re-parsed ${r}`);
        const e3 = ExifTime.fromJSON(JSON.parse(JSON.stringify(e)));
        u.eq([u.pick(e3, TF), e3.zone, e3.rawValue, e3.inferredZone], [exp, e.zone, e.rawValue, e.inferredZone], "JSON copy");
      },
    });

    await ctx.prop("time-setZone", {
      runs: [8000, 150000],
      arb: fc.record({ c: time, to: g.offsetMin }),
      check({ c, to }, t) {
        t.nontrivial(c.zone == null || c.zone.o !== to);
        const { s, exp } = writeTime(c);
        const e = ExifTime.fromEXIF(s);
        const r = e.setZone(g.zoneName(to));
        u.ok(r instanceof ExifTime, () => `setZone on ${JSON.stringify(s)} failed`);
        const shift = c.zone == null ? 0 : to - c.zone.o;
        const mins = (((exp.hour * 60 + exp.minute + shift) % 1440) + 1440) % 1440;
        u.eq(u.pick(r, TF), { ...exp, hour: Math.floor(mins / 60), minute: mins % 60 }, `${JSON.stringify(s)}.setZone(${g.zoneName(to)}) fields`);
        u.eq(r.zone, g.zoneName(to), `${JSON.stringify(s)}.setZone(${g.zoneName(to)}) zone`);
        u.eq(r.toString(), render(u.pick(r, TF), to), "rendering after setZone");
      },
    });

    // The result never depends on the day it is parsed on: today may be a DST change.
    const luxon = require(require.resolve("luxon", { paths: [ctx.entry] }));
    const DST = ["America/New_York", "Europe/London", "Australia/Lord_Howe", "America/Sao_Paulo", process.env.TZ];
    const days = Object.fromEntries(DST.map((z) => [z, (() => { const r = g.transitions(luxon.DateTime, z, 2010, 2024); return [...r.gaps, ...r.overlaps].map((x) => x.start); })()]));
    await ctx.prop("time-on-any-day", {
      runs: [8000, 100000],
      arb: fc.record({ c: time, z: fc.constantFrom(...DST), day: fc.nat(99), at: fc.integer({ min: -90, max: 90 }), now: fc.integer({ min: -12 * 60, max: 20 * 60 }), keep: fc.constantFrom(undefined, true), to: fc.oneof(fc.constantFrom(...DST), g.offsetMin.map(g.zoneName)) }),
      check({ c, z, day, at, now, keep, to }, t) {
        const list = days[z];
        if (list.length === 0) return;
        const start = list[day % list.length];
        const w = g.wallFields(start + at * 60000);
        const cc = { ...c, f: { hour: w.hour, minute: w.minute, second: w.second } };
        const { s, exp } = writeTime({ ...cc, zone: c.zone });
        luxon.Settings.now = () => start + now * 60000;
        t.nontrivial();
        try {
          const e = ExifTime.fromEXIF(s, z);
          u.eq(u.pick(e, TF), exp, `ExifTime.fromEXIF(${JSON.stringify(s)}, ${z}) on ${new Date(start).toISOString()}`);
          u.eq(e.zone, c.zone ? g.zoneName(c.zone.o) : z === "UTC" ? "UTC" : z, "zone");
          const plain = ExifTime.fromEXIF(s);
          u.eq(u.pick(plain, TF), exp, `ExifTime.fromEXIF(${JSON.stringify(s)}) on ${new Date(start).toISOString()}`);
          if (c.zone == null || keep) {
            const r = plain.setZone(to, keep === undefined ? undefined : { keepLocalTime: keep });
            u.eq([u.pick(r, TF), r.zone], [exp, to], `ExifTime ${JSON.stringify(s)} setZone(${to}) on ${new Date(start).toISOString()}`);
          }
        } finally {
          luxon.Settings.now = () => Date.now();
        }
      },
    });

    await ctx.prop("time-arbitrary-text", {
      runs: [30000, 400000],
      arb: fc.oneof(
        fc.string({ unit: fc.constantFrom(..."0123456789:-+.Z "), maxLength: 16 }),
        fc.tuple(time, fc.string({ unit: fc.constantFrom(..."0123456789:-+ /TZ.,a"), maxLength: 4 }), fc.nat(14), fc.nat(3)).map(([c, x, i, d]) => {
          const { s } = writeTime(c);
          return s.slice(0, i) + x + s.slice(i + d);
        }),
        fc.string({ unit: "grapheme", maxLength: 20 }),
        fc.tuple(time, fc.string({ maxLength: 3 }), fc.nat(14)).map(([c, x, i]) => {
          const { s } = writeTime(c);
          return s.slice(0, i) + x + s.slice(i);
        }),
      ),
      check(s, t) {
        const e = ExifTime.fromEXIF(s);
        if (e == null) return;
        t.nontrivial();
        u.ok(e.hour >= 0 && e.hour <= 23 && e.minute >= 0 && e.minute <= 59 && e.second >= 0 && e.second <= 59, `fromEXIF(${JSON.stringify(s)}) in range`);
        u.ok(!/-00?:01$/.test(e.toString()) && e.zone !== "UTC-0:01", `fromEXIF(${JSON.stringify(s)}) leaks the unset-zone sentinel`);
        const m = /^\s*(\d\d):(\d\d)(?::(\d\d)(?:\.(\d+))?)?(?![\d:.])/.exec(s);
        u.ok(m != null, () => `fromEXIF(${JSON.stringify(s)}) found a time where there is none`);
        if (m[1] === "24") return; // (ISO 8601: the end of the day)
        u.eq([e.hour, e.minute, e.second], [+m[1], +m[2], +(m[3] ?? 0)], `fromEXIF(${JSON.stringify(s)}) is the time in the text`);
        const e2 = ExifTime.fromEXIF(e.toString());
        u.ok(e2 != null, () => `fromEXIF(${JSON.stringify(s)}) renders as unparseable ${e.toString()}`);
        u.eq([u.pick(e2, TF), e2.zone], [u.pick(e, TF), e.zone], `fromEXIF(${JSON.stringify(s)}) re-parsed`);
      },
    });
  },
};
