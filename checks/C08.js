"use strict";
const g = require("../lib/gens");
const { fc } = g;

const FIELDS = ["year", "month", "day", "hour", "minute", "second"];
const TZS = ["UTC", "America/New_York", "Pacific/Auckland", "Europe/London", "Asia/Kathmandu", "America/Sao_Paulo", "Australia/Lord_Howe", "UTC"];

module.exports = {
  id: "C08",
  level: "exploration",
  quickScale: 2,
  shardEnvs: () => TZS.map((TZ) => ({ TZ })),
  rule:
    "Timestamps are generated as (valid calendar fields, fraction digits, zone, textual style) and written out as text by the harness; the oracle is the generated tuple and integer UTC arithmetic. Non-trivial: the case carries an explicit or default zone, a fraction, a month-end/leap day, or a system-zone DST-gap time. Shards run under different system time zones.",
  assumptions: ["luxon decides which wall-clock times exist in an IANA zone", "fractions beyond milliseconds are truncated"],
  async run(ctx) {
    const { ExifDateTime } = ctx.lib;
    const { DateTime } = require(require.resolve("luxon", { paths: [ctx.entry] }));
    const u = ctx.u;

    const near = g.nearTransition(DateTime, process.env.TZ);
    // (years 0 and 1 are exiftool's way of saying "not set")
    const ancient = fc.tuple(g.dt, fc.oneof(fc.integer({ min: 2, max: 99 }), fc.integer({ min: 100, max: 999 }))).map(([f, year]) => ({ ...f, year, day: Math.min(f.day, 28) }));
    const text = fc.record({
      f: fc.oneof({ weight: 6, arbitrary: g.dt }, { weight: 2, arbitrary: near }, { weight: 1, arbitrary: ancient }),
      frac: g.fraction,
      seconds: fc.boolean(),
      layout: fc.constantFrom("exif", "exif-unpadded", "iso-T", "iso-space", "iso-unpadded"),
      zone: fc.oneof(
        { weight: 1, arbitrary: fc.constant(null) },
        { weight: 2, arbitrary: fc.record({ o: g.offsetMin, style: fc.constantFrom(...g.OFFSET_STYLES) }) },
      ),
      ws: fc.constantFrom("", "", " ", "\t", "\n"),
    });
    // Builds the text and the fields it denotes.
    const build = ({ f, frac, seconds, layout, zone, ws }) => {
      const p2 = (n) => g.pad(n, 2);
      const date = {
        exif: `${g.pad(f.year, 4)}:${p2(f.month)}:${p2(f.day)} `,
        "exif-unpadded": `${f.year}:${f.month}:${f.day} `,
        "iso-T": `${g.pad(f.year, 4)}-${p2(f.month)}-${p2(f.day)}T`,
        "iso-space": `${g.pad(f.year, 4)}-${p2(f.month)}-${p2(f.day)} `,
        "iso-unpadded": `${f.year}-${f.month}-${f.day} `,
      }[layout];
      const hasSec = seconds || frac != null;
      const time = `${p2(f.hour)}:${p2(f.minute)}` + (hasSec ? `:${p2(f.second)}` : "") + (frac != null ? "." + frac : "");
      const exp = { ...f, second: hasSec ? f.second : 0, millisecond: g.fracMs(frac) };
      return { s: ws + date + time + (zone ? g.writeOffset(zone.o, zone.style) : "") + ws, exp };
    };
    const note = (t, c) => {
      t.nontrivial(c.zone != null || c.frac != null || c.f.day >= 28);
      t.label("layout:" + c.layout);
      if (c.zone) t.label("offset-style:" + c.zone.style);
      if (c.frac != null) t.label("fraction-digits:" + c.frac.length);
    };
    const sameFields = (edt, exp, what) => {
      u.eq(u.pick(edt, FIELDS), u.pick(exp, FIELDS), what + " wall-clock fields");
      u.eq(edt.millisecond, exp.millisecond, what + " millisecond");
    };

    await ctx.prop("parse", {
      runs: [24000, 600000],
      arb: fc.record({ c: text, api: fc.constantFrom("from", "fromEXIF", "fromExifStrict", "fromISO"), defZone: fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constantFrom("UTC", "UTC+5:30", "UTC-8", "Asia/Tokyo") }) }),
      check({ c, api, defZone }, t) {
        if (api === "fromISO" && c.layout.startsWith("exif")) c = { ...c, layout: "iso-T" };
        note(t, c);
        const { s, exp } = build(c);
        const e = ExifDateTime[api](s, defZone);
        u.ok(e instanceof ExifDateTime, () => `${api}(${JSON.stringify(s)}) did not parse`);
        sameFields(e, exp, `${api}(${JSON.stringify(s)})`);
        u.eq(e.rawValue, s, "rawValue keeps the source text");
        if (c.zone != null) {
          u.eq(e.hasZone, true, "hasZone for text with an offset");
          u.eq(e.tzoffsetMinutes, c.zone.o, `offset of ${JSON.stringify(s)}`);
          u.eq(e.zone, g.zoneName(c.zone.o), `zone of ${JSON.stringify(s)}`);
          u.eq(e.inferredZone, false, "a zone in the text is not inferred");
          u.eq(e.toMillis(), g.instant(exp, c.zone.o), `instant of ${JSON.stringify(s)}`);
        } else if (defZone != null) {
          u.eq(e.zone, defZone, `default zone for ${JSON.stringify(s)}`);
          u.eq(e.inferredZone, true, "a default zone is inferred");
        } else {
          u.eq([e.hasZone, e.zone, e.tzoffsetMinutes, e.zoneName], [false, undefined, undefined, undefined], `no zone in ${JSON.stringify(s)}`);
          u.ok(e.inferredZone !== true, "no zone was inferred");
        }
        u.eq(e.isValid, true, "isValid");
      },
    });

    await ctx.prop("iana-default-zone", {
      runs: [8000, 200000],
      arb: fc.record({ c: text, z: g.iana }),
      check({ c, z }, t) {
        c = { ...c, zone: null };
        const { s, exp } = build(c);
        const ref = DateTime.fromObject(u.pick(exp, FIELDS), { zone: z });
        const exists = FIELDS.every((k) => ref[k] === exp[k]);
        if (!exists) return t.label("wall clock does not exist in zone (skipped)");
        t.nontrivial();
        const e = ExifDateTime.from(s, z);
        u.ok(e instanceof ExifDateTime, () => `from(${JSON.stringify(s)}, ${z}) did not parse`);
        sameFields(e, exp, `from(${JSON.stringify(s)}, ${z})`);
        u.eq(e.zone, z, "zone");
        u.eq(e.inferredZone, true, "inferredZone");
        // The offset must be one under which this wall clock really reads so.
        const local = DateTime.fromMillis(e.toMillis(), { zone: z });
        u.eq(u.pick(local, FIELDS), u.pick(exp, FIELDS), "instant reads back as the same wall clock in " + z);
        u.eq(local.offset, e.tzoffsetMinutes, "offset in effect at that instant");
      },
    });

    await ctx.prop("render-parse-roundtrip", {
      runs: [24000, 600000],
      arb: fc.record({ c: text, z: fc.oneof({ weight: 3, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: g.iana }) }),
      check({ c, z }, t) {
        const { s, exp } = build(c);
        const e = ExifDateTime.from(s, z);
        u.ok(e instanceof ExifDateTime, () => `${JSON.stringify(s)} did not parse`);
        t.nontrivial(c.zone != null || z != null || c.frac != null || e.toDate().getHours() !== e.hour);
        if (e.hasZone && !g.OFFSETS.includes(e.tzoffsetMinutes)) return t.label("historic IANA offset outside the recognised set (skipped)");
        if (!e.hasZone && DateTime.fromObject(exp).hour !== exp.hour) t.label("zoneless time inside the system zone's DST gap");
        for (const render of ["toExifString", "toISOString", "toString"]) {
          const r = e[render]();
          const re = render === "toExifString"
            ? /^\d{1,6}:\d\d:\d\d \d\d:\d\d:\d\d(\.\d{3})?([+-]\d\d:\d\d)?$/
            : /^\d{4,6}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{3})?(Z|[+-]\d\d:\d\d)?$/;
          const m = re.exec(r);
          u.ok(m != null, () => `${render} of ${JSON.stringify(s)} gave malformed ${JSON.stringify(r)}`);
          u.eq(m[2] != null, e.hasZone, `${render} of ${JSON.stringify(s)} (${r}) has an offset iff the value has a zone`);
          u.eq(m[1] != null, e.millisecond != null, `${render} of ${JSON.stringify(s)} (${r}) has milliseconds iff the value does`);
          const e2 = ExifDateTime.from(r);
          u.ok(e2 instanceof ExifDateTime, () => `${render} output ${JSON.stringify(r)} did not parse`);
          sameFields(e2, e, `${JSON.stringify(s)} -> ${render} ${JSON.stringify(r)}`);
          u.eq(e2.tzoffsetMinutes, e.tzoffsetMinutes, "offset after " + render);
          u.eq(e2.hasZone, e.hasZone, "hasZone after " + render);
          if (e.hasZone) u.eq(e2.toMillis(), e.toMillis(), "instant after " + render);
        }
        // options of toISOString
        u.eq(e.toISOString({ includeOffset: false }), e.toISOString().replace(/(Z|[+-]\d\d:\d\d)$/, ""), "includeOffset:false");
        const noMs = e.toISOString({ suppressMilliseconds: true });
        if (!e.millisecond) u.ok(!noMs.includes("."), "suppressMilliseconds");
      },
    });

    await ctx.prop("millis-roundtrip", {
      runs: [12000, 300000],
      arb: fc.record({
        ms: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: -2208988800000, max: 4102444800000 }) }, { weight: 1, arbitrary: fc.integer({ min: -30000000000000, max: 200000000000000 }) }),
        z: fc.oneof(fc.constant("UTC"), g.iana, g.offsetMin.map(g.zoneName)),
        raw: fc.option(fc.string(), { nil: undefined }),
      }),
      check({ ms, z, raw }, t) {
        t.nontrivial(z !== "UTC" || ms < 0);
        const e = ExifDateTime.fromMillis(ms, { zone: z, rawValue: raw });
        const ref = DateTime.fromMillis(ms, { zone: z });
        u.eq(u.pick(e, [...FIELDS, "millisecond"]), u.pick(ref, [...FIELDS, "millisecond"]), `fromMillis(${ms}, ${z}) fields`);
        u.eq(e.zone, ref.zoneName, "zone");
        u.eq(e.rawValue, raw, "rawValue");
        // ambiguous (fall-back) wall clocks may denote either instant, and archaic sub-minute offsets round
        const back = e.toMillis();
        const same = back === ms || DateTime.fromMillis(back, { zone: z }).toFormat("y-MM-dd HH:mm:ss.SSS") === ref.toFormat("y-MM-dd HH:mm:ss.SSS");
        u.ok(same, () => `toMillis of fromMillis(${ms}, ${z}) gave ${back}`);
        if (z.startsWith("UTC")) {
          u.eq(back, ms, `toMillis of fromMillis(${ms}, ${z})`);
          u.eq(e.toDate().getTime(), ms, "toDate");
          u.eq(e.toEpochSeconds(), Math.floor(ms / 1000), "toEpochSeconds");
        }
      },
    });

    const MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    const DOW = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
    const TZA = { PST: -480, PDT: -420, EST: -300, EDT: -240, CEST: 120, JST: 540, NZDT: 780, IRST: 210, GMT: 0 };
    await ctx.prop("loose-formats", {
      runs: [6000, 120000],
      arb: fc.record({ f: g.dt, k: fc.nat(6), tza: fc.option(fc.constantFrom(...Object.keys(TZA)), { nil: undefined }) }),
      check({ f, k, tza }, t) {
        t.nontrivial();
        t.label("loose-format:" + k);
        const p2 = (n) => g.pad(n, 2);
        const d = new Date(0);
        d.setUTCFullYear(f.year, f.month - 1, f.day);
        const wd = DOW[d.getUTCDay()];
        const hms = `${p2(f.hour)}:${p2(f.minute)}:${p2(f.second)}`;
        const h12 = `${f.hour % 12 || 12}:${p2(f.minute)}:${p2(f.second)} ${f.hour < 12 ? "AM" : "PM"}`;
        const mon = MON[f.month - 1];
        const base = [
          `${mon} ${f.day} ${f.year} ${hms}`,
          `${mon} ${f.day} ${f.year}, ${hms}`,
          `${wd} ${mon} ${f.day} ${hms} ${f.year}`,
          `${wd} ${f.day} ${mon} ${f.year} ${h12}`,
          `${wd} ${f.day} ${mon} ${f.year} ${hms}`,
          `${f.day} ${mon} ${f.year} ${h12}`,
          `${f.day} ${mon} ${f.year} ${hms}`,
        ][k];
        // AM/PM without an abbreviation after it is indistinguishable from one
        const useTza = k === 3 || k === 5 ? (tza ?? "PST") : tza;
        const s = base + (useTza ? " " + useTza : "");
        const e = ExifDateTime.from(s);
        u.ok(e instanceof ExifDateTime, () => `${JSON.stringify(s)} did not parse`);
        u.eq(u.pick(e, FIELDS), f, `${JSON.stringify(s)} fields`);
        u.eq(e.tzoffsetMinutes, useTza ? TZA[useTza] : undefined, `${JSON.stringify(s)} offset`);
        u.eq(e.hasZone, useTza != null, "hasZone");
      },
    });

    const noise = fc.oneof(
      fc.string({ unit: fc.constantFrom(..."0123456789:-+ TZ./,", "U", "C", "a", "p", "m", "\u2212", "\n") , maxLength: 40 }),
      fc.string({ unit: "grapheme", maxLength: 30 }),
      fc.tuple(text, fc.string({ maxLength: 4 }), fc.nat(30)).map(([c, x, i]) => {
        const { s } = build(c);
        return s.slice(0, i) + x + s.slice(i);
      }),
      fc.tuple(text, fc.string({ unit: fc.constantFrom(..."0123456789:-+ /TZ.,a"), maxLength: 4 }), fc.nat(30), fc.nat(4)).map(([c, x, i, d]) => {
        const { s } = build(c);
        return s.slice(0, i) + x + s.slice(i + d);
      }),
    );
    // An independent reader: what a date-time found in this text can only be.
    const supported = (s, e) => {
      const m = /^\s*(\d+)([:-])(\d{1,2})\2(\d{1,2})[T ](\d\d):(\d\d)(?::(\d\d)(?:\.(\d+))?)?(?![\d:.])/.exec(s);
      const got = u.pick(e, ["year", "month", "day", "hour", "minute", "second"]);
      if (m?.[5] === "24") return; // (ISO 8601: the end of that day)
      if (m) return u.eq(Object.values(got), [+m[1], +m[3], +m[4], +m[5], +m[6], +(m[7] ?? 0)], `the date-time in ${JSON.stringify(s)}`);
      const nums = (s.match(/\d+/g) ?? []).map(Number);
      const mon = MON.findIndex((x) => s.toLowerCase().includes(x.toLowerCase()));
      u.ok(mon >= 0, () => `a date-time was found in ${JSON.stringify(s)}: ${u.show(got)}`);
      u.ok(MON.some((x, i) => i + 1 === e.month && s.toLowerCase().includes(x.toLowerCase())), () => `month of ${JSON.stringify(s)}: ${u.show(got)}`);
      for (const k of ["year", "day", "minute", "second"]) u.ok(nums.includes(e[k]), () => `${k} of ${JSON.stringify(s)}: ${u.show(got)}`);
      u.ok(nums.includes(e.hour) || nums.includes(e.hour % 12 || 12), () => `hour of ${JSON.stringify(s)}: ${u.show(got)}`);
    };
    await ctx.prop("arbitrary-text", {
      runs: [30000, 600000],
      arb: fc.record({ s: noise, z: fc.oneof(fc.constant(undefined), fc.constantFrom("UTC", "Asia/Tokyo", "", "bogus/zone")) }),
      check({ s, z }, t) {
        for (const api of ["from", "fromEXIF", "fromISO", "fromExifStrict", "fromExifLoose"]) {
          const e = ExifDateTime[api](s, z);
          if (e == null) continue;
          t.nontrivial();
          supported(s, e);
          u.eq(e.isValid, true, `${api}(${JSON.stringify(s)}) is a real date-time`);
          u.ok(e.month >= 1 && e.month <= 12 && e.day >= 1 && e.day <= g.daysIn(e.year, e.month), `${api}(${JSON.stringify(s)}) day exists`);
          u.ok(e.tzoffsetMinutes !== -1 && !/UTC-0:01/.test(String(e.zoneName) + e.zone + e.toISOString()), `${api}(${JSON.stringify(s)}) leaks the unset-zone sentinel`);
          u.eq(e.hasZone, e.tzoffsetMinutes != null, `${api}(${JSON.stringify(s)}) offset iff zone`);
          if (e.hasZone && !g.OFFSETS.includes(e.tzoffsetMinutes)) continue; // historic local mean time
          const e2 = ExifDateTime.from(e.toExifString());
          u.ok(e2 != null, () => `${api}(${JSON.stringify(s)}) renders as unparseable ${e.toExifString()}`);
          if (e.hasZone) u.eq(e2.toMillis(), e.toMillis(), `${api}(${JSON.stringify(s)}) instant after re-parse`);
          u.eq(u.pick(e2, FIELDS), u.pick(e, FIELDS), `${api}(${JSON.stringify(s)}) fields after re-parse of ${e.toExifString()}`);
        }
      },
    });

    await ctx.prop("impossible-dates", {
      runs: [6000, 100000],
      arb: fc.record({ f: g.dt, bad: fc.constantFrom("month13", "month0", "day0", "day32", "feb30", "minute60", "second61", "hour25", "year0"), iso: fc.boolean(), z: fc.constantFrom("", "Z", "+02:00") }),
      check({ f, bad, iso, z }, t) {
        t.nontrivial();
        t.label(bad);
        const b = { ...f };
        if (bad === "month13") b.month = 13;
        if (bad === "month0") b.month = 0;
        if (bad === "day0") b.day = 0;
        if (bad === "day32") b.day = g.daysIn(f.year, f.month) + 1;
        if (bad === "feb30") (b.month = 2), (b.day = g.daysIn(f.year, 2) + 1);
        if (bad === "minute60") b.minute = 60;
        if (bad === "second61") b.second = 61;
        if (bad === "hour25") b.hour = 25;
        if (bad === "year0") b.year = 0;
        const p2 = (n) => g.pad(n, 2);
        const s = iso
          ? `${g.pad(b.year, 4)}-${p2(b.month)}-${p2(b.day)}T${p2(b.hour)}:${p2(b.minute)}:${p2(b.second)}${z}`
          : `${g.pad(b.year, 4)}:${p2(b.month)}:${p2(b.day)} ${p2(b.hour)}:${p2(b.minute)}:${p2(b.second)}${z}`;
        u.eq(ExifDateTime.from(s), undefined, `impossible ${JSON.stringify(s)}`);
      },
    });
  },
};
