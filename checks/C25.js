"use strict";
const g = require("../lib/gens");
const meta = require("../lib/meta");
const { fc } = g;
const HOSTS = ["UTC", "America/New_York", "America/Sao_Paulo", "Asia/Kathmandu", "Pacific/Apia", "Pacific/Kiritimati", "Australia/Lord_Howe", "Europe/Dublin", "Africa/Casablanca", "Asia/Beirut", "America/St_Johns", "Pacific/Pago_Pago"];

module.exports = {
  id: "C25",
  level: "exploration",
  quickScale: 2,
  shards: 8,
  technique: "differential property-based testing: the same generated input evaluated under two host time zones",
  rule:
    "Each case evaluates the same text or the same metadata under two different host time zones (process.env.TZ switched at run time, luxon caches reset) and requires identical results: fields, zones, offsets, renderings, and instants of everything that has a zone. Texts are biased to the DST changes and skipped days of one of the two zones. Non-trivial: the text parses, or the metadata holds a date.",
  assumptions: ["toMillis()/toDate() of values without a zone use the host zone by documentation and are not compared"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    const luxon = require(require.resolve("luxon", { paths: [ctx.entry] }));
    const { DateTime, Settings: LS } = luxon;
    const original = process.env.TZ;
    const host = (tz) => {
      process.env.TZ = tz;
      new Date().getTimezoneOffset();
      LS.resetCaches();
      LS.defaultZone = "system";
    };
    const under = async (tz, f) => {
      host(tz);
      try {
        return await f();
      } finally {
        if (original === undefined) delete process.env.TZ;
        else process.env.TZ = original;
        LS.resetCaches();
      }
    };
    // the switch really happens
    const probe = await under("Asia/Kathmandu", () => [new Date(0).getTimezoneOffset(), DateTime.fromMillis(0).offset, DateTime.local(2020, 1, 1).offset]);
    if (probe[0] !== -330 || probe[2] !== 345) throw new Error("cannot switch the host zone: " + probe);
    const near = Object.fromEntries(HOSTS.map((z) => [z, g.nearTransition(DateTime, z)]));
    const view = (v) => {
      if (v instanceof L.ExifDateTime) return { t: "dt", j: JSON.stringify(v), iso: v.toISOString(), exif: v.toExifString(), s: String(v), zone: v.zone, valid: v.isValid, ms: v.hasZone ? v.toMillis() : undefined, epochUTC: v.toEpochSeconds("UTC"), plus: v.plus({ hours: 1 })?.toExifString(), back: v.plus({ days: 1 })?.toISOString(), setUTC: v.setZone("UTC")?.toISOString(), setNY: v.setZone("America/New_York")?.toISOString() };
      if (v instanceof L.ExifDate) return { t: "d", j: JSON.stringify(v), iso: v.toISOString(), exif: v.toExifString() };
      if (v instanceof L.ExifTime) return { t: "t", j: JSON.stringify(v), iso: v.toISOString(), exif: v.toExifString(), zone: v.zone, set: v.setZone("UTC+3")?.toISOString() };
      if (Array.isArray(v)) return v.map(view);
      if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, view(x)]));
      return v;
    };
    const pair = fc.tuple(fc.constantFrom(...HOSTS), fc.constantFrom(...HOSTS)).filter(([a, b]) => a !== b);
    const fieldsFor = ([a, b]) => fc.oneof({ weight: 2, arbitrary: near[a] }, { weight: 2, arbitrary: near[b] }, { weight: 2, arbitrary: g.dt }, { weight: 1, arbitrary: fc.constantFrom({ year: 2011, month: 12, day: 30, hour: 12, minute: 0, second: 0 }, { year: 1994, month: 12, day: 31, hour: 0, minute: 0, second: 0 }) });
    const MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    const layouts = {
      exif: (f, fr, z) => `${meta.dateText(f)} ${meta.timeText(f)}${fr}${z}`,
      iso: (f, fr, z) => `${meta.dateText(f).replace(/:/g, "-")}T${meta.timeText(f)}${fr}${z}`,
      hm: (f, fr, z) => `${meta.dateText(f)} ${meta.timeText(f).slice(0, 5)}${z}`,
      loose: (f) => `${MON[f.month - 1]} ${f.day} ${f.year} ${meta.timeText(f)}`,
      date: (f) => meta.dateText(f),
      ym: (f) => meta.dateText(f).slice(0, 7),
      y: (f) => String(f.year),
      time: (f, fr, z) => meta.timeText(f) + fr + z,
    };
    const text = pair.chain((p) => fc.record({ p: fc.constant(p), f: fieldsFor(p), l: fc.constantFrom(...Object.keys(layouts)), fr: fc.constantFrom("", "", ".5", ".123"), z: fc.oneof({ weight: 3, arbitrary: fc.constant("") }, { weight: 2, arbitrary: g.offsetMin.map((o) => g.offStr(o)) }, { weight: 1, arbitrary: fc.constantFrom("Z", " PST", "+99:00") }), def: fc.oneof({ weight: 3, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: g.offsetMin.map(g.zoneName) }, { weight: 1, arbitrary: g.iana }) }));
    const all = (s, def) => ({
      dt: view(L.ExifDateTime.from(s, def)),
      iso: view(L.ExifDateTime.fromISO(s, def)),
      strict: view(L.ExifDateTime.fromExifStrict(s, def)),
      loose: view(L.ExifDateTime.fromExifLoose(s, def)),
      d: view(L.ExifDate.from(s)),
      t: view(L.ExifTime.fromEXIF(s, def)),
      z: L.extractZone(s),
      nz: L.normalizeZone(s)?.name,
    });
    await ctx.prop("texts", {
      runs: [8000, 120000],
      arb: text,
      async check({ p: [a, b], f, l, fr, z, def }, t) {
        const s = layouts[l](f, fr, z);
        const ra = await under(a, () => all(s, def));
        const rb = await under(b, () => all(s, def));
        t.nontrivial(!!(ra.dt || ra.d || ra.t));
        t.label(l);
        u.eq(ra, rb, `${JSON.stringify(s)} (default zone ${def}) under ${a} and ${b}`);
      },
    });
    await ctx.prop("zone-texts", {
      runs: [4000, 60000],
      arb: fc.record({ p: pair, s: fc.oneof(fc.constantFrom("local", "system", "default", "Local", "UTC", "", "Zulu", "EST", "LOCAL", "utc+3"), g.offsetMin.map((o) => g.offStr(o)), fc.string({ maxLength: 12 })) }),
      async check({ p: [a, b], s }, t) {
        const f = () => [L.normalizeZone(s)?.name, L.normalizeZone(s)?.offset(1e12), L.extractZone(s), L.zoneToShortOffset(s, 1e12), L.isUTC(s)];
        t.nontrivial(/[a-z]/i.test(s));
        u.eq(await under(a, f), await under(b, f), `zone text ${JSON.stringify(s)} under ${a} and ${b}`);
      },
    });
    await ctx.prop("json", {
      runs: [2000, 30000],
      arb: text,
      async check({ p: [a, b], f, l, fr, z, def }, t) {
        const s = layouts[l](f, fr, z);
        const parse = () => L.ExifDateTime.from(s, def) ?? L.ExifDate.from(s) ?? L.ExifTime.fromEXIF(s, def);
        const j = await under(a, () => JSON.stringify({ v: parse() }));
        const rb = await under(b, () => view(L.parseJSON(j).v));
        const ra = await under(a, () => view(parse()));
        t.nontrivial(ra !== undefined);
        u.eq(rb, ra, `${JSON.stringify(s)} serialised under ${a}, revived under ${b}`);
      },
    });

    const fake = u.fake({ geoTz: (lat) => (lat > 20 ? "Europe/Paris" : "Asia/Tokyo") });
    try {
      const metaCase = pair.chain((p) =>
        fc.record({
          p: fc.constant(p),
          tags: fc.dictionary(fc.constantFrom(...meta.DATETIME_TAGS, ...meta.UTC_TAGS, "DateCreated", "TimeCreated", "GPSDateStamp", "GPSTimeStamp", "SonyDateTime2", "TimeStamp", "SubSecTime"), fc.tuple(fieldsFor(p), fc.constantFrom("exif", "exif", "exif", "exif", "date", "time", "hm", "y"), fc.constantFrom("", ".5"), fc.oneof({ weight: 3, arbitrary: fc.constant("") }, { weight: 1, arbitrary: g.offsetMin.map((o) => g.offStr(o)) })).map(([f, l, fr, z]) => layouts[l](f, fr, z)), { minKeys: 1, maxKeys: 8, noNullPrototype: true }),
          zone: fc.constantFrom({}, {}, { OffsetTimeOriginal: "+05:30" }, { TimeZone: "local" }, { TimeZone: "-08:00" }, { GPSLatitude: 45, GPSLongitude: 5 }, { GPSLatitude: 10, GPSLongitude: 5, GeolocationTimeZone: "default" }, { TimeZoneOffset: "system" }),
          mime: fc.constantFrom("image/jpeg", "video/mp4"),
          o: fc.record({ backfillTimezones: fc.boolean(), defaultVideosToUTC: fc.boolean(), inferTimezoneFromTimeStamp: fc.boolean(), inferTimezoneFromDatestamps: fc.boolean() }, { noNullPrototype: true }),
        }),
      );
      await ctx.prop("metadata", {
        runs: [4000, 60000],
        arb: metaCase,
        async check({ p: [a, b], tags, zone, mime, o }, t) {
          const input = { ...tags, ...zone, MIMEType: mime };
          const path = fake.tagsFile(input);
          const read = async () => {
            const r = await fake.et.read(path, o);
            return view({ ...r });
          };
          const ra = await under(a, read);
          const rb = await under(b, read);
          t.nontrivial();
          for (const k of new Set([...Object.keys(ra), ...Object.keys(rb)])) u.eq(ra[k], rb[k], `read(${JSON.stringify(input)}, ${JSON.stringify(o)}) tag ${k} under ${a} and ${b}`);
        },
      });
    } finally {
      await fake.end();
    }
  },
};
