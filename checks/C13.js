"use strict";
const g = require("../lib/gens");
const meta = require("../lib/meta");
const { fc } = g;
const TZS = ["UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Auckland"];
const ZT = ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset"];

module.exports = {
  id: "C13",
  level: "exploration",
  quickScale: 3,
  shardEnvs: () => TZS.flatMap((TZ) => [{ TZ }, { TZ }]),
  rule:
    "Tag sets holding any subset of zone tags, GPS position and geolocation zone, UTC and capture times with and without offsets, video MIME types and Nikon daylight-saving flags, times the options that govern zone inference, are answered by a stand-in exiftool and read with read(). Oracle: an independent model of the documented source priority, and per-tag expectations (stated zone kept; otherwise backfilled with local time kept; UTC tags UTC). Non-trivial: at least two candidate sources, or a source overridden by an option.",
  assumptions: ["geoTz is replaced by a stand-in that maps longitude to a zone"],
  async run(ctx) {
    const { ExifDateTime, ExifDate, ExifTime } = ctx.lib;
    const u = ctx.u;
    const F = ["year", "month", "day", "hour", "minute", "second", "millisecond"];
    const geoTz = (lat, lon) => {
      if (lon > 100) throw new Error("no zone here");
      if (lon > 60) return "Nowhere/Land";
      if (lon > 20) return "Asia/Tokyo";
      return lat > 0 ? "Europe/Paris" : "Africa/Johannesburg";
    };
    const geoExpected = (lat, lon) => (lon > 60 ? undefined : lon > 20 ? "Asia/Tokyo" : lat > 0 ? "Europe/Paris" : "Africa/Johannesburg");
    const zt = fc.oneof(
      { weight: 6, arbitrary: g.offsetMin.map((o) => ({ zone: g.zoneName(o), off: o, v: g.offStr(o) })) },
      { weight: 1, arbitrary: fc.constantFrom("", "n/a", "+24:00", "local", "default").map((v) => ({ v })) },
      { weight: 1, arbitrary: fc.constantFrom("America/New_York", "Asia/Kolkata", "America/Port-au-Prince").map((v) => ({ zone: v, v })) },
    );
    const ztoff = fc.oneof(zt, g.offsetMin.map((o) => ({ zone: g.zoneName(o), off: o, v: o / 60 })), fc.tuple(g.offsetMin, g.offsetMin).map(([o, p]) => ({ zone: g.zoneName(o), off: o, v: [o / 60, p / 60] })));
    const stamp = fc.record({ f: meta.quietTime, frac: fc.constantFrom("", "", "25", "123"), off: fc.oneof({ weight: 3, arbitrary: fc.constant(null) }, { weight: 2, arbitrary: g.offsetMin }, { weight: 1, arbitrary: fc.constant(0) }) });
    const opt = (arb, freq = 2) => fc.option(arb, { freq }); // null one time in freq
    const arb = fc.record({
      zt: fc.record(Object.fromEntries(ZT.map((k) => [k, opt(k === "TimeZoneOffset" ? ztoff : zt, 2)]))),
      anyZt: fc.integer({ min: 0, max: 2 }),
      gps: opt(fc.record({ lat: fc.constantFrom(-30, 45, 10, 0), lon: fc.constantFrom(-10, 0, 30, 70, 120, 300) }), 2),
      geo: opt(fc.constantFrom("America/Chicago", "America/Port-au-Prince", "Bogus/Zone", "Pacific/Apia", "system")),
      capt: fc.record(Object.fromEntries(meta.CAPTURED.map((k) => [k, opt(stamp, 2)]))),
      utc: fc.record(Object.fromEntries(meta.UTC_TAGS.map((k) => [k, opt(stamp, 2)]))),
      others: fc.array(fc.record({ k: fc.constantFrom("ModifyDate", "FileModifyDate", "MetadataDate", "ProfileDateTime", "UTCDateTime", "ClipUTCDateStart"), s: stamp }), { maxLength: 2 }),
      gpsStamp: opt(fc.record({ f: meta.quietTime, frac: fc.constantFrom("", ".5"), has: fc.constantFrom("both", "both", "both", "date", "time") }), 2),
      sony: opt(stamp, 2),
      grouped: fc.constantFrom(false, false, false, true),
      history: opt(stamp, 2),
      mime: fc.constantFrom("image/jpeg", "image/jpeg", "video/mp4", undefined),
      nikon: fc.constantFrom(undefined, undefined, { Make: "NIKON CORPORATION", DaylightSavings: "Yes" }, { Make: "Nikon", DaylightSavings: "No" }, { Make: "Canon", DaylightSavings: "Yes" }),
      inferDelta: opt(fc.record({ off: g.offsetMin, drift: fc.integer({ min: -40, max: 40 }) }), 2),
      dateOnly: opt(meta.quietTime),
      timeOnly: opt(fc.record({ f: meta.quietTime, off: opt(g.offsetMin, 2) })),
      ts: opt(fc.record({ f: meta.quietTime, off: g.offsetMin }), 2),
      o: fc.record({
        backfillTimezones: fc.constantFrom(true, true, true, false),
        preferTimezoneInferenceFromGps: fc.boolean(),
        inferTimezoneFromDatestamps: fc.constantFrom(true, true, false),
        defaultVideosToUTC: fc.constantFrom(true, true, false),
        inferTimezoneFromTimeStamp: fc.boolean(),
        ignoreZeroZeroLatLon: fc.boolean(),
      }, { noNullPrototype: true }),
      order: fc.boolean(),
    });
    const fake = u.fake({ geoTz });
    const off = (z, ms) => ctx.lib.normalizeZone(z).offset(ms);
    try {
      await ctx.prop("zone-priority-and-backfill", {
        runs: [12000, 160000],
        arb,
        async check(c, t) {
          const tags = {};
          if (c.anyZt === 0) for (const k of ZT) if (c.zt[k]) tags[k] = c.zt[k].v;
          if (c.gps) {
            tags.GPSLatitude = c.gps.lat;
            tags.GPSLongitude = c.gps.lon;
          }
          if (c.geo) tags.GeolocationTimeZone = c.geo;
          for (const k of meta.CAPTURED) if (c.capt[k]) tags[k] = meta.textOf(c.capt[k].f, c.capt[k].frac, c.capt[k].off);
          for (const k of meta.UTC_TAGS) if (c.utc[k]) tags[k] = meta.textOf(c.utc[k].f, c.utc[k].frac, c.utc[k].off);
          const stamps = { ...c.capt, ...c.utc };
          // UTC clocks in the order they are trusted
          if (c.gpsStamp && c.gpsStamp.has !== "time") tags.GPSDateStamp = meta.dateText(c.gpsStamp.f);
          if (c.gpsStamp && c.gpsStamp.has !== "date") tags.GPSTimeStamp = meta.timeText(c.gpsStamp.f) + c.gpsStamp.frac;
          if (c.sony) tags.SonyDateTime2 = meta.textOf(c.sony.f, c.sony.frac, c.sony.off);
          const clocks = [...meta.UTC_TAGS.map((k) => [k, stamps[k]]), ["GPSDateTimeStamp", c.gpsStamp?.has === "both" ? { f: c.gpsStamp.f, off: null } : null], ["SonyDateTime2", c.sony]];
          const clock = clocks.find(([, s]) => s && (s.off == null || s.off === 0));
          // optionally make the first zoneless capture time lie near an offset from the UTC time
          if (c.inferDelta && clock) {
            const base = g.instant(clock[1].f, 0);
            const w = g.wallFields(base + (c.inferDelta.off + c.inferDelta.drift) * 60000);
            stamps.CreateDate = { f: w, frac: "", off: null };
            tags.CreateDate = meta.textOf(w, "", null);
          }
          for (const x of c.others) {
            tags[x.k] = meta.textOf(x.s.f, x.s.frac, x.s.off);
            stamps[x.k] = x.s;
          }
          if (c.history) tags.History = [{ Action: "saved", When: meta.textOf(c.history.f, c.history.frac, c.history.off) }];
          if (c.dateOnly) tags.DateCreated = meta.dateText(c.dateOnly);
          if (c.timeOnly) tags.DigitalCreationTime = meta.timeText(c.timeOnly.f) + (c.timeOnly.off == null ? "" : g.offStr(c.timeOnly.off));
          if (c.ts) tags.TimeStamp = meta.textOf(c.ts.f, "", c.ts.off);
          if (c.mime) tags.MIMEType = c.mime;
          Object.assign(tags, c.nikon);
          let input = tags;
          if (c.order) input = Object.fromEntries(Object.entries(tags).reverse());

          // ---- model
          const gpsOk = c.gps && Math.abs(c.gps.lon) <= 180 && !(c.o.ignoreZeroZeroLatLon && c.gps.lat === 0 && c.gps.lon === 0);
          const isVideo = c.mime === "video/mp4";
          const utcVideo = isVideo && c.o.defaultVideosToUTC;
          const fromTags = () => {
            if (c.anyZt !== 0) return;
            for (const k of ZT) {
              const z = c.zt[k];
              if (!z?.zone) continue;
              if (c.nikon?.DaylightSavings === "Yes" && /nikon/i.test(c.nikon.Make) && g.OFFSETS.includes(z.off + 60)) return { zone: g.zoneName(z.off + 60), src: k };
              return { zone: z.zone, src: k };
            }
          };
          const geoZone = ["Bogus/Zone", "system"].includes(c.geo) ? undefined : c.geo;
          const fromGps = () => {
            if (!gpsOk) return;
            if (geoZone) return { zone: geoZone, src: "GeolocationTimeZone" };
            const z = geoExpected(c.gps.lat, c.gps.lon);
            return z && { zone: z, src: "GPSLatitude/GPSLongitude" };
          };
          const fromStamps = () => {
            if (!c.o.inferTimezoneFromDatestamps) return;
            for (const k of meta.CAPTURED) {
              const s = stamps[k];
              if (s && s.off != null && s.off !== 0) return { zone: g.zoneName(s.off), src: k };
            }
          };
          const near = (d) => {
            const best = Math.min(...g.OFFSETS.map((x) => Math.abs(x - d)));
            return best > 30 ? [] : g.OFFSETS.filter((x) => Math.abs(x - d) === best);
          };
          const inst = (s) => g.instant(s.f, 0);
          const fromUtc = () => {
            const uk = clock?.[0];
            const ck = meta.CAPTURED.find((k) => stamps[k] && stamps[k].off == null);
            if (!uk || !ck) return;
            const z = near((inst(stamps[ck]) - inst(clock[1])) / 60000);
            if (z.length) return { zone: z.map(g.zoneName), src: `offset between ${ck} and ${uk}` };
          };
          const fromTs = () => {
            if (!c.o.inferTimezoneFromTimeStamp || !c.ts) return;
            for (const k of meta.CAPTURED) {
              const s = stamps[k];
              if (!s) continue;
              if (s.off != null) return { zone: g.zoneName(s.off), src: k };
              const d = Math.floor((inst(s) - g.instant(c.ts.f, c.ts.off)) / 60000);
              const z = near(d);
              if (z.length) return { zone: z.map(g.zoneName), src: k };
            }
          };
          const sources = [c.o.preferTimezoneInferenceFromGps ? fromGps : () => undefined, fromTags, fromGps, fromStamps, () => (utcVideo ? { zone: "UTC", src: "defaultVideosToUTC" } : undefined), fromUtc, fromTs].map((f) => f());
          const exp = sources.find((x) => x != null);
          t.nontrivial(sources.filter((x) => x != null).length > 1 || exp === undefined);
          t.label("source:" + (exp ? exp.src.replace(/offset between.*/, "utc-offset") : "none"));

          // asking for groups changes the names of the tags, and nothing else
          const group = (k) => (k === "MIMEType" ? "File:" : /^(GPS(Position|DateTime)$|SubSec|Geolocation)/.test(k) ? "Composite:" : k === "History" ? "XMP:" : "EXIF:") + k;
          if (c.grouped) input = Object.fromEntries(Object.entries(input).map(([k, v]) => [group(k), v]));
          t.label(c.grouped ? "grouped" : "plain names");
          const p = fake.tagsFile(input);
          const all = await fake.et.read(p, c.grouped ? { ...c.o, readArgs: ["-G"] } : c.o);
          const r = c.grouped ? { ...u.pick(all, ["zone", "tz", "tzSource"]), ...Object.fromEntries(Object.keys(tags).map((k) => [k, all[group(k)]])) } : all;
          const what = `read(${JSON.stringify(input)}, ${JSON.stringify(c.o)})`;
          if (!exp) u.eq([r.zone, r.tz, r.tzSource], [undefined, undefined, undefined], what + " [zone, tz, tzSource]");
          else {
            u.ok([].concat(exp.zone).includes(r.zone), () => `${what}: zone ${r.zone}, expected ${exp.zone} from ${exp.src}`);
            u.eq(r.tz, r.zone, what + " tz");
            u.ok(r.tzSource.includes(exp.src), () => `${what}: tzSource ${r.tzSource}, expected ${exp.src}`);
          }
          const zone = r.zone;
          const one = (got, k, s, gpsTag) => {
            const w = `${what}: ${k}`;
            const fms = g.fracMs(s.frac === "" ? null : s.frac);
            const ff = { ...s.f, millisecond: fms };
            u.ok(got instanceof ExifDateTime, `${w} is ${u.show(got)}, not a date-time`);
            if (s.off != null) {
              u.eq([u.pick(got, F), got.zone, got.inferredZone === true], [ff, g.zoneName(s.off), false], w + " (states its zone)");
              u.eq(got.toMillis(), g.instant(ff, s.off), w + " instant");
              return;
            }
            const isUtc = k.includes("UTC") || gpsTag;
            if (isUtc || (utcVideo && (zone === undefined || !c.o.backfillTimezones))) {
              u.eq([u.pick(got, F), got.zone], [ff, "UTC"], w + " (UTC)");
              u.eq(got.toMillis(), g.instant(ff, 0), w + " instant");
            } else if (utcVideo) {
              const ms = g.instant(ff, 0);
              const wf = g.wallFields(ms + off(zone, ms) * 60000);
              u.eq([u.pick(got, F), got.zone], [{ ...wf, millisecond: fms }, zone], w + " (video time taken as UTC)");
            } else if (c.o.backfillTimezones && zone !== undefined) {
              u.eq([u.pick(got, F), got.zone, got.inferredZone], [ff, zone, true], w + " (backfilled)");
            } else {
              u.eq([u.pick(got, F), got.zone, got.hasZone, got.tzoffsetMinutes], [ff, undefined, false, undefined], w + " (no zone)");
            }
            u.eq(got.rawValue, meta.textOf(s.f, s.frac, s.off), w + " rawValue");
          };
          const gpsBad = c.gps && !gpsOk;
          for (const [k, s] of Object.entries(stamps)) {
            if (!s) continue;
            if (k === "GPSDateTime" && gpsBad) continue; // GPS data is dropped as a whole
            one(r[k], k, s, k.startsWith("GPS"));
          }
          if (c.gpsStamp && !gpsBad) {
            if (tags.GPSDateStamp) u.eq([r.GPSDateStamp instanceof ExifDate, r.GPSDateStamp?.toExifString()], [true, tags.GPSDateStamp], what + ": GPSDateStamp");
            if (tags.GPSTimeStamp) u.eq([r.GPSTimeStamp instanceof ExifTime, u.pick(r.GPSTimeStamp, ["hour", "minute", "second", "zone"])], [true, { ...u.pick(c.gpsStamp.f, ["hour", "minute", "second"]), zone: "UTC" }], what + ": GPSTimeStamp");
          }
          if (c.history) one(r.History?.[0]?.When, "History.When", c.history, false);
          if (c.dateOnly) {
            u.ok(r.DateCreated instanceof ExifDate, what + ": DateCreated is a date");
            u.eq(r.DateCreated.toExifString(), tags.DateCreated, what + ": DateCreated");
          }
          if (c.timeOnly) {
            const x = r.DigitalCreationTime;
            u.ok(x instanceof ExifTime, what + ": DigitalCreationTime is a time");
            const z = c.timeOnly.off != null ? g.zoneName(c.timeOnly.off) : utcVideo ? "UTC" : c.o.backfillTimezones ? zone : undefined;
            u.eq([x.hour, x.minute, x.second, x.zone], [c.timeOnly.f.hour, c.timeOnly.f.minute, c.timeOnly.f.second, z], what + ": DigitalCreationTime");
          }
        },
      });
    } finally {
      await fake.end();
    }
  },
};
