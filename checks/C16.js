"use strict";
const g = require("../lib/gens");
const meta = require("../lib/meta");
const { fc } = g;

const DATEISH = /when|date|time|subsec|creat|modif/i;
const reserved = new Set(["SourceFile", "Error", "Warning", "ExifToolVersion", "Sharpness", "Firmware", "MIMEType", "TimeZone", "Make"]);
const plainName = fc
  .oneof(
    fc.tuple(fc.constantFrom(..."ABCDEFGHIJKLMNOPQRSTUVWXYZ"), fc.string({ unit: fc.constantFrom(..."abcdefghijklmnopqrstuvwxyz0123456789_-ABCXYZ"), maxLength: 10 })).map(([a, b]) => a + b),
    fc.constantFrom("Title", "Keywords", "Subject", "Description", "Orientation", "ISO", "Aperture", "ShutterSpeed", "ImageWidth", "Megapixels", "RegionInfo", "LensID", "Constructor", "ToString", "HasOwnProperty", "Tag__proto__", "Errors", "Warnings", "Zone", "Tz", "Rating", "City", "Artist", "Copyright", "ObjectName", "XMPToolkit", "Length", "Then", "ValidBits", "InvalidPixels", "ValidAFPoints"),
  )
  .filter((n) => !DATEISH.test(n) && !/Valid$/.test(n) && !/^(GPS|Geolocation)/.test(n) && !reserved.has(n));
const dateName = fc.constantFrom("ModifyDate", "ProfileDateTime", "DateStampX", "SubSecTime", "SubSecTimeOriginal", "WhenTaken", "Created", "Modification", "CreatorTool", "ExposureTime", "Timecode", "Candidate", "LastKeywordsTimes", "DateTimeDigitized", "FileCreateDate", "DayTimeOffset", "CreativeStyle");
const oddText = fc.oneof(
  { weight: 3, arbitrary: fc.string({ unit: "grapheme", maxLength: 20 }) },
  { weight: 2, arbitrary: fc.string({ maxLength: 30 }) },
  { weight: 1, arbitrary: fc.string({ unit: "binary", maxLength: 10 }).map((s) => s.toWellFormed()) },
  { weight: 3, arbitrary: fc.constantFrom("", " ", "  lead", "trail  ", "{ready}", "x{ready}\ny", "{ready}\n", "{ready1}", "a\nb\r\nc", "Error: not really", "Warning: nope", "null ", "NULL", "Undef", "0", "00", "1", "true", "yes", "inf", "NaN", "-", "1/0", "0000:00:00 00:00:00", "    :  :     :  :  ", "9999:99:99 99:99:99", "\u0000", "\ufeffbom", "\u2028", "😀😀", "e\u0301", "[object Object]", "a,b", '"q"', "\\", "__proto__", "constructor", "-execute", "binary", "Binary 5", "A Binary 5 bytes long", "Binary 7 bytes of art", "(Binary data 12 bytes) or so", "Binary data 12", "(Binary data bytes)", "Binary image, 12 bytes", "(none)", "12 mm", "1e400", "UTC", "Z") },
);
const dateText = fc.oneof(
  { weight: 4, arbitrary: fc.tuple(meta.quietTime, fc.constantFrom("", ".5", ".123456"), fc.constantFrom("", "Z", "+02:00", "-0330", " PST", "+25:00", "junk")).map(([f, fr, z]) => `${meta.dateText(f)} ${meta.timeText(f)}${fr}${z}`) },
  { weight: 2, arbitrary: fc.tuple(meta.quietTime, fc.constantFrom("date", "time", "ym", "y", "hm", "iso")).map(([f, l]) => ({ date: meta.dateText(f), time: meta.timeText(f), ym: meta.dateText(f).slice(0, 7), y: String(f.year), hm: meta.timeText(f).slice(0, 5), iso: `${meta.dateText(f).replace(/:/g, "-")}T${meta.timeText(f)}` })[l]) },
  { weight: 1, arbitrary: fc.string({ unit: fc.constantFrom(..."0123456789:- TZ+."), maxLength: 24 }) },
);
const num = fc.oneof(fc.integer(), fc.double({ noNaN: true, noDefaultInfinity: true }).map((x) => x + 0), fc.constantFrom(0, 1e21, 1e-9, 2 ** 53 + 2, 1900, 20230101));
const leaf = fc.oneof({ weight: 5, arbitrary: oddText }, { weight: 2, arbitrary: num }, { weight: 1, arbitrary: fc.boolean() }, { weight: 1, arbitrary: dateText });
const key = fc.oneof({ weight: 6, arbitrary: plainName }, { weight: 1, arbitrary: fc.constantFrom("__proto__", "__etvInvalidUtf8V1", "constructor", "_ctor", "Null", "0", "toString", "length") });
const { value } = fc.letrec((tie) => ({
  value: fc.oneof(
    { depthSize: "small", maxDepth: 4, withCrossShrink: true },
    { weight: 5, arbitrary: leaf },
    { weight: 2, arbitrary: fc.array(tie("value"), { maxLength: 4 }) },
    { weight: 2, arbitrary: fc.array(fc.tuple(key, tie("value")), { maxLength: 4 }).map((e) => Object.fromEntries(e)) },
    { weight: 1, arbitrary: fc.constantFrom(null, "null", "undef", " undefined ") },
  ),
}));

module.exports = {
  id: "C16",
  level: "exploration",
  quickScale: 2,
  shards: 8,
  rule:
    "Metadata JSON is generated (tag names that are and are not date-like, text of every kind, numbers, booleans, nested lists and structs, odd keys, binary placeholders, validity flags, absent-value markers), answered by a stand-in exiftool as one block or cut into chunks at arbitrary byte offsets, and read with read() and readRaw(). Oracle: the generated JSON itself (values unchanged, tags complete), raw text of recognised values, and independence from chunk boundaries. Non-trivial: at least one structured, odd or date-like value, or at least one cut.",
  assumptions: ["exiftool never reports a top-level tag that starts with a lower-case letter or underscore", "the texts null, undef and undefined mean an absent value, as documented by NullIsh"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    const fake = u.fake({ streamFlushMillis: 1 });
    const NULLISH = ["undef", "null", "undefined"];
    const BIN = /^\(?Binary(?: data)? (\d{1,10}) bytes(?:, use -b option to extract)?\)?$/i;
    const nullish = (v) => v == null || (typeof v === "string" && NULLISH.includes(v.trim()));
    // The value read() should give for a plain (not date-like) tag.
    const plain = (v) => {
      if (nullish(v)) return undefined;
      if (typeof v === "string" && BIN.test(v)) return new L.BinaryField(+BIN.exec(v)[1], v);
      if (Array.isArray(v)) return v.map(plain);
      if (typeof v === "object") return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, plain(x)]));
      return v;
    };
    const hasDateKey = (v) => v != null && typeof v === "object" && Object.entries(v).some(([k, x]) => (!Array.isArray(v) && (DATEISH.test(k) || /Valid$/.test(k))) || hasDateKey(x));
    const META = ["SourceFile", "errors", "warnings"];
    const strip = (r) => Object.fromEntries(Object.entries(r).filter(([k]) => !META.includes(k)));
    const cutsArb = fc.oneof({ weight: 2, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: fc.array(fc.nat(2000), { minLength: 1, maxLength: 4 }) });
    const tagsArb = fc.array(fc.tuple(plainName, value), { minLength: 1, maxLength: 8 }).map((e) => Object.fromEntries(e));
    const answer = (tags, extra) => fake.tagsFile(tags, extra);

    try {
      await ctx.prop("plain-values", {
        runs: [8000, 120000],
        arb: fc.record({ tags: tagsArb, cuts: cutsArb, group: fc.constantFrom("", "", "", "-G") }),
        async check({ tags, cuts, group }, t) {
          tags = Object.fromEntries(Object.entries(tags).filter(([, v]) => !hasDateKey(v)));
          t.nontrivial(cuts.length > 0 || Object.values(tags).some((v) => typeof v !== "string" || v.length === 0 || /[^ -~]|\{|null|undef/i.test(v)));
          t.label(cuts.length ? "chunked" : "whole");
          const input = group ? Object.fromEntries(Object.entries(tags).map(([k, v]) => ["XMP:" + k, v])) : tags;
          const p = answer(input, { cuts });
          const r = await fake.et.read(p, group ? { readArgs: ["-G"] } : undefined);
          const exp = {};
          for (const [k, v] of Object.entries(input)) {
            const e = plain(v);
            if (e !== undefined) exp[k] = e;
          }
          u.eq(strip(r), exp, `read() of ${JSON.stringify(input)} cut at ${cuts}`);
          u.eq([r.SourceFile, r.errors, r.warnings], [p, [], []], "[SourceFile, errors, warnings]");
          const raw = await fake.et.readRaw(p);
          u.eq(strip(raw), JSON.parse(JSON.stringify(input)), `readRaw() of ${JSON.stringify(input)} cut at ${cuts}`);
          u.eq([raw.SourceFile, raw.errors, raw.warnings], [p, [], []], "readRaw [SourceFile, errors, warnings]");
        },
      });

      // One odd value never disturbs another tag.
      const flagged = (k) => k + "Valid";
      await ctx.prop("mixed-values", {
        runs: [8000, 120000],
        arb: fc.record({
          plain: tagsArb,
          dates: fc.array(fc.tuple(dateName, fc.oneof({ weight: 3, arbitrary: dateText }, { weight: 3, arbitrary: oddText }, { weight: 1, arbitrary: num }, { weight: 1, arbitrary: fc.array(fc.oneof(dateText, oddText), { maxLength: 3 }) })), { maxLength: 5 }).map((e) => Object.fromEntries(e)),
          struct: fc.array(fc.tuple(fc.oneof(plainName, dateName), fc.oneof(dateText, oddText, num)), { maxLength: 3 }).map((e) => Object.fromEntries(e)),
          valid: fc.array(fc.tuple(plainName.map(flagged), fc.oneof(fc.constantFrom("true", "false", "Yes", "no", "1", "0", "On", "OFF", "maybe", " yes "), fc.boolean(), fc.integer({ min: 0, max: 2 }))), { maxLength: 2 }).map((e) => Object.fromEntries(e)),
          bin: fc.array(fc.tuple(plainName, fc.oneof(fc.nat(9999999), fc.integer({ min: 0, max: 9999999999 })), fc.constantFrom("(Binary data %d bytes, use -b option to extract)", "(Binary data %d bytes)", "Binary data %d bytes")), { maxLength: 2 }),
          version: fc.constantFrom(undefined, 12.3, 13.59, 12.3, 9, "13.10"),
          nested: fc.constantFrom(undefined, undefined, 12.5, 7, "12.50"),
          cuts: cutsArb,
        }),
        async check(c, t) {
          const tags = Object.fromEntries(Object.entries(c.plain).filter(([, v]) => !hasDateKey(v)));
          const struct = Object.fromEntries(Object.entries(c.struct).filter(([k]) => k !== "MyStruct"));
          const input = { ...(c.version === undefined ? {} : { ExifToolVersion: c.version }), ...tags, ...c.dates, ...c.valid };
          const bins = Object.fromEntries(c.bin.filter(([k]) => !(k in input)).map(([k, n, f]) => [k, { n, text: f.replace("%d", n) }]));
          for (const [k, b] of Object.entries(bins)) input[k] = b.text;
          delete input.MyStruct;
          if (typeof c.version === "number" && c.nested !== undefined) struct.ExifToolVersion = c.nested;
          if (Object.keys(struct).length) input.MyStruct = struct;
          t.nontrivial(Object.keys(c.dates).length + Object.keys(c.valid).length + c.bin.length > 0);
          const p = answer(input, { cuts: c.cuts });
          const r = await fake.et.read(p);
          const what = `read() of ${JSON.stringify(input)}`;
          const known = (got, v, w) => {
            // a date-like tag: the text itself, or something that keeps the text
            if (nullish(v)) return void u.eq(got, undefined, w);
            if (Array.isArray(v)) {
              u.ok(Array.isArray(got) && got.length === v.length, `${w} is ${u.show(got)}`);
              return v.forEach((x, i) => known(got[i], x, `${w}[${i}]`));
            }
            if (typeof v !== "string") return void u.eq(got, v, w);
            if (BIN.test(v)) return void u.eq([got instanceof L.BinaryField, got.rawValue], [true, v], w);
            if (typeof got === "string") {
              u.eq(got, v, w);
              // unambiguous date-times are always recognised under a tag that says so
              if (/Date|When/.test(w.split(" ").pop()) && /^\d{4}:\d\d:\d\d \d\d:\d\d:\d\d(\.\d+)?(Z|[+-]0[0-9]:00)?$/.test(v) && L.ExifDateTime.from(v) != null) ctx.fail(`${w}: ${JSON.stringify(v)} was not recognised`);
              return;
            }
            const cls = [L.ExifDateTime, L.ExifDate, L.ExifTime].find((x) => got instanceof x);
            u.ok(cls, `${w} is ${u.show(got)}`);
            t.label(cls.name);
            u.eq(String(got.rawValue).trim(), v.trim(), w + " rawValue");
            const ref = cls === L.ExifTime ? L.ExifTime.fromEXIF(v) : cls.from(v);
            u.eq(JSON.stringify(ref), JSON.stringify(got), w + " agrees with parsing the text alone");
          };
          for (const [k, v] of Object.entries(input)) {
            if (k === "ExifToolVersion") u.eq(r[k], String(v), `${what} ${k}`);
            else if (k === "MyStruct") {
              for (const [f, x] of Object.entries(v)) {
                if (DATEISH.test(f)) known(r[k][f], x, `${what} MyStruct.${f}`);
                else u.eq(r[k][f], plain(x), `${what} MyStruct.${f}`);
              }
            } else if (bins[k]) u.eq([r[k] instanceof L.BinaryField, r[k].bytes, r[k].rawValue], [true, bins[k].n, bins[k].text], `${what} ${k}`);
            else if (k in c.valid) {
              const b = typeof v === "string" ? { true: true, yes: true, 1: true, on: true, false: false, no: false, 0: false, off: false }[v.trim().toLowerCase()] ?? v : v;
              u.eq(r[k], b, `${what} ${k}`);
            } else if (k in c.dates) known(r[k], v, `${what} ${k}`);
            else u.eq(r[k], plain(v), `${what} ${k}`);
          }
          u.eq(Object.keys(r).filter((k) => !(k in input) && !META.includes(k) && !["zone", "tz", "tzSource"].includes(k)), [], `${what} invented tags`);
          u.eq(r.warnings, [], `${what} warnings`);
        },
      });

      // Asking for group names (-G) keeps every tag of every group apart.
      const GROUPS = ["EXIF", "XMP", "IPTC", "Composite", "MakerNotes", "File"];
      await ctx.prop("grouped-names", {
        runs: [4000, 60000],
        arb: fc.record({
          tags: fc.array(fc.tuple(fc.constantFrom(...GROUPS), plainName, value), { minLength: 1, maxLength: 8 }),
          gps: fc.option(fc.record({ lat: fc.double({ min: -90, max: 90, noNaN: true }).map((x) => Math.round(x * 1e5) / 1e5 + 0), lon: fc.double({ min: -180, max: 180, noNaN: true }).map((x) => Math.round(x * 1e5) / 1e5 + 0), groups: fc.subarray(["EXIF", "XMP", "Composite"], { minLength: 1 }) }), { nil: undefined }),
          stamp: fc.option(fc.tuple(meta.quietTime, fc.subarray(["EXIF", "XMP", "IPTC"], { minLength: 1 })), { nil: undefined }),
        }),
        async check({ tags, gps, stamp }, t) {
          const input = {};
          for (const [group, k, v] of tags) if (!hasDateKey(v)) input[`${group}:${k}`] = v;
          const names = Object.keys(input).map((k) => k.split(":")[1]);
          t.nontrivial(gps != null || stamp != null || new Set(names).size < names.length);
          for (const x of gps?.groups ?? []) Object.assign(input, { [x + ":GPSLatitude"]: gps.lat, [x + ":GPSLongitude"]: gps.lon, [x + ":GPSStatus"]: "A" });
          for (const x of stamp?.[1] ?? []) input[x + ":CreateDate"] = meta.textOf(stamp[0], "", 60);
          const r = await fake.et.read(answer(input), { readArgs: ["-G"], ignoreZeroZeroLatLon: false });
          const what = `read(${JSON.stringify(input)}, -G)`;
          for (const [k, v] of Object.entries(input)) {
            if (k.endsWith(":CreateDate")) u.eq(r[k]?.rawValue, v, `${what} ${k}`);
            else u.eq(r[k], k.includes(":GPSL") ? v : plain(v), `${what} ${k}`);
          }
        },
      });

      // GPS values that cannot be used never take other tags with them, and stay silent or warn.
      const gpsVal = fc.oneof(oddText, num, fc.constantFrom("45 deg 0' 0.00\" N", 45.5, -12, 0, "N", "S", "North", null, true, [1, 2], { a: 1 }, "91", 181, "12.5 13.5"));
      await ctx.prop("odd-gps", {
        runs: [5000, 80000],
        arb: fc.record({ gps: fc.dictionary(fc.constantFrom("GPSLatitude", "GPSLongitude", "GPSLatitudeRef", "GPSLongitudeRef", "GPSPosition", "GPSAltitude", "GPSAltitudeRef", "GPSSpeed", "GPSDateStamp", "GPSTimeStamp", "GPSDateTime", "GPSImgDirection", "GeolocationPosition", "GeolocationCity", "GeolocationTimeZone", "GeolocationDistance"), gpsVal, { minKeys: 1, maxKeys: 6, noNullPrototype: true }), plain: tagsArb, geolocation: fc.boolean(), zero: fc.boolean() }),
        async check({ gps, plain: pl, geolocation, zero }, t) {
          const tags = Object.fromEntries(Object.entries(pl).filter(([, v]) => !hasDateKey(v)));
          const input = { ...tags, ...gps };
          t.nontrivial();
          const r = await fake.et.read(answer(input), { geolocation, ignoreZeroZeroLatLon: zero });
          const what = `read(${JSON.stringify(input)})`;
          for (const k of Object.keys(tags)) u.eq(r[k], plain(tags[k]), `${what} ${k}`);
          for (const k of Object.keys(r)) u.ok(k in input || META.includes(k) || ["zone", "tz", "tzSource", "GPSLatitudeRef", "GPSLongitudeRef", "GPSPosition", "GPSLatitude", "GPSLongitude", "GeolocationPosition"].includes(k), `${what} invented ${k}`);
          u.eq(r.errors, [], what + " errors");
        },
      });

      // Large answers arrive intact.
      await ctx.prop("large-answers", {
        runs: [120, 3000],
        arb: fc.record({ unit: fc.constantFrom("é", "x", "日本", "😀", "{ready}", "\n", "ab "), n: fc.integer({ min: 20000, max: 200000 }), off: fc.nat(5), tags: tagsArb }),
        async check({ unit, n, off, tags }, t) {
          tags = Object.fromEntries(Object.entries(tags).filter(([, v]) => !hasDateKey(v)));
          t.nontrivial();
          const big = "y".repeat(off) + unit.repeat(Math.ceil(n / unit.length)) + "z";
          const p = answer({ Big: big, ...tags, Last: "end" });
          const r = await fake.et.read(p);
          u.ok(r.Big === big, `a ${big.length}-character value of ${JSON.stringify(unit)} came back different`);
          u.eq(r.Last, "end", "the tag after it");
          for (const k of Object.keys(tags)) if (k !== "Big" && k !== "Last") u.eq(r[k], plain(tags[k]), k);
        },
      });
    } finally {
      await fake.end();
    }
  },
};
