"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

// Pieces of everything the library parses.
const ATOMS = ["0", "1", "9", "12", " ", "  ", "\t", "\n", "\r", ":", "-", "+", "/", ".", ",", "A", "a", "Z", "T", "é", "\u2212", "°", "'", '"', "N", "W", "S", "E", "_", "(", ")", "&", ";", "&#38;", "&amp;", "|", "[", "]", "{", "}", "=", "<", ">", "\ufffd", "2020:", "12:", "00:00:00", "2020:01:02", " 03:04:05", ".123", "+05:30", "GMT", "UTC", "UTC+", "Etc/", "America/", "am", "PM", "Jan", "Mon ", "DST", "12.5, 13.5", "(Binary data ", " bytes", "use -b option to extract)", "deg ", "1 2 3 ", "1,", "Warning: ", "Error: ", "Nothing to ", "base64:", "{ready}", "%d", "-execute"];
const atom = fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...ATOMS) }, { weight: 1, arbitrary: fc.constantFrom("0", "1", " ", "a", ".", "1.", "-", "\t", "Aa", "1 ") });
const piece = fc.array(atom, { minLength: 1, maxLength: 3 }).map((a) => a.join(""));
const edge = fc.oneof({ weight: 2, arbitrary: fc.constant("") }, { weight: 3, arbitrary: piece }, { weight: 2, arbitrary: fc.constantFrom("2020:01:02 03:04:05", "2020-01-02T03:04:05", "2020:01:02 03:04:05.678", "2020:01:02 03:04:05+05:30", "12:34:56", "2020", "+05", "GMT+", "America/New", "12 34 56.7", "12 deg 34' 56\" N", "-12.34", "12.5 13.5", "1.5,2", "(Binary data 1", "Warning: x", "!", "x") });
// prefix, one or two pumped parts, suffix
const pumped = fc.record({ pre: edge, a: piece, mid: edge, b: fc.oneof({ weight: 2, arbitrary: fc.constant("") }, { weight: 1, arbitrary: piece }), post: edge });
const SIZES = [20, 24, 28, 32, 40, 56, 80, 128, 256, 512, 1024, 2048, 4096, 8192, 16384];
const grow = (p, size) => {
  const unit = p.a.length + p.b.length;
  const k = Math.max(1, Math.floor(size / unit));
  return p.pre + p.a.repeat(k) + p.mid + p.b.repeat(k) + p.post;
};
const LIMIT_MS = 1000; // of processor time, for at most 16 KB of text; ordinary cost is under 35 ms

module.exports = {
  id: "C28",
  level: "exploration",
  technique: "property-based performance testing: pumped texts of growing size, with a bound on processor time",
  shards: 8,
  rule:
    "Texts of the form prefix + unit^n + middle + unit^n + suffix are generated from fragments of everything the library parses (dates, zones, coordinates, binary placeholders, messages, escapes, markup), grown step by step from 20 to 16384 characters, and given to every public parsing function, to read()/readRaw() as the value of date, zone, GPS, binary, flag, list, structure, error and warning tags, to write() and editTags() as values and names, as exiftool's messages and status lines, and as tag descriptions in the tag database. Oracle: no step takes more than 1 s of this process's processor time (three measurements in a row; ordinary cost is a few milliseconds). Non-trivial: the text was grown to full size.",
  assumptions: ["processor time of the calling process is measured, not elapsed time, so a busy host does not matter"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    const cpu = () => {
      const c = process.cpuUsage();
      return (c.user + c.system) / 1000;
    };
    const bounded = async (p, what, f, sizes = SIZES) => {
      for (const size of sizes) {
        const text = grow(p, size);
        let ms;
        for (let i = 0; i < 3; i++) {
          const t0 = cpu();
          try {
            const r = f(text, size);
            if (r && typeof r.then === "function") await r;
          } catch {}
          ms = cpu() - t0;
          if (ms <= LIMIT_MS) break;
        }
        if (ms > LIMIT_MS) ctx.fail(`${what} took ${Math.round(ms)} ms of processor time for a text of ${text.length} characters: ${u.show(text.slice(0, 60))}...`);
      }
    };

    const PARSERS = {
      "ExifDateTime.from": (s) => L.ExifDateTime.from(s),
      "ExifDateTime.fromEXIF": (s) => L.ExifDateTime.fromEXIF(s),
      "ExifDateTime.fromISO": (s) => L.ExifDateTime.fromISO(s),
      "ExifDateTime.fromExifStrict": (s) => L.ExifDateTime.fromExifStrict(s),
      "ExifDateTime.fromExifLoose": (s) => L.ExifDateTime.fromExifLoose(s),
      "ExifDateTime.fromEXIF with a zone": (s) => L.ExifDateTime.fromEXIF("2020:01:02 03:04:05", s),
      "ExifDate.from": (s) => L.ExifDate.from(s),
      "ExifDate.fromISO": (s) => L.ExifDate.fromISO(s),
      "ExifDate.fromEXIF": (s) => L.ExifDate.fromEXIF(s),
      "ExifTime.fromEXIF": (s) => L.ExifTime.fromEXIF(s),
      normalizeZone: (s) => L.normalizeZone(s),
      extractZone: (s) => L.extractZone(s),
      isZone: (s) => L.isZone(s),
      equivalentZones: (s) => L.equivalentZones(s, "UTC"),
      parseTimezoneOffsetToMinutes: (s) => L.parseTimezoneOffsetToMinutes(s),
      parseTimezoneOffsetMatch: (s) => L.parseTimezoneOffsetMatch(s),
      extractTzOffsetFromTags: (s) => L.extractTzOffsetFromTags({ TimeZone: s, OffsetTime: s, OffsetTimeOriginal: s, TimeZoneOffset: s }),
      extractTzOffsetFromUTCOffset: (s) => L.extractTzOffsetFromUTCOffset({ DateTimeUTC: s, DateTimeOriginal: s, GPSDateTime: s }),
      isGeolocationTag: (s) => L.isGeolocationTag(s),
      "BinaryField.fromRawValue": (s) => L.BinaryField.fromRawValue(s),
      parseJSON: (s) => L.parseJSON(JSON.stringify({ a: s, b: { _ctor: s } })),
      "parseJSON of a date": (s) => L.parseJSON(JSON.stringify({ _ctor: "ExifDateTime", year: 2020, month: 1, day: 1, hour: 1, minute: 1, second: 1, rawValue: s, zoneName: s })),
    };
    await ctx.prop("parsers", {
      runs: [24000, 300000],
      arb: fc.record({ fn: fc.constantFrom(...Object.keys(PARSERS)), p: pumped }),
      async check({ fn, p }, t) {
        t.label(fn);
        await bounded(p, fn, PARSERS[fn]);
        t.nontrivial();
      },
    });

    const f = u.fake({ streamFlushMillis: 1 });
    try {
      const TAGS = ["DateTimeOriginal", "SubSecDateTimeOriginal", "CreateDate", "GPSDateTime", "GPSDateStamp", "GPSTimeStamp", "TimeStamp", "DateCreated", "TimeCreated", "OffsetTimeOriginal", "TimeZone", "TimeZoneOffset", "GPSLatitude", "GPSLongitude", "GPSLatitudeRef", "GPSPosition", "GPSAltitude", "GeolocationPosition", "GeolocationTimeZone", "ThumbnailImage", "FooValid", "DaylightSavings", "Make", "MIMEType", "ExifToolVersion", "Error", "Warning", "Title", "When", "ShutterCount"];
      const fixed = [20, 32, 64, 512, 4096, 16384];
      await ctx.prop("read", {
        runs: [6400, 60000],
        arb: fc.record({ tags: fc.uniqueArray(fc.oneof(fc.constantFrom(...TAGS), fc.constantFrom("GPSPosition", "GeolocationPosition", "GPSLatitude", "TimeZone", "DateTimeOriginal")), { minLength: 1, maxLength: 4 }), p: pumped, shape: fc.constantFrom("text", "text", "list", "struct"), raw: fc.constantFrom(false, false, false, true), geolocation: fc.boolean() }),
        async check(c, t) {
          for (const x of c.tags) t.label(x);
          await bounded(
            c.p,
            `${c.raw ? "readRaw" : "read"} (${c.tags}, ${c.shape})`,
            async (s) => {
              const v = c.shape === "list" ? [s, s] : c.shape === "struct" ? { DateTime: s, GPSLatitude: s, Text: s } : s;
              const file = f.tagsFile({ GPSLatitude: 12.5, GPSLongitude: 13.5, DateTimeOriginal: "2020:01:02 03:04:05", ...Object.fromEntries(c.tags.map((k) => [k, v])) });
              await (c.raw ? f.et.readRaw(file) : f.et.read(file, { geolocation: c.geolocation, inferTimezoneFromTimeStamp: true }));
            },
            fixed,
          );
          t.nontrivial();
        },
      });
      await ctx.prop("messages", {
        runs: [800, 10000],
        arb: fc.record({ p: pumped, api: fc.constantFrom("read", "write", "extract", "buffer", "rewrite", "delete"), where: fc.constantFrom("stderr", "stdout", "both"), lead: fc.constantFrom("", "Warning: ", "Error: ", "    1 image files ") }),
        async check(c, t) {
          t.label(c.api);
          await bounded(
            c.p,
            `${c.api} with ${c.where} output`,
            async (s) => {
              const text = c.lead + s + "\n";
              const file = path.join(f.dir, "m.jpg");
              fs.writeFileSync(file + ".ctl", JSON.stringify({ ...(c.where !== "stderr" ? { stdout: text } : {}), ...(c.where !== "stdout" ? { stderr: text } : {}) }));
              await { read: () => f.et.read(file), write: () => f.et.write(file, { Title: "x" }), extract: () => f.et.extractThumbnail(file, path.join(f.dir, "o")), buffer: () => f.et.extractBinaryTagToBuffer("ThumbnailImage", file), rewrite: () => f.et.rewriteAllTags(file, path.join(f.dir, "o")), delete: () => f.et.deleteAllTags(file) }[c.api]();
            },
            fixed,
          );
          t.nontrivial();
        },
      });
      await ctx.prop("written-values", {
        runs: [800, 10000],
        arb: fc.record({ p: pumped, how: fc.constantFrom("write", "list", "struct", "gps", "name", "file", "edit", "editCollection", "numericTag", "argument", "retain") }),
        async check(c, t) {
          t.label(c.how);
          const file = path.join(f.dir, "w.jpg");
          await bounded(
            c.p,
            c.how,
            async (s) =>
              ({
                write: () => f.et.write(file, { Title: s }),
                list: () => f.et.write(file, { Subject: [s, s] }),
                struct: () => f.et.write(file, { CreatorContactInfo: { CiAdrCity: s } }),
                gps: () => f.et.write(file, { GPSLatitude: s, GPSLongitude: s }),
                name: () => f.et.write(file, { [s]: "x" }),
                file: () => f.et.read(path.join(f.dir, s.replace(/\//g, "_"))),
                edit: () => f.et.editTags(file, [{ tag: "XMP-dc:Subject", operation: "add", value: s }, { tag: "XMP-dc:Subject", operation: "remove", value: s + "x" }]),
                editCollection: () => f.et.editTags(file, [{ tag: s, operation: "add", value: "x" }]),
                numericTag: () => f.et.read(file, { numericTags: [s] }),
                argument: () => f.et.read(file, { readArgs: [s] }),
                retain: () => f.et.deleteAllTags(file, { retain: [s] }),
              })[c.how](),
            fixed,
          );
          t.nontrivial();
        },
      });
    await ctx.prop("tag-database", {
      runs: [400, 6000],
      arb: fc.record({ p: pumped, escape: fc.boolean(), where: fc.constantFrom("desc", "name", "between") }),
      async check(c, t) {
        await bounded(
          c.p,
          `tag database with odd ${c.where}`,
          async (s) => {
              const x = c.escape ? s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;") : s;
              const tag = (name, d, extra = "") => ` <tag id='1' name='${name}' type='string' writable='true'>\n${extra}  <desc lang='en'>${d}</desc>\n </tag>\n`;
              const xml = `<?xml version='1.0' encoding='UTF-8'?>\n<taginfo>\n<table name='T' g0='A' g1='A' g2='A'>\n <desc lang='en'>T</desc>\n${tag("First", "one")}${c.where === "desc" ? tag("Odd", x) : c.where === "name" ? tag(x, "odd") : tag("Odd", "odd", x + "\n")}${tag("Last", "two")}</table>\n</taginfo>\n`;
              fs.writeFileSync(path.join(f.dir, "listx.ctl"), JSON.stringify({ stdout: xml }));
              const td = new L.TagDescriptions(f.et, { disableDiskCache: true });
              await td.getAll();
          },
          [32, 2048, 16384],
        );
        t.nontrivial();
      },
    });
    } finally {
      await f.end();
    }
  },
};
