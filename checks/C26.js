"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

// what each tag can hold: d(ate) f(raction) o(ffset) p(artial) t(ime)
const TAGS = {
  "EXIF:DateTimeOriginal": { read: "DateTimeOriginal", holds: "dt", files: ["jpg", "tif", "png"] },
  "EXIF:CreateDate": { read: "CreateDate", holds: "dt", files: ["jpg", "tif", "png"] },
  "EXIF:ModifyDate": { read: "ModifyDate", holds: "dt", files: ["jpg", "tif", "png"] },
  SubSecDateTimeOriginal: { read: ["SubSecDateTimeOriginal", "DateTimeOriginal"], holds: "dtfo", files: ["jpg", "tif"] },
  SubSecCreateDate: { read: ["SubSecCreateDate", "CreateDate"], holds: "dtfo", files: ["jpg", "tif"] },
  SubSecModifyDate: { read: ["SubSecModifyDate", "ModifyDate"], holds: "dtfo", files: ["jpg", "tif"] },
  "XMP:CreateDate": { read: "CreateDate", holds: "dtfop", files: ["xmp", "jpg", "png"] },
  "XMP-xmp:ModifyDate": { read: "ModifyDate", holds: "dtfop", files: ["xmp", "jpg", "png"] },
  "XMP:MetadataDate": { read: "MetadataDate", holds: "dtfop", files: ["xmp", "jpg", "png"] },
  "XMP-photoshop:DateCreated": { read: "DateCreated", holds: "dtfop", files: ["xmp", "jpg"] },
  "XMP-exif:DateTimeOriginal": { read: "DateTimeOriginal", holds: "dtfop", files: ["xmp", "jpg"] },
  "XMP-exif:DateTimeDigitized": { read: "DateTimeDigitized", holds: "dtfop", files: ["xmp", "jpg"] },
  "XMP-tiff:DateTime": { read: "DateTime", holds: "dtfop", files: ["xmp"] },
  "XMP-dc:Date": { read: "Date", holds: "dtfop", list: true, files: ["xmp", "jpg"] },
  "XMP-xmpMM:History": { read: "History", holds: "dtfop", struct: "When", files: ["xmp", "jpg"] },
  "IPTC:DateCreated": { read: "DateCreated", holds: "d", files: ["jpg"] },
  "IPTC:DigitalCreationDate": { read: "DigitalCreationDate", holds: "d", files: ["jpg"] },
  "EXIF:GPSDateStamp": { read: "GPSDateStamp", holds: "d", dateOnly: true, files: ["jpg"] },
  "IPTC:TimeCreated": { read: "TimeCreated", holds: "to", timeOnly: true, files: ["jpg"] },
  "IPTC:DigitalCreationTime": { read: "DigitalCreationTime", holds: "to", timeOnly: true, files: ["jpg"] },
  "EXIF:GPSTimeStamp": { read: "GPSTimeStamp", holds: "tf", utc: true, timeOnly: true, files: ["jpg"] },
};
// bare names are resolved by MWG rules, over EXIF (with sub-second and offset companions), IPTC and XMP
const BARE = ["DateTimeOriginal", "CreateDate", "ModifyDate"];

const OFFSETS = g.OFFSETS;
const ZONES = ["America/Los_Angeles", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "Asia/Kathmandu", "America/St_Johns", "UTC"];
const year = fc.oneof({ weight: 8, arbitrary: fc.integer({ min: 1900, max: 2099 }) }, { weight: 1, arbitrary: fc.integer({ min: 2, max: 9999 }) }, { weight: 1, arbitrary: fc.constantFrom(1000, 999, 99, 1582, 1969, 1970, 2038, 9999) });
const day = fc.record({ y: year, m: fc.integer({ min: 1, max: 12 }), d: fc.oneof(fc.integer({ min: 1, max: 31 }), fc.constantFrom(1, 28, 29, 30, 31)) }, { noNullPrototype: true }).map((x) => ({ ...x, d: Math.min(x.d, new Date(Date.UTC(2000 + (x.y % 400), x.m, 0)).getUTCDate()) }));
const clock = fc.record({ h: fc.oneof(fc.integer({ min: 0, max: 23 }), fc.constantFrom(0, 2, 12, 23)), mi: fc.oneof(fc.integer({ min: 0, max: 59 }), fc.constantFrom(0, 30, 59)), s: fc.oneof(fc.integer({ min: 0, max: 59 }), fc.constantFrom(0, 59)) }, { noNullPrototype: true });
const frac = fc.oneof({ weight: 3, arbitrary: fc.constant(null) }, { weight: 2, arbitrary: fc.constantFrom("0", "000", "1", "05", "050", "007", "999", "100") }, { weight: 2, arbitrary: fc.nat(999).map((n) => String(n).padStart(3, "0")) }, { weight: 1, arbitrary: fc.nat(999999).map((n) => String(n).padStart(6, "0")) });
const offset = fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: fc.constantFrom(...OFFSETS) });
const when = fc.record({ day, clock, frac, offset, z: fc.boolean() }, { noNullPrototype: true });
const form = fc.constantFrom("object", "object", "exif", "iso", "iso-blank", "parsed", "parsed-iso", "parsed-default", "revived", "zone");
const item = fc.record({ when, form, prec: fc.constantFrom("dt", "dt", "dt", "date", "date", "month", "year"), zone: fc.constantFrom(...ZONES), year: fc.boolean() }, { noNullPrototype: true });
const kindOf = (e) => fc.record({ tag: fc.constantFrom(...Object.keys(TAGS).filter((t) => TAGS[t].files.includes(e))), items: fc.array(item, { minLength: 1, maxLength: 3 }) }, { noNullPrototype: true });
const single = fc.constantFrom("jpg", "jpg", "xmp", "xmp", "tif", "png").chain((file) => fc.record({ file: fc.constant(file), writes: fc.array(kindOf(file), { minLength: 1, maxLength: 3 }).map((w) => w.filter((x, i) => w.findIndex((y) => slot(y.tag) === slot(x.tag)) === i)), again: fc.boolean(), first: fc.option(item, { freq: 3 }) }, { noNullPrototype: true }));
// tags that read back under one name, or share one underlying field
function slot(tag) {
  const r = TAGS[tag].read;
  const n = Array.isArray(r) ? r[1] : r;
  return { DateTimeDigitized: "CreateDate", DateTime: "ModifyDate" }[n] ?? n;
}
const p2 = (n) => String(n).padStart(2, "0");
const p4 = (n) => String(n).padStart(4, "0");
const off = (o) => (o < 0 ? "-" : "+") + p2(Math.floor(Math.abs(o) / 60)) + ":" + p2(Math.abs(o) % 60);

module.exports = {
  id: "C26",
  level: "exploration",
  quickScale: 2,
  technique: "property-based round-trip testing through the real exiftool: generated dates, times and partial dates written in several forms and read back, against the generated fields",
  shards: 8,
  rule:
    "Dates (years 2-9999), times, fractions of 1-6 digits, recognised offsets, and partial dates are generated and given to write() as library objects (constructed, parsed with or without a default zone, revived from JSON, or from an instant in an IANA zone), EXIF text or ISO text, for EXIF, sub-second composite, XMP (scalar, list, inside a structure), IPTC and GPS date and time tags of JPEG, TIFF, PNG and XMP files, 1-3 tags per call, optionally over earlier values; bare names are also written under MWG rules. Oracle: the generated fields, restricted to what the tag can hold. Then the values read are written again and must come back identical, other tags included. Non-trivial: a fraction, an offset, a partial date, a list or a structure survives.",
  assumptions: ["excluded: date forms the tag does not document (partial dates outside XMP, ISO text with an offset in GPSDateStamp, zoneless IPTC times, whose zone exiftool takes from the system), years 0 and 1, offsets with seconds, instants in IANA zones before 1990", "a year-only XMP date may come back as a number", "library objects have millisecond precision: written back, finer fractions are cut to it"],
  async run(ctx) {
    const u = ctx.u;
    const { ExifDateTime, ExifDate, ExifTime, parseJSON } = ctx.lib;
    const zoneName = (O) => (O == null ? undefined : O === 0 ? "UTC" : `UTC${O < 0 ? "-" : "+"}${Math.floor(Math.abs(O) / 60)}${O % 60 ? ":" + p2(Math.abs(O) % 60) : ""}`);
    const { tiff } = require("../lib/files");
    const luxon = require(path.join(process.env.VERIF_REPO || "/repo", "node_modules/luxon"));
    const TIFF = tiff({ ifd0: [[256, 3, 1], [257, 3, 1], [258, 3, 8], [259, 3, 1], [262, 3, 1], [273, 4, { data: Buffer.from([0x55, 0x55]) }], [277, 3, 1], [278, 3, 1], [279, 4, 1]] });
    const plain = u.real({ useMWG: false, backfillTimezones: false });
    const mwg = u.real({});
    const dir = path.join(ctx.scratch, "c26");
    fs.mkdirSync(dir);
    let n = 0;
    const fresh = (ext) => {
      const f = path.join(dir, ++n + "." + ext);
      const bytes = { jpg: u.JPEG, png: u.PNG, xmp: u.XMP, tif: TIFF }[ext];
      fs.writeFileSync(f, bytes);
      return f;
    };

    /** -> { value to write, fields: {year?,month?,day?,hour?,minute?,second?,frac?,offset?} } or null when the form does not apply */
    function make(it, spec, offsetNeeded) {
      const { day: D, clock: C, z } = it.when;
      let { frac: F, offset: O } = it.when;
      if (!spec.holds.includes("o") && spec.dateOnly) O = null;
      if (offsetNeeded && O == null) O = 0;
      let prec = it.prec;
      if (spec.timeOnly) prec = "time";
      else if (spec.dateOnly) prec = "date";
      else if (!spec.holds.includes("p") && (prec === "month" || prec === "year" || (prec === "date" && spec.holds.includes("t")))) prec = spec.holds.includes("t") ? "dt" : "date";
      const zs = O == null ? "" : O === 0 && z ? "Z" : off(O);
      const ms = F == null ? undefined : Number((F + "000").slice(0, 3));
      const hms = `${p2(C.h)}:${p2(C.mi)}:${p2(C.s)}`;
      const fs_ = F == null ? "" : "." + F;
      const f3 = F == null ? null : (F + "000").slice(0, 3);
      const date = { year: D.y, month: D.m, day: D.d };
      const clock = { hour: C.h, minute: C.mi, second: C.s };
      if (prec === "year") {
        const value = it.form === "object" ? new ExifDate(D.y) : it.form.startsWith("parsed") ? ExifDate.fromYear(p4(D.y)) : it.year && D.y >= 1000 ? D.y : p4(D.y);
        return { value, cls: "date", fields: { year: D.y } };
      }
      if (prec === "month") {
        const value = it.form === "object" ? new ExifDate(D.y, D.m) : it.form.startsWith("parsed") ? ExifDate.fromYearMonth(`${p4(D.y)}-${p2(D.m)}`) : `${p4(D.y)}${it.form === "exif" ? ":" : "-"}${p2(D.m)}`;
        return { value, cls: "date", fields: { year: D.y, month: D.m } };
      }
      if (prec === "date") {
        const iso = `${p4(D.y)}-${p2(D.m)}-${p2(D.d)}`;
        const value = it.form === "object" ? new ExifDate(D.y, D.m, D.d) : it.form === "parsed" ? ExifDate.from(iso.replace(/-/g, ":")) : it.form === "parsed-iso" || it.form === "parsed-default" ? ExifDate.from(iso) : it.form === "revived" ? parseJSON(JSON.stringify(ExifDate.from(iso))) : it.form === "exif" ? iso.replace(/-/g, ":") : iso;
        return { value, cls: "date", fields: date };
      }
      if (prec === "time") {
        const text = hms + fs_ + zs;
        const zone = zoneName(O);
        if (it.form === "parsed-default" && O != null) return { value: ExifTime.fromEXIF(hms + fs_, zone), cls: "time", fields: { ...clock, frac: f3, offset: O } };
        if (it.form === "revived") return { value: parseJSON(JSON.stringify(ExifTime.fromEXIF(text))), cls: "time", fields: { ...clock, frac: f3, offset: O } };
        if (it.form === "object" || it.form === "zone") return { value: new ExifTime(C.h, C.mi, C.s, ms, undefined, zone), cls: "time", fields: { ...clock, frac: f3, offset: O } };
        if (it.form.startsWith("parsed")) return { value: ExifTime.fromEXIF(text), cls: "time", fields: { ...clock, frac: f3, offset: O } };
        return { value: text, cls: "time", fields: { ...clock, frac: F, offset: O } };
      }
      if (it.form === "zone") {
        // an instant in an IANA zone
        const y = 1990 + (D.y % 45); // (some earlier offsets are archaic, and not recognised by default)
        const dt = luxon.DateTime.fromMillis(Date.UTC(y, D.m - 1, D.d, C.h, C.mi, C.s, ms ?? 0), { zone: it.zone });
        return { value: ExifDateTime.fromMillis(dt.toMillis(), { zone: it.zone }), cls: "dt", fields: { year: dt.year, month: dt.month, day: dt.day, hour: dt.hour, minute: dt.minute, second: dt.second, frac: String(dt.millisecond).padStart(3, "0"), offset: dt.offset } };
      }
      const fields = { ...date, ...clock, frac: F, offset: O };
      // (the zone is inferred from a default)
      if (it.form === "parsed-default" && O != null) return { value: ExifDateTime.fromEXIF(`${p4(D.y)}:${p2(D.m)}:${p2(D.d)} ${hms}${fs_}`, zoneName(O)), cls: "dt", fields: { ...fields, frac: f3 } };
      if (it.form === "object") return { value: new ExifDateTime(D.y, D.m, D.d, C.h, C.mi, C.s, ms, O ?? undefined), cls: "dt", fields: { ...fields, frac: f3 } };
      const exif = `${p4(D.y)}:${p2(D.m)}:${p2(D.d)} ${hms}${fs_}${zs}`;
      const iso = `${p4(D.y)}-${p2(D.m)}-${p2(D.d)}T${hms}${fs_}${zs}`;
      if (it.form === "exif") return { value: exif, cls: "dt", fields };
      if (it.form === "iso") return { value: iso, cls: "dt", fields };
      if (it.form === "iso-blank") return { value: iso.replace("T", " "), cls: "dt", fields };
      if (it.form === "revived") return { value: parseJSON(JSON.stringify(ExifDateTime.fromEXIF(exif))), cls: "dt", fields: { ...fields, frac: f3 } };
      return { value: it.form.startsWith("parsed") && it.form !== "parsed-iso" ? ExifDateTime.fromEXIF(exif) : ExifDateTime.fromISO(iso), cls: "dt", fields: { ...fields, frac: f3 } };
    }
    /** What must be read back of x from a tag that holds these parts. */
    function expect(x, spec) {
      const f = { ...x.fields };
      let cls = x.cls;
      const h = spec.holds;
      if (!h.includes("t") && cls === "dt") {
        cls = "date";
        for (const k of ["hour", "minute", "second", "frac", "offset"]) delete f[k];
      }
      if (spec.utc && f.offset != null) {
        const m = (((f.hour * 60 + f.minute - f.offset) % 1440) + 1440) % 1440;
        f.hour = Math.floor(m / 60);
        f.minute = m % 60;
      }
      if (!h.includes("f")) f.frac = null;
      if (!h.includes("o")) f.offset = null;
      return { cls, fields: f };
    }
    function judge(got, want, spec, what) {
      const f = want.fields;
      if (want.cls === "date") {
        if (f.month == null && typeof got === "number") return u.eq(got, f.year, what);
        u.ok(got instanceof ExifDate, () => `${what}: got ${u.show(got)}, expected a date`);
        return u.eq([got.year, got.month, got.day], [f.year, f.month, f.day], `${what}: fields`);
      }
      u.ok(got instanceof (want.cls === "dt" ? ExifDateTime : ExifTime), () => `${what}: got ${u.show(got)}, expected a ${want.cls}`);
      if (want.cls === "dt") u.eq([got.year, got.month, got.day], [f.year, f.month, f.day], `${what}: date`);
      u.eq([got.hour, got.minute, got.second], [f.hour, f.minute, f.second], `${what}: time`);
      const ms = f.frac == null ? undefined : Number((f.frac + "000").slice(0, 3));
      if (ms) u.eq(got.millisecond, ms, `${what}: millisecond`);
      else u.ok(!got.millisecond, () => `${what}: millisecond is ${got.millisecond}`);
      if (want.cls === "dt") u.eq(got.tzoffsetMinutes, f.offset ?? undefined, `${what}: offset`);
      else if (!spec.utc) u.ok(new RegExp((f.offset === 0 ? "(Z|[+-]00:00)" : "\\" + off(f.offset)) + "$").test(got.toString()), () => `${what}: ${got} should have offset ${off(f.offset)}`);
    }
    const flat = (tags) => {
      const o = {};
      for (const [k, v] of Object.entries(tags)) if (!/^(File|SourceFile|Directory|ExifToolVersion|errors|warnings|StripOffsets|XMPToolkit|CurrentIPTCDigest|SubSecTime)/.test(k)) o[k] = plainOf(v);
      return o;
    };
    const plainOf = (v) => (Array.isArray(v) ? v.map(plainOf) : v instanceof ExifDateTime || v instanceof ExifDate || v instanceof ExifTime ? { ...v.toJSON(), rawValue: undefined, is: v.toString() } : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, plainOf(x)])) : typeof v === "string" ? v.replace(/(:\d\d\.\d{3})\d+/g, "$1") : v);

    try {
      await ctx.prop("tags-with-groups", {
        runs: [2400, 60000],
        arb: single,
        async check({ file, writes, again, first }, t) {
          const f = fresh(file);
          try {
            const tags = {};
            const wants = [];
            const what0 = [];
            for (const w of writes) {
              const spec = TAGS[w.tag];
              const needOff = spec.timeOnly && spec.holds.includes("o");
              const items = (spec.list || spec.struct ? w.items : w.items.slice(0, 1)).map((it) => make(it, spec, needOff));
              const bad = items.find((x) => x.value == null);
              if (bad) ctx.fail(`${w.tag}: the library could not parse a date with fields ${u.show(bad.fields)}`);
              tags[w.tag] = spec.struct ? items.map((x, i) => ({ Action: "a" + i, [spec.struct]: x.value })) : spec.list && items.length > 1 ? items.map((x) => x.value) : items[0].value;
              wants.push({ w, spec, items });
              if (items.some((x) => x.fields.frac || x.fields.offset != null || x.fields.day == null) || spec.list || spec.struct) t.nontrivial();
              t.label(w.tag);
            }
            if (first) {
              const over = {};
              for (const { w, spec } of wants) if (!spec.struct) over[w.tag] = make(first, spec, spec.timeOnly && spec.holds.includes("o")).value;
              await plain.write(f, over, { writeArgs: ["-overwrite_original"] });
              what0.push("over " + u.show(over));
            }
            const at = `write(${u.show(tags)}) to ${file} ${what0}`;
            const r = await u.settles(plain.write(f, tags, { writeArgs: ["-overwrite_original"] }), at);
            u.ok(r.ok, () => `${at} rejected: ${r.error}`);
            u.eq(r.value.warnings, undefined, `${at}: warnings`);
            const got = await plain.read(f);
            for (const { w, spec, items } of wants) {
              const names = [].concat(spec.read);
              let v = got[names.find((k) => got[k] !== undefined) ?? names[0]];
              const what = `${at}: ${w.tag}`;
              if (spec.list || spec.struct) {
                v = [].concat(v);
                u.eq(v.length, items.length, `${what}: number of items in ${u.show(v)}`);
              } else v = [v];
              items.forEach((x, i) => judge(spec.struct ? v[i]?.[spec.struct] : v[i], expect(x, spec), spec, `${what} [${i}]`));
            }
            if (again) {
              // writing what was read changes nothing
              const back = {};
              for (const { w, spec } of wants) {
                const names = [].concat(spec.read);
                back[w.tag] = got[names.find((k) => got[k] !== undefined)];
              }
              const r2 = await u.settles(plain.write(f, back, { writeArgs: ["-overwrite_original"] }), at);
              u.ok(r2.ok, () => `${at}, then write back of ${u.show(back)} rejected: ${r2.error}`);
              u.eq(r2.value.warnings, undefined, `${at}, then write back: warnings`);
              const now = flat(await plain.read(f));
              const was = flat(got);
              for (const k of new Set([...Object.keys(was), ...Object.keys(now)])) u.eq(now[k], was[k], `${at}, then written back ${u.show(back)}: ${k}`);
            }
          } finally {
            fs.rmSync(f, { force: true });
          }
        },
      });
      await ctx.prop("bare-names-under-mwg", {
        runs: [1000, 30000],
        arb: fc.record({ file: fc.constantFrom("jpg", "tif", "xmp"), tag: fc.constantFrom(...BARE, "AllDates"), it: item, first: fc.option(item, { freq: 3 }) }, { noNullPrototype: true }),
        async check({ file, tag, it, first }, t) {
          const f = fresh(file);
          try {
            const spec = { holds: "dtfo" };
            const x = make(it, spec);
            if (first) await mwg.write(f, { [tag]: make(first, spec).value }, { writeArgs: ["-overwrite_original"] });
            const at = `write({${tag}: ${u.show(x.value)}}) to ${file}${first ? " over an earlier value" : ""}`;
            const r = await u.settles(mwg.write(f, { [tag]: x.value }, { writeArgs: ["-overwrite_original"] }), at);
            u.ok(r.ok, () => `${at} rejected: ${r.error}`);
            const got = await mwg.read(f);
            for (const k of tag === "AllDates" ? BARE : [tag]) {
              const want = expect(x, spec);
              judge(got[k], want, spec, `${at}: ${k}`);
            }
            if (x.fields.frac || x.fields.offset != null) t.nontrivial();
          } finally {
            fs.rmSync(f, { force: true });
          }
        },
      });
    } finally {
      await plain.end();
      await mwg.end();
    }
  },
};
