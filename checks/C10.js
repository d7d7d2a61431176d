"use strict";
const g = require("../lib/gens");
const { fc } = g;

module.exports = {
  id: "C10",
  level: "exploration",
  quickScale: 4,
  shards: 8,
  rule:
    "Trees of plain JSON values, date/time/binary objects (built from text, instants, arithmetic and zone changes) and malformed-UTF-8 byte maps are serialised with JSON.stringify and revived with parseJSON, and whole results of read() over generated metadata likewise. Oracle: structural equality plus every rendering, instant and zone accessor of each object. Non-trivial: the tree holds at least one library object or byte array.",
  assumptions: ["plain values are restricted to what JSON itself preserves (no -0, NaN, undefined array items)"],
  async run(ctx) {
    const { ExifDateTime, ExifDate, ExifTime, BinaryField, parseJSON } = ctx.lib;
    const u = ctx.u;
    const p2 = (n) => g.pad(n, 2);
    const zoneTxt = fc.oneof({ weight: 1, arbitrary: fc.constant("") }, { weight: 2, arbitrary: g.offsetMin.map((o) => g.offStr(o)) }, { weight: 1, arbitrary: fc.constant("Z") });
    const dtText = fc.tuple(g.dt, g.fraction, zoneTxt).map(([f, fr, z]) => `${g.pad(f.year, 4)}:${p2(f.month)}:${p2(f.day)} ${p2(f.hour)}:${p2(f.minute)}:${p2(f.second)}${fr == null ? "" : "." + fr}${z}`);
    const defZone = fc.oneof(fc.constant(undefined), g.iana, g.offsetMin.map(g.zoneName));
    const edt = fc.oneof(
      { weight: 3, arbitrary: fc.record({ k: fc.constant("dt"), s: dtText, z: defZone }) },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("millis"), ms: fc.integer({ min: -2e12, max: 4e12 }), z: fc.oneof(g.iana, g.offsetMin.map(g.zoneName)) }) },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("shift"), s: dtText, z: fc.oneof(g.iana, g.offsetMin.map(g.zoneName)), keep: fc.boolean(), ms: fc.integer({ min: -1e9, max: 1e9 }) }) },
    );
    const leafSpec = fc.oneof(
      { weight: 3, arbitrary: edt },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("date"), s: fc.oneof(g.ymd.map((f) => `${g.pad(f.year, 4)}:${p2(f.month)}:${p2(f.day)}`), g.ymd.map((f) => `${g.pad(f.year, 4)}:${p2(f.month)}`), g.ymd.map((f) => `${g.pad(f.year, 4)}`)) }) },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("time"), s: fc.tuple(g.hms, g.fraction, zoneTxt).map(([f, fr, z]) => `${p2(f.hour)}:${p2(f.minute)}:${p2(f.second)}${fr == null ? "" : "." + fr}${z}`), z: fc.oneof(fc.constant(undefined), g.offsetMin.map(g.zoneName)) }) },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("bin"), n: fc.oneof(fc.nat(1e6), fc.integer({ min: 0, max: 9999999999 })) }) },
      // built field by field, with no source text
      { weight: 1, arbitrary: fc.record({ k: fc.constant("new-date"), f: g.ymd, has: fc.integer({ min: 1, max: 3 }) }) },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("new-time"), f: g.hms, ms: fc.option(fc.nat(999), { nil: undefined }), z: fc.oneof(fc.constant(undefined), g.offsetMin.map(g.zoneName)), inferred: fc.constantFrom(undefined, true, false) }) },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("new-dt"), f: g.dt, ms: fc.option(fc.nat(999), { nil: undefined }), o: fc.option(g.offsetMin, { nil: undefined }), inferred: fc.constantFrom(undefined, true, false) }) },
    );
    const make = (s) => {
      switch (s.k) {
        case "dt":
          return ExifDateTime.from(s.s, s.z);
        case "millis":
          return ExifDateTime.fromMillis(s.ms, { zone: s.z });
        case "shift":
          return ExifDateTime.from(s.s).setZone(s.z, { keepLocalTime: s.keep })?.plus({ milliseconds: s.ms });
        case "date":
          return ExifDate.from(s.s);
        case "time":
          return ExifTime.fromEXIF(s.s, s.z);
        case "new-date":
          return new ExifDate(s.f.year, s.has > 1 ? s.f.month : undefined, s.has > 2 ? s.f.day : undefined);
        case "new-time":
          return new ExifTime(s.f.hour, s.f.minute, s.f.second, s.ms, undefined, s.z, s.inferred);
        case "new-dt":
          return new ExifDateTime(s.f.year, s.f.month, s.f.day, s.f.hour, s.f.minute, s.f.second, s.ms, s.o, undefined, s.o == null ? undefined : g.zoneName(s.o), s.inferred);
        default:
          if (s.n % 2) return BinaryField.fromRawValue(`(Binary data ${s.n} bytes, use -b option to extract)`);
          return new BinaryField(s.n, `(Binary data ${s.n} bytes, use -b option to extract)`);
      }
    };
    const same = (a, b, what) => {
      u.eq(b?.constructor?.name, a.constructor.name, `${what}: type of revived ${u.show(a)}`);
      u.ok(Object.getPrototypeOf(b) === Object.getPrototypeOf(a), `${what}: prototype`);
      u.eq(b.toJSON(), a.toJSON(), `${what}: fields`);
      if (a instanceof ExifDateTime) {
        for (const k of ["hasZone", "zone", "zoneName", "tzoffsetMinutes", "inferredZone", "millisecond", "rawValue", "isValid"]) u.eq(b[k], a[k], `${what}: ${k}`);
        for (const k of ["toISOString", "toExifString", "toString", "toMillis", "toEpochSeconds"]) u.eq(b[k](), a[k](), `${what}: ${k}()`);
        u.eq(b.toDate().getTime(), a.toDate().getTime(), `${what}: toDate()`);
        u.eq(b.toDateTime().toMillis(), a.toDateTime().toMillis(), `${what}: toDateTime()`);
      } else if (a instanceof ExifDate) {
        for (const k of ["toISOString", "toExifString", "toMillis", "isPartial"]) u.eq(b[k](), a[k](), `${what}: ${k}()`);
        u.eq(b.rawValue, a.rawValue, `${what}: rawValue`);
      } else if (a instanceof ExifTime) {
        u.eq([b.toString(), b.zone, b.hasZone, b.inferredZone, b.rawValue], [a.toString(), a.zone, a.hasZone, a.inferredZone, a.rawValue], what);
      } else u.eq([b.bytes, b.rawValue], [a.bytes, a.rawValue], what);
    };
    const isObj = (x) => x instanceof ExifDateTime || x instanceof ExifDate || x instanceof ExifTime || x instanceof BinaryField;
    const deep = (a, b, what) => {
      if (isObj(a)) return same(a, b, what);
      if (a instanceof Uint8Array) {
        u.ok(b instanceof Uint8Array, `${what}: revived as bytes`);
        return u.eq([...b], [...a], `${what}: bytes`);
      }
      if (a && typeof a === "object") {
        u.eq(Array.isArray(b), Array.isArray(a), `${what}: array-ness`);
        u.ok(b && typeof b === "object", `${what}: container`);
        u.eq(Object.keys(b).sort(), Object.keys(a).filter((k) => a[k] !== undefined).sort(), `${what}: keys`);
        for (const k of Object.keys(b)) deep(a[k], b[k], what + "." + k);
        return;
      }
      u.eq(b, a, what);
    };

    await ctx.prop("object-roundtrip", {
      runs: [12000, 300000],
      arb: leafSpec,
      check(s, t) {
        const a = make(s);
        if (a == null) return t.label("not constructible (skipped)");
        t.nontrivial();
        t.label("kind:" + s.k);
        const b = parseJSON(JSON.stringify(a));
        same(a, b, `parseJSON(JSON.stringify(${u.show(s)}))`);
        same(a, parseJSON(JSON.stringify(b)), "second round trip");
        same(a, a.constructor.fromJSON(JSON.parse(JSON.stringify(a))), "fromJSON");
      },
    });

    const plain = fc.oneof(fc.string({ unit: "grapheme", maxLength: 10 }), fc.integer(), fc.double({ noNaN: true, noDefaultInfinity: true }).map((d) => (d === 0 ? 0 : d)), fc.boolean(), fc.constant(null), fc.constantFrom("_ctor", "ExifDateTime", "__proto__"));
    const keyArb = fc.oneof({ weight: 4, arbitrary: fc.constantFrom("Artist", "CreateDate", "RegionInfo", "History", "When", "0", "constructor", "toString") }, { weight: 1, arbitrary: fc.string({ unit: "grapheme", maxLength: 6 }).filter((k) => k !== "_ctor" && k !== "__proto__" && k !== "invalidUtf8Bytes" && k !== "toJSON") });
    const tree = fc.letrec((tie) => ({
      n: fc.oneof({ depthSize: "small", withCrossShrink: true }, { weight: 3, arbitrary: plain.map((v) => ({ v })) }, { weight: 3, arbitrary: leafSpec.map((o) => ({ o })) }, { weight: 2, arbitrary: fc.array(tie("n"), { maxLength: 4 }).map((a) => ({ a })) }, { weight: 2, arbitrary: fc.array(fc.tuple(keyArb, tie("n")), { maxLength: 4 }).map((d) => ({ d })) }),
    })).n;
    const bytesTree = fc.letrec((tie) => ({
      n: fc.array(fc.tuple(fc.constantFrom("Artist", "Title", "0", "1", "RegionInfo", "Name"), fc.oneof({ depthSize: "small" }, fc.uint8Array({ minLength: 1, maxLength: 6 }), tie("n"))), { minLength: 1, maxLength: 3 }).map((e) => Object.fromEntries(e)),
    })).n;
    const realise = (n) => ("v" in n ? n.v : "o" in n ? (make(n.o) ?? null) : "a" in n ? n.a.map(realise) : Object.fromEntries(n.d.map(([k, x]) => [k, realise(x)])));
    await ctx.prop("tree-roundtrip", {
      runs: [6000, 150000],
      arb: fc.record({ root: tree, bytes: fc.option(bytesTree, { nil: undefined }) }),
      check({ root, bytes }, t) {
        const a = { tags: realise(root) };
        if (bytes) a.invalidUtf8Bytes = bytes;
        t.nontrivial(bytes != null || JSON.stringify(a).includes("_ctor"));
        deep(a, parseJSON(JSON.stringify(a)), "tree");
        deep(a, parseJSON(JSON.stringify(a, null, 2)), "indented tree");
      },
    });

    await ctx.prop("foreign-json", {
      runs: [4000, 100000],
      arb: fc.record({ c: fc.oneof(fc.constantFrom("toString", "__proto__", "constructor", "hasOwnProperty", "valueOf", "Date", "", "exifdate"), fc.string({ maxLength: 8 }), fc.integer(), fc.constant(null)), rest: fc.dictionary(fc.constantFrom("a", "year", "rawValue"), plain, { maxKeys: 2 }), in: fc.constantFrom("root", "array", "prop") }),
      check({ c, rest, in: where }, t) {
        if (["ExifDateTime", "ExifDate", "ExifTime", "BinaryField"].includes(c)) return;
        t.nontrivial();
        const o = { _ctor: c, ...rest };
        const a = where === "root" ? o : where === "array" ? [o] : { x: o };
        const s = JSON.stringify(a);
        u.eq(parseJSON(s), JSON.parse(s), `parseJSON(${s}) leaves foreign objects alone`);
      },
    });

    const f = u.fake({ geoTz: () => undefined });
    const tagVal = fc.oneof(dtText, g.ymd.map((x) => `${g.pad(x.year, 4)}:${p2(x.month)}:${p2(x.day)}`), fc.string({ unit: "grapheme", maxLength: 8 }), fc.integer(), fc.constant("(Binary data 123 bytes, use -b option to extract)"));
    await ctx.prop("read-result-roundtrip", {
      runs: [2000, 40000],
      arb: fc.record({
        tags: fc.dictionary(fc.constantFrom("CreateDate", "DateTimeOriginal", "GPSTimeStamp", "ModifyDate", "Artist", "PreviewImage", "SubSecCreateDate", "GPSDateStamp"), tagVal, { minKeys: 1, maxKeys: 6 }),
        hist: fc.array(fc.record({ When: dtText, Action: fc.string({ maxLength: 4 }) }), { maxLength: 2 }),
        off: fc.option(g.offsetMin.map((o) => g.offStr(o)), { nil: undefined }),
        bad: fc.option(fc.uint8Array({ minLength: 1, maxLength: 5 }), { nil: undefined }),
      }),
      async check({ tags, hist, off, bad }, t) {
        t.nontrivial();
        const raw = { ...tags, History: hist, OffsetTimeOriginal: off };
        if (bad) raw.Comment = { __etvInvalidUtf8V1: { replacement: "s:\ufffd", rawBase64: "b64:" + Buffer.from(bad).toString("base64") } };
        const r = await u.settles(f.et.read(f.tagsFile(raw)), "read");
        u.ok(r.ok, () => `read rejected: ${r.error}`);
        if (bad) {
          t.label("with malformed bytes");
          u.ok(r.value.invalidUtf8Bytes?.Comment instanceof Uint8Array, "bytes are exposed");
        }
        deep(r.value, parseJSON(JSON.stringify(r.value)), "tags");
      },
    });
    await f.end();
  },
};
