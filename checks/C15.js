"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

const edges = [0, 1, 0.5, 1e-6, 2e-6, 1e-7, 1.5e-8, 1e-12, 0.1, 12.3456789, 45, 59.99999999, 30.000001, 7.1e-5];
const coord = (max) =>
  fc.tuple(fc.oneof({ weight: 3, arbitrary: fc.double({ min: 0, max, noNaN: true }) }, { weight: 2, arbitrary: fc.constantFrom(...edges, max, max - 1e-7, max / 2) }, { weight: 1, arbitrary: fc.nat(max) }, { weight: 2, arbitrary: fc.nat(max * 1e6).map((n) => n / 1e6) }, { weight: 1, arbitrary: fc.nat(max * 3600 - 1).map((n) => n / 3600) }), fc.boolean()).map(([v, neg]) => (neg && v !== 0 ? -v : v));
const alt = fc.tuple(fc.oneof(fc.double({ min: 0, max: 100000, noNaN: true }), fc.constantFrom(...edges, 8848.86, 10994, 0.001, 1e5, 123456.789, 0.3), fc.nat(100000).map((n) => n / 100)), fc.boolean()).map(([v, neg]) => (neg && v !== 0 ? -v : v));
const field = (a) => fc.oneof({ weight: 5, arbitrary: a.map((v) => ({ v })) }, { weight: 2, arbitrary: fc.constant({ v: null }) }, { weight: 3, arbitrary: fc.constant(undefined) });
const write = fc
  .record(
    {
      op: fc.constant("write"),
      lat: field(coord(90)),
      lon: field(coord(180)),
      alt: field(alt),
      refs: fc.constantFrom(null, null, null, null, "short", "long"),
      extra: fc.constantFrom(null, null, "Title", "GPSImgDirection", "Label", "GPSDOP"),
      order: fc.nat(5),
    },
    { noNullPrototype: true },
  )
  .filter((w) => w.lat || w.lon || w.alt);
const history = fc.record(
  {
    kind: fc.constantFrom("jpg", "jpg", "png", "xmp", "xmp-new", "mie", "jpg+xmp", "jpg+xmp", "tif"),
    before: fc.record({ lat: fc.option(coord(90)), lon: fc.option(coord(180)), alt: fc.option(alt), others: fc.boolean() }, { noNullPrototype: true }),
    ops: fc.array(write, { minLength: 1, maxLength: 4 }),
    geo: fc.constantFrom(false, false, false, true),
    mwg: fc.constantFrom(undefined, undefined, false, true),
    struct: fc.constantFrom(undefined, undefined, 0, 1),
  },
  { noNullPrototype: true },
);
const isZero = (v) => v == null || Math.abs(v) < 1.1e-6;
const REFS = { lat: ["N", "S", "North", "South"], lon: ["E", "W", "East", "West"], alt: ["Above Sea Level", "Below Sea Level", "Above Sea Level", "Below Sea Level"] };
const TAG = { lat: "GPSLatitude", lon: "GPSLongitude", alt: "GPSAltitude" };
const COORDS = /^(GPS(Latitude|Longitude|Altitude)(Ref)?|GPSPosition|GPSVersionID)$/;
const VOLATILE = /^(File|Directory|SourceFile|ExifToolVersion|errors|warnings|Geolocation|tz|XMPToolkit|YCbCrPositioning|[XY]?Resolution(Unit)?|ExifByteOrder|ExifVersion|ComponentsConfiguration|FlashpixVersion|ColorSpace|zone|invalidUtf8Bytes|Software|CurrentIPTCDigest|IPTCDigest|MIEVersion|StripOffsets|Warning$)/;

module.exports = {
  id: "C15",
  level: "exploration",
  technique: "stateful property-based testing through the real exiftool: generated write/delete histories of signed coordinates against a three-variable model, with round-trip, frame and no-mutation checks",
  shards: 8,
  rule:
    "Histories of 1-4 write() calls set, change or delete (null) latitude, longitude and altitude, separately or together and in any key order, with signed values over the whole range (boundaries, minute and second multiples, microdegrees, magnitudes down to 1e-12), with and without consistent explicit references and other tags, on JPEG, TIFF, PNG, MIE and XMP files, new or holding EXIF and XMP coordinates and other GPS tags. After each call the file is read back (also from a second, grouped view) and compared with a model of the three values; references must agree with signs, GPSPosition must exist exactly when both coordinates do, all other tags must be as before, and the frozen object passed in must be unchanged. Non-trivial: a negative value or a deletion is read back after an earlier state with a coordinate.",
  assumptions: ["coordinates are compared within half a microdegree (read() rounds to six decimals), altitudes within one part in 10^7 (and 1e-9 m)", "explicit references that contradict the sign of the number are not generated", "the zero-zero filter is switched off, so that (0,0) is a position", "MIE stores a lone signed coordinate without a reference", "a number with more than 16 decimals may come back as decimal text (exiftool's JSON renders it so)"],
  async run(ctx) {
    const u = ctx.u;
    const { tiff } = require("../lib/files");
    const TIFF = tiff({ ifd0: [[256, 3, 1], [257, 3, 1], [258, 3, 8], [259, 3, 1], [262, 3, 1], [273, 4, { data: Buffer.from([0x55, 0x55]) }], [277, 3, 1], [278, 3, 1], [279, 4, 1]] });
    const et = u.real({ ignoreZeroZeroLatLon: false });
    const dir = path.join(ctx.scratch, "c15");
    fs.mkdirSync(dir);
    let n = 0;
    try {
      const spec = {
        async check({ kind, before, ops, geo, mwg, struct }, t) {
          const ext = kind.startsWith("jpg") ? "jpg" : kind.startsWith("xmp") ? "xmp" : kind;
          const f = path.join(dir, ++n + "." + ext);
          const bytes = { jpg: u.JPEG, png: u.PNG, xmp: kind === "xmp" ? u.XMP : null, mie: null, tif: TIFF }[ext];
          if (bytes) fs.writeFileSync(f, bytes);
          const model = { lat: undefined, lon: undefined, alt: undefined };
          const opts = { writeArgs: ["-overwrite_original"], ...(mwg === undefined ? {} : { useMWG: mwg }), ...(struct === undefined ? {} : { struct }) };
          let exists = bytes != null;
          const raw = async (tags) => {
            const r = await et.write(f, tags, { writeArgs: ["-overwrite_original", "-n"] });
            exists = true;
            return r;
          };
          try {
            if (kind === "jpg+xmp") {
              // both blocks hold the same position, as Lightroom writes it
              const init = {};
              for (const k of ["lat", "lon", "alt"]) {
                const v = before[k];
                if (v == null) continue;
                model[k] = v;
                const s = Math.abs(v).toFixed(20);
                init["EXIF:" + TAG[k]] = s;
                init[`EXIF:${TAG[k]}Ref`] = k === "alt" ? (v < 0 ? 1 : 0) : REFS[k][v < 0 ? 1 : 0];
                init["XMP-exif:" + TAG[k]] = k === "alt" ? s : v.toFixed(20);
                if (k === "alt") init["XMP-exif:GPSAltitudeRef"] = v < 0 ? 1 : 0;
              }
              if (Object.keys(init).length) await raw(init);
            }
            if (kind === "mie") await raw({ "XMP-dc:Title": "keep" }); // a MIE file cannot be empty
            if (before.others && exists) await raw({ Title: "t", Subject: ["a", "b"], ...(ext === "xmp" ? { GPSImgDirection: 12.5, GPSDestLatitude: 3 } : { "EXIF:GPSImgDirection": 12.5, "EXIF:GPSDestLatitude": 3, "EXIF:GPSDestLatitudeRef": "S", "EXIF:GPSSatellites": "7", "EXIF:GPSDateStamp": "2020:01:02" }) });
            let frame = exists ? await others(f) : null;
            for (const [i, w] of ops.entries()) {
              const keys = [["lat", "lon", "alt"], ["lat", "alt", "lon"], ["lon", "lat", "alt"], ["lon", "alt", "lat"], ["alt", "lat", "lon"], ["alt", "lon", "lat"]][w.order];
              const tags = {};
              const had = { ...model };
              for (const k of keys) {
                if (!w[k]) continue;
                const v = w[k].v;
                tags[TAG[k]] = v;
                if (v != null && w.refs && !isZero(v) && k !== "alt") tags[TAG[k] + "Ref"] = REFS[k][(v < 0 ? 1 : 0) + (w.refs === "long" ? 2 : 0)];
                model[k] = v ?? undefined;
              }
              if (w.extra) tags[w.extra] = w.extra.startsWith("GPS") ? 3 + i : "x" + i;
              const at = `write ${i + 1} ${u.show(tags)} to ${kind}`;
              const copy = structuredClone(tags);
              Object.freeze(tags);
              if (!exists && Object.values(tags).every((v) => v === null)) continue; // nothing to create
              const r = await u.settles(et.write(f, tags, opts), at);
              u.ok(r.ok, () => `${at} rejected: ${r.error}`);
              exists = true;
              u.eq(tags, copy, `${at}: the caller's object`);
              u.eq(r.value.warnings, undefined, `${at}: warnings`);
              if (w.extra && frame) frame[w.extra] = tags[w.extra];
              const got = await et.read(f, { geolocation: geo });
              if (geo && got.GeolocationPosition !== undefined) {
                // known finding: the nearest city is more than one degree away, on the other side of the equator or meridian
                const city = String(got.GeolocationPosition).split(/[ ,]+/).map(Number);
                ["lat", "lon"].forEach((k, j) => {
                  const v = model[k];
                  if (v != null && Math.abs(got[TAG[k]] + v) < 6e-7 && !isZero(v) && Math.abs(city[j] - v) >= 1 && Math.abs(Math.abs(city[j]) - Math.abs(v)) < 1) ctx.fail(`${at}: ${TAG[k]} ${v} became ${got[TAG[k]]} because the nearest city is at ${got.GeolocationPosition}`, "geolocation-mirrored-city");
                });
              }
              const what = `${at}, before ${u.show(had)}, ${JSON.stringify(u.pick(got, Object.keys(got).filter((k) => COORDS.test(k))))}`;
              judge(got, what);
              frame ??= drop(got);
              u.eq(drop(got), frame, `${what}: other tags`);
              if (i === ops.length - 1) {
                const rr = await et.readRaw(f, { readArgs: ["-fast", "-n"] });
                if (model.lat != null) close(Number(rr.GPSLatitude), model.lat, 6e-7, `${what}: composite latitude`);
                if (model.lon != null) close(Number(rr.GPSLongitude), model.lon, 6e-7, `${what}: composite longitude`);
                if (model.alt != null) close(Number(rr.GPSAltitude), model.alt, 1e-9 + Math.abs(model.alt) * 1e-7, `${what}: composite altitude`);
              }
              const hadAny = Object.values(had).some((v) => v != null);
              if (Object.values(model).some((v) => v < 0) || (hadAny && [w.lat, w.lon, w.alt].some((x) => x && x.v === null))) t.nontrivial();
              t.label(kind);
            }
          } finally {
            fs.rmSync(f, { force: true });
          }
          function close(got, want, tol, what) {
            // exiftool renders numbers with more than 16 decimals as JSON text, and read() trusts it
            if (/^-?0\.\d{17,}$/.test(got)) got = Number(got);
            u.ok(typeof got === "number" && Math.abs(got - want) <= tol, () => `${what}: got ${u.show(got)}, wrote ${want}`);
          }
          function judge(got, what) {
            for (const k of ["lat", "lon", "alt"]) {
              const name = TAG[k];
              const v = model[k];
              if (v == null) {
                u.ok(got[name] === undefined && got[name + "Ref"] === undefined, () => `${what}: ${name} was not written or was deleted`);
                continue;
              }
              close(got[name], v, k === "alt" ? 1e-9 + Math.abs(v) * 1e-7 : 6e-7, `${what}: ${name}`);
              const ref = got[name + "Ref"];
              if (isZero(v) || (ext === "mie" && ref === undefined)) u.ok(ref === undefined || REFS[k].includes(ref), () => `${what}: ${name}Ref`);
              else u.ok(ref === REFS[k][v < 0 ? 1 : 0] || ref === REFS[k][v < 0 ? 3 : 2], () => `${what}: ${name}Ref is ${u.show(ref)} for ${v}`);
            }
            u.eq(got.GPSPosition !== undefined, model.lat != null && model.lon != null, `${what}: GPSPosition exists`);
            if (got.GPSPosition !== undefined) {
              const [a, b] = String(got.GPSPosition).split(" ").map(Number);
              close(a, model.lat, 6e-7, `${what}: GPSPosition`);
              close(b, model.lon, 6e-7, `${what}: GPSPosition`);
            }
          }
        },
      };
      await ctx.prop("write-read-histories", { runs: [2200, 60000], arb: history, ...spec });
      const remote = { kind: "jpg", before: { lat: null, lon: null, alt: null, others: false }, ops: [{ op: "write", lat: { v: -0.5 }, lon: { v: -58.15115 }, refs: null, extra: null, order: 0 }], geo: true };
      await ctx.prop("far-from-any-city", { runs: [1, 1], shards: 1, arb: fc.constant(remote), ...spec });
    } finally {
      await et.end();
    }
    function drop(tags) {
      const o = {};
      for (const [k, v] of Object.entries(tags)) if (!COORDS.test(k) && !VOLATILE.test(k)) o[k] = v && typeof v === "object" && v.rawValue !== undefined ? v.rawValue : v;
      return o;
    }
    async function others(f) {
      return drop(await et.read(f));
    }
  },
};
