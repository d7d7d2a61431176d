"use strict";
const fs = require("node:fs");
const path = require("node:path");
const util = require("node:util");
const g = require("../lib/gens");
const { fc } = g;

// Tags whose stored form is one value per name, by the group ExifTool reports.
const text = fc.array(fc.constantFrom("a", "Bc", " ", "é", "日本", "😀", ",", ";", "|", "[x]", "{ready}", "<b>", "$1", "%d", "=", "-all=", "\\", "'", '"', "@", "#", "(", "\n", "\t"), { minLength: 1, maxLength: 5 }).map((a) => "t" + a.join("") + "t");
const line = text.map((s) => s.replace(/[\n\t]/g, "_"));
// IPTC text is Latin: its character set is a tag of its own, deleted with the rest
const latin = line.map((s) => s.replace(/[^\x20-\xff]+/g, "ü"));
const list = fc.uniqueArray(line, { minLength: 1, maxLength: 4 });
const TAGS = {
  "IFD0:Artist": line,
  "IFD0:ImageDescription": line,
  "IFD0:Copyright": line,
  "IFD0:Software": line,
  "IFD0:Orientation": fc.constantFrom("Horizontal (normal)", "Rotate 90 CW", "Mirror horizontal and rotate 270 CW"),
  "ExifIFD:DateTimeOriginal": fc.constantFrom("2020:01:02 03:04:05", "1999:12:31 23:59:59"),
  "ExifIFD:ExposureTime": fc.constantFrom("1/250", "1/8000", "30"),
  "ExifIFD:FNumber": fc.constantFrom(2.8, 1.4, 11),
  "ExifIFD:OffsetTimeOriginal": fc.constantFrom("+02:00", "-03:30"),
  "GPS:GPSLatitude": fc.constantFrom(12.5, 0.25, 89),
  "GPS:GPSLatitudeRef": fc.constantFrom("North", "South"),
  "GPS:GPSAltitude": fc.constantFrom(5, 1234.5),
  "GPS:GPSAltitudeRef": fc.constantFrom("Above Sea Level", "Below Sea Level"),
  "IPTC:Keywords": fc.uniqueArray(latin, { minLength: 1, maxLength: 4 }),
  "IPTC:City": latin.map((s) => s.slice(0, 10)),
  "IPTC:Headline": latin,
  "XMP-dc:Title": text,
  "XMP-dc:Description": text,
  "XMP-dc:Subject": list,
  "XMP-dc:Creator": list,
  "XMP-xmp:Rating": fc.constantFrom(1, 3, 5),
  "XMP-xmp:Label": text,
  "XMP-photoshop:Headline": text,
  "XMP-photoshop:City": text,
  "XMP-lr:HierarchicalSubject": list,
  "XMP-mwg-coll:Collections": fc.array(fc.record({ CollectionName: line, CollectionURI: line }, { noNullPrototype: true }), { minLength: 1, maxLength: 2 }),
  "File:Comment": line,
};
const BY_KIND = { jpg: Object.keys(TAGS), xmp: Object.keys(TAGS).filter((k) => k.startsWith("XMP")), png: Object.keys(TAGS).filter((k) => /^(XMP|IFD0|ExifIFD|GPS)/.test(k)) };
// what exiftool adds or keeps by itself wherever a group exists
const IMPLIED = /^(SourceFile|System:|ExifTool:|errors|warnings|tz|zone|tzSource|Composite:|JFIF:|PNG:|PNG-pHYs:|File:(?!Comment)|Photoshop:|IFD0:(X|Y)Resolution|IFD0:ResolutionUnit|IFD0:YCbCrPositioning|ExifIFD:(ExifVersion|ComponentsConfiguration|ColorSpace|FlashpixVersion|ExifImage.*)|GPS:GPSVersionID|IPTC:(Envelope|Application)RecordVersion|IPTC:CodedCharacterSet|XMP-x:)/;
const globs = ["GPS:*", "XMP-dc:*", "XMP:all", "EXIF:all", "IPTC:*", "XMP-dc:*t*", "XMP-photoshop:?*", "IPTC:?i*", "IFD0:*t*", "ExifIFD:*Time*", "XMP-xmp:R*", "EXIF:*Ref", "XMP-photoshop:all", "GPS:GPS*"];
const family1 = (tag) => tag.slice(0, tag.indexOf(":"));
const matches = (ref, tag) => {
  const [grp, nm] = ref.split(":");
  const g1 = family1(tag);
  const inGroup = grp === g1 || (grp === "XMP" && g1.startsWith("XMP")) || (grp === "EXIF" && /^(IFD0|ExifIFD|GPS)$/.test(g1));
  if (!inGroup) return false;
  const re = nm === "all" ? /^/ : new RegExp("^" + nm.replace(/\*/g, ".*").replace(/\?/g, ".") + "$", "i");
  return re.test(tag.slice(tag.indexOf(":") + 1));
};

const valuesOf = (kind) =>
  fc.uniqueArray(fc.constantFrom(...BY_KIND[kind]), { minLength: 1, maxLength: 12 }).chain((names) => fc.record(Object.fromEntries(names.map((k) => [k, TAGS[k]])), { noNullPrototype: true }));
const entry = (kind) => fc.oneof({ weight: 5, arbitrary: fc.constantFrom(...BY_KIND[kind]) }, { weight: 2, arbitrary: fc.constantFrom(...globs) }, { weight: 1, arbitrary: fc.constantFrom("NoSuchTag", "XMP-dc:Rights", "IPTC:Source") });
// bare names that denote one tag of this list in a JPEG
const BARE = /^(IFD0:(Artist|Copyright|Orientation|Software|ImageDescription)|ExifIFD:\w+|GPS:\w+|IPTC:Keywords|XMP-dc:(Title|Subject|Creator)|XMP-xmp:\w+|XMP-lr:\w+)$/;
const deletion = fc.constantFrom("jpg", "jpg", "xmp", "png").chain((kind) =>
  valuesOf(kind).chain((values) =>
    fc.record(
      {
        kind: fc.constant(kind),
        values: fc.constant(values),
        retain: fc.option(fc.uniqueArray(fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...Object.keys(values)) }, { weight: 2, arbitrary: entry(kind) }), { maxLength: 5 }), { freq: 8 }),
        spell: fc.constantFrom("plain", "plain", "lower", "hash", "bare"),
        noOptions: fc.boolean(),
        rel: fc.boolean(),
      },
      { noNullPrototype: true },
    ),
  ),
);

const CODES = ["%d", "%f", "%e", "%F", "%t", "%5f", "%g", "%%", "%", "100%", "é", "日本", " ", "  ", "-", "~", "#", "$x", "&amp;", "@", "'", '"', "+", "_original", "[a]", "ab", "Z9"];
const outName = fc.tuple(fc.array(fc.constantFrom(...CODES), { minLength: 1, maxLength: 4 }), fc.constantFrom("same", "same", "same", "upper", "none")).map(([a, e]) => ({ stem: "n" + a.join(""), e }));
const rewrite = fc.constantFrom("jpg", "jpg", "png", "xmp").chain((kind) =>
  fc.record(
    {
      kind: fc.constant(kind),
      values: fc.option(valuesOf(kind), { freq: 8 }),
      dest: outName,
      sub: fc.option(fc.constantFrom("new", "new/deep %f"), { freq: 2 }),
      state: fc.constantFrom("new", "new", "exists", "self"),
      src: fc.constantFrom("ok", "ok", "ok", "ok", "missing", "garbage"),
      repair: fc.constantFrom(undefined, false, true),
      rel: fc.boolean(),
    },
    { noNullPrototype: true },
  ),
);

module.exports = {
  id: "C22",
  level: "exploration",
  technique: "property-based testing: generated metadata, retain lists and destinations through the real exiftool against a set model",
  shards: 8,
  rule:
    "Deletion: a JPEG, PNG or XMP file gets a generated subset of 27 EXIF, GPS, IPTC, XMP and comment tags with generated values (text with separators, Unicode and option look-alikes, lists, structs, enumerations, rationals), then deleteAllTags() runs with a generated retain list of tag names, globs, re-cased and # spellings, or none. Oracle: the set of tags selected by the list; exactly those remain, with the values read before; picture bytes are intact and the backup equals the original. Rewriting: rewriteAllTags() to generated destination names (exiftool codes, Unicode, new directories, existing files, the source itself), from good, missing and damaged sources. Oracle: output at exactly that path, carrying the source's tags and image data; source and existing files unchanged; nothing else appears. Non-trivial: some but not all tags are retained; or the destination needs care.",
  assumptions: ["tags exiftool adds to every group it creates (resolution, version tags) are ignored", "IPTC text is Latin-1: the tag that declares another character set is deleted unless retained", "retained names carry their group: which of several same-named tags a bare name denotes depends on MWG", "an existing directory as rewrite destination is not generated"],
  async run(ctx) {
    const u = ctx.u;
    const et = u.real({ useMWG: false });
    const root = path.join(ctx.scratch, "w");
    fs.mkdirSync(root);
    const base = { jpg: u.JPEG, png: u.PNG, xmp: u.XMP };
    const OW = { writeArgs: ["-overwrite_original"] };
    let n = 0;
    const snapshot = async (file) => {
      const t = await et.read(file, { readArgs: ["-fast", "-G1"], struct: 1, numericTags: [] });
      u.ok(!(t.errors?.length > 0), () => `read errors ${u.show(t.errors)}`);
      const o = {};
      for (const [k, v] of Object.entries(t)) if (!IMPLIED.test(k)) o[k] = v && v.rawValue != null ? v.rawValue : v;
      return o;
    };
    const writable = (values) => {
      const w = {};
      for (const [k, v] of Object.entries(values)) w[k === "File:Comment" ? "Comment" : k] = v;
      if (Object.keys(w).some((k) => k.startsWith("IPTC"))) w["IPTC:CodedCharacterSet"] = "UTF8";
      return w;
    };
    // Compressed picture data, which no metadata operation may touch.
    const picture = (kind, bytes) => (kind === "jpg" ? bytes.subarray(bytes.indexOf(Buffer.from([0xff, 0xdb]))) : kind === "png" ? bytes.subarray(bytes.indexOf("IDAT"), bytes.indexOf("IDAT") + 17) : Buffer.alloc(0));
    const files = (dir) => fs.readdirSync(dir, { recursive: true, withFileTypes: true }).filter((e) => !e.isDirectory()).map((e) => path.relative(dir, path.join(e.parentPath ?? e.path, e.name))).sort();
    try {
      await ctx.prop("delete-all-except", {
        runs: [2600, 50000],
        arb: deletion,
        async check({ kind, values, retain, spell, noOptions, rel }, t) {
          const dir = path.join(root, String(++n));
          fs.mkdirSync(dir);
          try {
            const file = path.join(dir, "p." + kind);
            fs.writeFileSync(file, base[kind]);
            await et.write(file, writable(values), OW);
            const bytes = fs.readFileSync(file);
            const before = await snapshot(file);
            for (const k of Object.keys(values)) u.ok(k in before, () => `setup: ${k} not written (${u.show(before)})`);
            const sp = (r) => (r === "File:Comment" ? "Comment" : spell === "bare" && kind === "jpg" && BARE.test(r) ? r.split(":")[1] : spell === "lower" ? r.toLowerCase() : spell === "hash" && /Orientation|ExposureTime|FNumber|GPS\w+$|Rating/.test(r) ? r + "#" : r);
            const list = retain?.map(sp);
            const given = list && [...list];
            const opts = retain == null && noOptions ? undefined : { ...(list ? { retain: list } : {}) };
            const what = `deleteAllTags(${kind} with ${u.show(Object.keys(before))}, ${u.show(opts)})`;
            const r = await u.settles(et.deleteAllTags(rel ? path.relative(process.cwd(), file) : file, opts), what);
            if (list) u.eq(list, given, `${what}: the caller's retain list`);
            const keep = Object.keys(before).filter((k) => (retain ?? []).some((e) => e === k || (e.includes(":") && matches(e, k))));
            u.ok(r.ok, () => `${what} rejected: ${r.error}`);
            const after = await snapshot(file);
            u.eq(Object.keys(after).sort(), [...keep].sort(), `${what}: remaining tags`);
            for (const k of keep) u.eq(after[k], before[k], `${what}: value of ${k}`);
            const now = fs.readFileSync(file);
            u.ok(picture(kind, now).equals(picture(kind, bytes)), () => `${what}: image data changed`);
            u.eq(files(dir), ["p." + kind, "p." + kind + "_original"], `${what}: files`);
            u.ok(fs.readFileSync(file + "_original").equals(bytes), () => `${what}: the backup differs from the original`);
            t.label("kept " + Math.min(keep.length, 4) + (keep.length >= 4 ? "+" : ""));
            if (retain?.some((e) => /[*?]|all$/.test(e))) t.label("glob");
            t.nontrivial(keep.length > 0 && keep.length < Object.keys(before).length);
          } finally {
            fs.rmSync(dir, { recursive: true, force: true });
          }
        },
      });

      await ctx.prop("rewrite", {
        runs: [2400, 45000],
        arb: rewrite,
        async check({ kind, values, dest, sub, state, src, repair, rel }, t) {
          const dir = path.join(root, String(++n));
          fs.mkdirSync(dir);
          try {
            const file = path.join(dir, "p." + kind);
            fs.writeFileSync(file, base[kind]);
            if (values) await et.write(file, writable(values), OW);
            if (src === "missing") fs.unlinkSync(file);
            if (src === "garbage") fs.writeFileSync(file, kind === "xmp" ? "" : "not an image");
            const bytes = src === "missing" ? null : fs.readFileSync(file);
            const before = src === "ok" ? await snapshot(file) : null;
            const name = dest.stem + (dest.e === "none" ? "" : "." + (dest.e === "upper" ? kind.toUpperCase() : kind));
            const out = state === "self" ? file : path.join(dir, ...(sub && state === "new" ? [sub] : []), name);
            if (state === "exists") fs.writeFileSync(out, "precious");
            const start = files(dir);
            const p = (x) => (rel ? path.relative(process.cwd(), x) : x);
            const what = `rewriteAllTags(${src} ${kind} with ${u.show(Object.keys(before ?? {}))}, ${JSON.stringify(path.relative(dir, out))}, state ${state})`;
            const r = await u.settles(et.rewriteAllTags(p(file), p(out), repair === undefined ? undefined : { allowMakerNoteRepair: repair }), what);
            const should = src === "ok" && state === "new";
            u.eq(r.ok, should, `${what}: resolved? (${r.ok ? "" : r.error})`);
            u.eq(files(dir), should ? [...start, path.relative(dir, out)].sort() : start, `${what}: files`);
            if (bytes) u.ok(fs.readFileSync(file).equals(bytes), () => `${what}: the source was modified`);
            if (state === "exists") u.eq(fs.readFileSync(out, "utf8"), "precious", `${what}: the existing file`);
            if (should) {
              const after = await snapshot(out);
              u.eq(after, before, `${what}: tags of the output`);
              u.ok(picture(kind, fs.readFileSync(out)).equals(picture(kind, bytes)), () => `${what}: image data changed`);
              u.eq(r.value, undefined, `${what}: resolved value`);
            }
            t.label(should ? "created" : `rejected: ${src === "ok" ? state : src}`);
            t.nontrivial(!should || sub != null || /[^\w.]/.test(name));
          } finally {
            fs.rmSync(dir, { recursive: true, force: true });
          }
        },
      });
    } finally {
      await et.end();
    }
  },
};
