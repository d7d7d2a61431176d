"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

// Text written with write() and read back with read(), through the real exiftool.
module.exports = {
  id: "C02",
  level: "exploration",
  shards: 8,
  technique: "stateful property-based testing: generated write histories through the real exiftool against a tag->value model",
  rule:
    "Histories of 1-3 write() calls are generated on a fresh JPEG, PNG or XMP sidecar; each sets several text, list and structure tags (XMP, IPTC, EXIF) to generated text (blanks at the ends, line breaks, quotes, brackets, separators, '=' '<' '#' '|' '%', entity-like fragments, all Unicode planes), or deletes some with null. Oracle: a tag->value map; after every write the whole map is compared with what read() returns. A separate sub-check writes numbers and booleans, alone and among text in lists and structures. Non-trivial: some value holds a character outside [A-Za-z0-9] and the history writes at least two tags.",
  assumptions: [
    "excluded values: text that is a JSON number or boolean, 'null'/'undef'/'undefined', HTML character references, XML-invalid or non-character code points, empty list items and empty structure fields",
    "IPTC text is decided with CodedCharacterSet=UTF8 and within the tag's length limit",
  ],
  async run(ctx) {
    const u = ctx.u;
    const rec = (m, o = {}) => fc.record(m, { noNullPrototype: true, ...o });
    const et = u.real();
    const SPECIAL = [" ", "  ", "\t", "\n", "\r\n", "\r", "&", ";", "#", "-", "=", "<", ">", "|", ",", "[", "]", "{", "}", "\"", "'", "`", "\\", "/", "%d", "%", "$", "@", "~", "^", "*", "+", ":", "\u00a0", "\u2028", "\u2029", "\u0085", "\u00e9", "e\u0301", "\u4e2d", "\ud83d\ude00", "\ud83d\udc69\u200d\ud83d\udcbb", "\u202e", "\ufeff", "\u2212", "&amp", "&#10", "{ready}", "-execute", "</x>", "<![CDATA[", "]]>", "\\n", "|n", "Binary data 12 bytes", "(Binary data 3 bytes, use -b option to extract)"];
    const XML_BAD = /[\u0000-\u0008\u000b\u000c\u000e-\u001f\u007f-\u0084\u0086-\u009f\ufffe\uffff\ufdd0-\ufdef]|[\ud83f\ud87f\ud8bf\ud8ff\ud93f\ud97f\ud9bf\ud9ff\uda3f\uda7f\udabf\udaff\udb3f\udb7f\udbbf\udbff][\udffe\udfff]/g;
    const clean = (s) =>
      s
        .replace(XML_BAD, "?")
        .replace(/&(#?\w+);/g, "&$1 ;")
        .replace(/^\s*(undef|null|undefined|true|false|[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?|inf|nan)\s*$/i, "x$&")
        .replace(/^\(?Binary(?: data)? \d+ bytes[^()]*\)?$/gi, "x$&");
    const chunk = fc.oneof({ weight: 4, arbitrary: fc.constantFrom(...SPECIAL) }, { weight: 3, arbitrary: fc.string({ unit: fc.constantFrom(..."abcXYZ 019"), minLength: 1, maxLength: 6 }) }, { weight: 2, arbitrary: fc.string({ unit: "grapheme", minLength: 1, maxLength: 4 }) }, { weight: 1, arbitrary: fc.string({ unit: "binary", minLength: 1, maxLength: 3 }) });
    const anyText = fc.array(chunk, { minLength: 1, maxLength: 5 }).map((a) => clean(a.join("")));
    // cut to a byte budget without splitting a code point
    const cut = (n) => (s) => {
      let out = "";
      for (const c of s) {
        if (Buffer.byteLength(out + c) > n) break;
        out += c;
      }
      return clean(out) || "x";
    };
    const text = anyText.map((s) => s || "x");
    const short = text.map(cut(56)); // clean() may add a byte or a few
    const bmp = text.map((s) => s.replace(/[\ud800-\udfff\ufeff]/g, "?")); // XP tags are UCS-2
    const list = (t) => fc.array(t, { minLength: 1, maxLength: 4 });
    // An item's structure; fields hold non-empty text.

    const coll = rec({ CollectionName: text, CollectionURI: text });
    const contact = rec({ CiAdrCity: text, CiEmailWork: text, CiUrlWork: text }, { requiredKeys: ["CiAdrCity"] });
    const region = rec({
      AppliedToDimensions: rec({ W: fc.integer({ min: 1, max: 9999 }), H: fc.integer({ min: 1, max: 9999 }), Unit: fc.constant("pixel") }),
      RegionList: fc.array(rec({ Name: text, Type: fc.constantFrom("Face", "Pet", "Focus"), Description: text }, { requiredKeys: ["Name", "Type"] }), { minLength: 1, maxLength: 3 }),
    });
    const kw = rec({ Hierarchy: fc.array(rec({ Keyword: text, Children: fc.array(rec({ Keyword: text }), { minLength: 1, maxLength: 2 }) }, { requiredKeys: ["Keyword"] }), { minLength: 1, maxLength: 2 }) });
    const person = fc.array(rec({ PersonName: text, PersonId: list(text) }), { minLength: 1, maxLength: 2 });
    const X = {
      "XMP-dc:Title": text, "XMP-dc:Description": text, "XMP-photoshop:Headline": text, "XMP-photoshop:Credit": text, "XMP-xmp:Label": text, "XMP-dc:Rights": text,
      "XMP-xmpRights:UsageTerms": text, "XMP-dc:Subject": list(text), "XMP-dc:Creator": list(text), "XMP-lr:HierarchicalSubject": list(text), "XMP-iptcExt:PersonInImage": list(text),
      "XMP-digiKam:TagsList": list(text), "XMP-mwg-coll:Collections": fc.array(coll, { minLength: 1, maxLength: 3 }), "XMP-iptcCore:CreatorContactInfo": contact,
      "XMP-mwg-rs:RegionInfo": region, "XMP-mwg-kw:KeywordInfo": kw, "XMP-iptcExt:PersonInImageWDetails": person, "XMP-xmp:Rating": fc.integer({ min: 0, max: 5 }),
    };
    const J = { "IFD0:ImageDescription": text, "IFD0:Artist": text, "IFD0:XPTitle": bmp, "IFD0:XPKeywords": bmp, "IPTC:Headline": short, "IPTC:Keywords": list(short), "IPTC:Caption-Abstract": text, "IPTC:By-line": list(fc.constantFrom("a", "b c", " d", "\u00e9")), "IFD0:Orientation#": fc.integer({ min: 1, max: 8 }) };
    const KINDS = { xmp: X, png: X, jpg: { ...X, ...J } };
    const setOf = (m) => {
      const names = Object.keys(m);
      return fc.uniqueArray(fc.constantFrom(...names), { minLength: 1, maxLength: 6 }).chain((ks) => fc.tuple(...ks.map((k) => fc.oneof({ weight: 9, arbitrary: m[k] }, { weight: 1, arbitrary: fc.constant(null) }))).map((vs) => ks.map((k, i) => [k, vs[i]])));
    };
    const history = fc.constantFrom("jpg", "jpg", "xmp", "png").chain((kind) => rec({ kind: fc.constant(kind), writes: fc.array(setOf(KINDS[kind]), { minLength: 1, maxLength: 3 }) }));

    const toArr = (x) => (x == null ? [] : Array.isArray(x) ? x : [x]);
    const canon = (v) => {
      if (Array.isArray(v)) return v.map(canon);
      if (v && typeof v === "object") return Object.fromEntries(Object.keys(v).sort().map((k) => [k, canon(v[k])]));
      return v;
    };
    const isList = (k) => /Subject|Creator$|HierarchicalSubject|PersonInImage$|TagsList|Collections|WDetails|IPTC:Keywords|By-line/.test(k);
    let n = 0;
    const base = {};
    const dir = ctx.scratch;
    for (const [k, b] of [["jpg", u.JPEG], ["png", u.PNG], ["xmp", u.XMP]]) fs.writeFileSync((base[k] = path.join(dir, "base." + k)), b);
    const pre = { "XMP-dc:Source": " kept, [as] {is}", "XMP-dc:Language": ["en", "fr"] };
    for (const k of Object.keys(base)) await et.write(base[k], pre, ["-overwrite_original"]);
    await et.write(base.jpg, { "IPTC:CodedCharacterSet": "UTF8", "IPTC:Source": "kept", "IFD0:Software": "kept soft" }, ["-overwrite_original"]);
    const kept = { "XMP-dc:Source": " kept, [as] {is}", "XMP-dc:Language": ["en", "fr"] };

    const verify = async (file, model, kind, what) => {
      const t = await et.read(file, { numericTags: ["Orientation"], readArgs: ["-fast", "-G1"], struct: 1 });
      const all = { ...kept, ...(kind === "jpg" ? { "IPTC:Source": "kept", "IFD0:Software": "kept soft" } : {}), ...model };
      for (const [k0, v] of Object.entries(all)) {
        const k = k0.replace("#", "");
        const got = t[k];
        if (isList(k) || k === "XMP-dc:Language") u.eq(canon(toArr(got)), canon(toArr(v)), `${what}: ${k}`);
        else u.eq(canon(got), v == null ? undefined : canon(v), `${what}: ${k}`);
      }
      u.ok(t.errors == null || t.errors.length === 0, () => `${what}: read errors ${u.show(t.errors)}`);
    };
    const apply = (model, set) => {
      for (const [k, v] of set) {
        if (v === null) delete model[k], (model[k] = undefined);
        else model[k] = v;
      }
    };

    await ctx.prop("write-histories", {
      runs: [1900, 40000],
      arb: history,
      async check({ kind, writes }, t) {
        const file = path.join(dir, `w${++n}.${kind}`);
        fs.copyFileSync(base[kind], file);
        try {
          const model = {};
          let i = 0;
          for (const set of writes) {
            const r = await et.write(file, Object.fromEntries(set), { writeArgs: ["-overwrite_original"] });
            apply(model, set);
            const what = `after write ${++i} of ${u.show(Object.fromEntries(set))}`;
            u.ok(r.updated + r.unchanged === 1 && r.created === 0, () => `${what}: counts ${u.show(r)}`);
            await verify(file, model, kind, what);
          }
          const s = JSON.stringify(writes);
          t.nontrivial(/[^\w\s"\\:,{}[\]-]/.test(s) && writes.flat().length >= 2);
          t.label(kind);
        } finally {
          fs.rmSync(file, { force: true });
        }
      },
    });

    // The same values, one by one, in every tag kind: character-level search.
    await ctx.prop("single-values", {
      runs: [1200, 30000],
      arb: rec({ s: text, s2: text, k: fc.constantFrom("scalar", "first", "later", "struct", "structlist"), kind: fc.constantFrom("xmp", "jpg") }),
      async check({ s, s2, k, kind }, t) {
        const file = path.join(dir, `s${++n}.${kind}`);
        fs.copyFileSync(base[kind], file);
        const set = {
          scalar: { "XMP-dc:Description": s },
          first: { "XMP-dc:Subject": [s, s2] },
          later: { "XMP-dc:Subject": ["a", s, s2] },
          struct: { "XMP-mwg-coll:Collections": [{ CollectionName: s, CollectionURI: s2 }] },
          structlist: { "XMP-iptcExt:PersonInImageWDetails": [{ PersonName: s2, PersonId: [s, "x"] }] },
        }[k];
        if (k === "scalar" && kind === "jpg") set["IFD0:ImageDescription"] = s2;
        try {
          await et.write(file, set, { writeArgs: ["-overwrite_original"] });
          await verify(file, set, kind, `write of ${u.show(set)}`);
          t.nontrivial(/\W/.test(s + s2));
          t.label(k);
        } finally {
          fs.rmSync(file, { force: true });
        }
      },
    });
    // Numbers and booleans, alone and as list items, next to text.
    const num = fc.oneof(fc.integer({ min: -1000000, max: 1000000 }), fc.double({ noNaN: true, noDefaultInfinity: true }).map((x) => (Object.is(x, -0) ? 0 : x)), fc.double({ noNaN: true, min: -200, max: 200 }).map((x) => (Object.is(x, -0) ? 0 : x)), fc.maxSafeInteger(), fc.constantFrom(0, 1, -1, 0.1, 0.1 + 0.2, 1e21, 1e-7));
    const scalar = fc.oneof(num, fc.boolean(), text);
    const same = (got, want) => (typeof want === "number" ? Number(got) === want && String(got).trim() !== "" : typeof want === "boolean" ? String(got).toLowerCase() === String(want) : got === want);
    await ctx.prop("numbers-and-booleans", {
      runs: [800, 20000],
      arb: rec({ s: scalar, list: fc.array(scalar, { minLength: 1, maxLength: 5 }), marked: fc.boolean(), lens: num, st: rec({ CollectionName: fc.oneof(num, text), CollectionURI: text }) }),
      async check({ s, list, marked, lens, st }, t) {
        const file = path.join(dir, `n${++n}.xmp`);
        fs.copyFileSync(base.xmp, file);
        const set = { "XMP-dc:Description": s, "XMP-dc:Subject": list, "XMP-xmpRights:Marked": marked, "XMP-aux:Lens": lens, "XMP-mwg-coll:Collections": [st] };
        const what = `write of ${u.show(set)}`;
        try {
          await et.write(file, set, { writeArgs: ["-overwrite_original"] });
          const r = await et.read(file, { readArgs: ["-fast", "-G1"], struct: 1 });
          u.ok(same(r["XMP-dc:Description"], s), () => `${what}: Description ${u.show(r["XMP-dc:Description"])}`);
          const got = toArr(r["XMP-dc:Subject"]);
          u.ok(got.length === list.length && got.every((g, i) => same(g, list[i])), () => `${what}: Subject ${u.show(got)}`);
          u.ok(same(r["XMP-xmpRights:Marked"], marked), () => `${what}: Marked ${u.show(r["XMP-xmpRights:Marked"])}`);
          u.ok(same(r["XMP-aux:Lens"], lens), () => `${what}: Lens ${u.show(r["XMP-aux:Lens"])}`);
          const c = toArr(r["XMP-mwg-coll:Collections"])[0];
          u.ok(c != null && same(c.CollectionName, st.CollectionName) && same(c.CollectionURI, st.CollectionURI), () => `${what}: Collections ${u.show(c)}`);
          await verify(file, {}, "xmp", what);
          t.nontrivial(typeof s !== "string" || list.some((x) => typeof x !== "string"));
          t.label(typeof s);
        } finally {
          fs.rmSync(file, { force: true });
        }
      },
    });
    // Values larger than a pipe buffer.
    await ctx.prop("large-values", {
      runs: [64, 1200],
      arb: fc.record({ unit: text, pad: fc.nat(5), bytes: fc.integer({ min: 20000, max: 400000 }), where: fc.constantFrom("scalar", "list") }),
      async check({ unit, pad, bytes, where }, t) {
        const file = path.join(dir, `l${++n}.xmp`);
        fs.copyFileSync(base.xmp, file);
        const v = clean("x".repeat(pad) + (unit + "\u20ac").repeat(Math.ceil(bytes / (Buffer.byteLength(unit) + 3))));
        const set = where === "scalar" ? { "XMP-dc:Description": v } : { "XMP-dc:Subject": [v, "y", v + "z"] };
        try {
          await et.write(file, set, { writeArgs: ["-overwrite_original"] });
          await verify(file, set, "xmp", `write of ${JSON.stringify(unit)} repeated to ${v.length} characters`);
          t.nontrivial();
        } finally {
          fs.rmSync(file, { force: true });
        }
      },
    });
    await et.end();
  },
};
