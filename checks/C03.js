"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

const XMP_LISTS = ["XMP-acdsee:Keywords", "XMP-dc:Subject", "XMP-digiKam:TagsList", "XMP-expressionmedia:CatalogSets", "XMP-expressionmedia:People", "XMP-iptcExt:PersonInImage", "XMP-lr:HierarchicalSubject", "XMP-mediapro:CatalogSets", "XMP-mediapro:People", "XMP-microsoft:LastKeywordXMP"];
const IPTC_LISTS = ["IPTC:CatalogSets", "IPTC:Keywords"];
const COLL = "XMP-mwg-coll:Collections";
const REGIONS = { "XMP-mwg-rs:RegionName": ["XMP-mwg-rs:RegionInfo", "RegionList", "Name"], "XMP-acdsee-rs:ACDSeeRegionName": ["XMP-acdsee-rs:RegionInfoACDSee", "RegionList", "Name"], "XMP-MP:RegionPersonDisplayName": ["XMP-MP:RegionInfoMP", "Regions", "PersonDisplayName"] };
const ALBUM = "XMP-xmpDM:Album";

const META = ["&", "&amp;", "&#10;", "&lt;", "&amp;amp;", "&copy;", "|", "{", "}", "[", "]", ",", "=", ";", "\n", "\t", " ", "<", ">", "#", "$", "%", "\\", '"', "'", "\u00a0", "é", "É", "😀", "日本", "e\u0301", "+=", "-=", "<=", "*", ".", "?", "^", "(", ")", "//", ", ", "{ready}", "-execute", "\u2028", "|n", "\u200b", "~"];
const frag = fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...META) }, { weight: 3, arbitrary: fc.string({ unit: fc.constantFrom(..."abcxyzABC"), minLength: 1, maxLength: 4 }) }, { weight: 1, arbitrary: fc.string({ unit: "grapheme", minLength: 1, maxLength: 2 }) });
function bad(s) {
  for (const ch of s) {
    const c = ch.codePointAt(0);
    if (c <= 8 || (c >= 0xb && c <= 0x1f) || (c >= 0x7f && c <= 0x9f) || (c >= 0xd800 && c <= 0xdfff) || (c >= 0xfdd0 && c <= 0xfdef) || (c & 0xfffe) === 0xfffe || c === 0xfeff) return true;
  }
  return s.length === 0 || Buffer.byteLength(s) > 60 || /^\s*(undef|null|undefined|true|false|[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?|inf|nan)\s*$/i.test(s) || /binary/i.test(s);
}
const word = fc.array(frag, { minLength: 1, maxLength: 3 }).map((a) => a.join("")).filter((s) => !bad(s));
// a pool of look-alikes: only exact equality may match
const entity = (s) => s.replace(/[&<>"]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;" })[c]);
const unentity = (s) => s.replace(/&(amp|lt|gt|quot|copy|#10);/g, (m, e) => ({ amp: "&", lt: "<", gt: ">", quot: '"', copy: "©", "#10": "\n" })[e]);
const lookalikes = (w) => [w, w.toUpperCase(), w.toLowerCase(), " " + w, w + " ", w + "a", w.slice(0, -1), w + w, w + "," + w, entity(w), unentity(w), w.normalize("NFD"), w.replace(/\s+/g, " "), w.trim(), "[" + w + "]", w + "\n"].filter((s) => !bad(s));
const poolArb = fc.tuple(word, word).chain(([a, b]) => fc.uniqueArray(fc.constantFrom(...lookalikes(a), ...lookalikes(b)), { minLength: 1, maxLength: 5 }));

const tagsFor = { jpg: [...XMP_LISTS, ...IPTC_LISTS], xmp: XMP_LISTS, png: XMP_LISTS, mie: ["MIE-Doc:Keywords", "XMP-dc:Subject", "XMP-lr:HierarchicalSubject"] };
const item = fc.nat(4);
const editArb = (kind) =>
  fc.oneof(
    { weight: 5, arbitrary: fc.record({ t: fc.constantFrom(...tagsFor[kind]), op: fc.constantFrom("add", "add", "remove"), v: item }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant(COLL), op: fc.constant("add"), v: item, w: item }) },
    { weight: 2, arbitrary: fc.record({ t: fc.constant(COLL), op: fc.constant("remove"), v: fc.option(item, { freq: 3 }), w: fc.option(item, { freq: 3 }) }).filter((e) => e.v != null || e.w != null) },
    ...(kind === "mie" ? [] : [{ weight: 2, arbitrary: fc.record({ t: fc.constantFrom(...Object.keys(REGIONS), ALBUM), op: fc.constant("remove"), v: item }) }]),
  );
const history = fc.constantFrom("jpg", "jpg", "xmp", "xmp", "png", "mie").chain((kind) =>
  fc.record({
    kind: fc.constant(kind),
    pool: poolArb,
    tags: fc.uniqueArray(fc.constantFrom(...tagsFor[kind]), { minLength: 1, maxLength: 3 }),
    regions: fc.option(fc.record({ "XMP-mwg-rs:RegionName": fc.array(item, { maxLength: 3 }), "XMP-acdsee-rs:ACDSeeRegionName": fc.array(item, { maxLength: 3 }), "XMP-MP:RegionPersonDisplayName": fc.array(item, { maxLength: 3 }), album: fc.option(item, { freq: 2 }) }), { freq: 2 }),
    calls: fc.array(fc.array(editArb(kind), { minLength: 1, maxLength: 5 }), { minLength: 1, maxLength: 4 }),
    few: fc.constantFrom(true, true, true, false),
    seed: fc.array(fc.record({ k: fc.nat(2), v: item }), { maxLength: 5 }),
  }),
);

module.exports = {
  id: "C03",
  level: "exploration",
  quickScale: 1.5,
  technique: "stateful property-based testing: generated editTags histories through the real exiftool against a list model",
  shards: 8,
  rule:
    "Histories of 1-4 editTags() calls of 1-5 edits each are generated over a JPEG, PNG, XMP sidecar or MIE file holding other metadata, for every supported list tag, MWG collections, face-region names in three schemas and the album scalar. Values come from a small pool of look-alikes (case, blanks, substring, doubling, entity-encoded and -decoded, normalisation, separators), so that near misses are common. Oracle: a model of each list; after every call everything the file holds is read back and compared, including the tags not edited. Non-trivial: some removal hits an item, or misses while a look-alike is present.",
  assumptions: ["the relative order of a list is not promised (documented: bags are unordered), only its content, and that untouched lists keep theirs", "excluded values: text that is a JSON number or boolean, 'null'/'undef'/'undefined', C1 controls and byte order marks, and more than 60 bytes (IPTC)"],
  async run(ctx) {
    const u = ctx.u;
    const et = u.real({ useMWG: false });
    const dir = ctx.scratch;
    const base = {};
    for (const [k, b] of [["jpg", u.JPEG], ["png", u.PNG], ["xmp", u.XMP]]) fs.writeFileSync((base[k] = path.join(dir, "base." + k)), b);
    base.mie = path.join(dir, "base.mie");
    const OW = { writeArgs: ["-overwrite_original"] };
    const other = { "XMP-dc:Title": "kept title", "XMP-dc:Language": ["en", "fr"], "XMP-dc:Creator": ["b", "a"], "XMP-photoshop:Headline": " h , [x]" };
    await et.write(base.mie, { "MIE-Doc:Title": "kept mie" });
    for (const k of ["jpg", "png", "xmp", "mie"]) await et.write(base[k], other, OW);
    await et.write(base.jpg, { "IPTC:CodedCharacterSet": "UTF8", "IPTC:Source": "kept source", "IPTC:By-line": ["one", "two"], "IFD0:Software": "kept soft", "EXIF:DateTimeOriginal": "2020:01:02 03:04:05" }, OW);
    const VOLATILE = /^(SourceFile|System:|ExifTool:|errors|warnings|tz|zone|tzSource|File:CurrentIPTCDigest|Photoshop:IPTCDigest|XMP-x:XMPToolkit|Composite:|MIE-Top:|File:ExifByteOrder)/;
    const snapshot = async (file) => {
      const t = await et.read(file, { readArgs: ["-fast", "-G1"], struct: 1, numericTags: [] });
      u.ok(!(t.errors?.length > 0), () => `read errors ${u.show(t.errors)}`);
      return t;
    };
    const kept = {};
    for (const k of Object.keys(base)) kept[k] = Object.fromEntries(Object.entries(await snapshot(base[k])).filter(([n]) => !VOLATILE.test(n)));
    const list = (x) => (x == null ? [] : Array.isArray(x) ? x : [x]);
    const sorted = (a) => a.map((x) => JSON.stringify(x)).sort();
    const rect = (i) => `0.${i + 1}, 0.2, 0.3, 0.4`;
    const region = { "XMP-mwg-rs:RegionName": (n, i) => ({ Name: n, Type: "Face", Area: { X: 0.1 * (i + 1), Y: 0.2, W: 0.3, H: 0.4, Unit: "normalized" } }), "XMP-acdsee-rs:ACDSeeRegionName": (n, i) => ({ Name: n, Type: "Face", NameAssignType: "m" + i }), "XMP-MP:RegionPersonDisplayName": (n, i) => ({ PersonDisplayName: n, PersonSourceID: "id" + i, Rectangle: rect(i) }) };
    let n = 0;
    try {
      await ctx.prop("edit-histories", {
        runs: [2200, 45000],
        arb: history,
        async check({ kind, pool, tags, regions, calls, few, seed }, t) {
          if (seed.length) calls = [seed.map(({ k, v }) => ({ t: tags[k % tags.length], op: "add", v, exact: true })), ...calls];
          const V = (i) => pool[i % pool.length];
          const file = path.join(dir, `e${++n}.${kind}`);
          fs.copyFileSync(base[kind], file);
          // write() decodes entities, so region names have no ampersand
          const nameOf = (i) => V(i).replace(/&/g, "+");
          const model = {}; // tag → items
          const structs = {}; // container → value
          let album;
          try {
            if (regions && kind !== "mie") {
              const w = {};
              for (const [tag, [container, field]] of Object.entries(REGIONS)) {
                if (!regions[tag].length) continue;
                w[container] = { ...(tag.startsWith("XMP-mwg-rs") ? { AppliedToDimensions: { W: 1, H: 2, Unit: "pixel" } } : {}), [field]: regions[tag].map((i, k) => region[tag](nameOf(i), k)) };
              }
              if (regions.album != null) w[ALBUM] = nameOf(regions.album);
              if (Object.keys(w).length) await et.write(file, w, OW);
              // take the stored form from the file, then name the regions after pool values
              const s = await snapshot(file);
              for (const [container] of Object.values(REGIONS)) if (s[container]) structs[container] = s[container];
              if (regions.album != null) album = s[ALBUM];
            }
            let interesting = false;
            for (const [ci, call] of calls.entries()) {
              const edits = call.map((e) => {
                if (e.t === COLL) return e.op === "add" ? { tag: COLL, operation: "add", value: { CollectionName: V(e.v), CollectionURI: V(e.w) } } : { tag: COLL, operation: "remove", predicate: { ...(e.v != null ? { CollectionName: V(e.v) } : {}), ...(e.w != null ? { CollectionURI: V(e.w) } : {}) } };
                if (e.t in REGIONS || e.t === ALBUM) return { tag: e.t, operation: "remove", value: nameOf(e.v) };
                return { tag: few && !e.exact ? tags[tagsFor[kind].indexOf(e.t) % tags.length] : e.t, operation: e.op, value: V(e.v) };
              });
              const what = `after editTags(${u.show(edits)}) (call ${ci + 1} of ${calls.length}, ${kind})`;
              const matches = (e, x) => (e.predicate ? Object.entries(e.predicate).every(([k, v]) => x[k] === v) : x === e.value);
              const conflict = edits.some((a, i) => a.operation === "add" && edits.slice(i + 1).some((b) => b.operation === "remove" && b.tag === a.tag && matches(b, a.value)));
              const r = await u.settles(et.editTags(file, edits, OW), "editTags");
              if (conflict) u.ok(!r.ok, `${what}: an add-then-remove conflict was accepted`);
              else {
                u.ok(r.ok, () => `${what}: rejected with ${r.error}`);
                for (const tag of new Set(edits.map((e) => e.tag))) {
                  const mine = edits.filter((e) => e.tag === tag);
                  const removals = mine.filter((e) => e.operation === "remove");
                  if (tag === ALBUM) {
                    if (album !== undefined && removals.some((e) => e.value === album)) (album = undefined), (interesting = true);
                    continue;
                  }
                  if (tag in REGIONS) {
                    const [container, field, leaf] = REGIONS[tag];
                    if (!structs[container]) continue;
                    structs[container] = { ...structs[container], [field]: list(structs[container][field]).map((x) => { if (!removals.some((e) => e.value === x[leaf])) return x; interesting = true; const { [leaf]: _, ...rest } = x; return rest; }) };
                    continue;
                  }
                  const prev = model[tag] ?? [];
                  const left = prev.filter((x) => !removals.some((e) => matches(e, x)));
                  if (removals.length && prev.length) interesting = true;
                  model[tag] = [...left, ...mine.filter((e) => e.operation === "add").map((e) => e.value)];
                }
              }
              const s = await snapshot(file);
              for (const tag of [...tagsFor[kind], COLL]) u.eq(sorted(list(s[tag])), sorted((model[tag] ?? []).map((x) => (tag === COLL ? sortKeys(x) : x))), `${what}: ${tag}`);
              for (const [container] of Object.entries(REGIONS).map(([, c]) => c)) u.eq(s[container], structs[container], `${what}: ${container}`);
              u.eq(s[ALBUM], album, `${what}: ${ALBUM}`);
              for (const [k, v] of Object.entries(kept[kind])) u.eq(s[k], v, `${what}: ${k}, which was not edited,`);
              const extra = Object.keys(s).filter((k) => !VOLATILE.test(k) && !(k in kept[kind]) && !(k in model) && !(k in structs) && k !== ALBUM && k !== COLL && !/^(File|IPTC:ApplicationRecordVersion|MIE)/.test(k));
              u.eq(extra, [], `${what}: tags that nobody wrote`);
            }
            t.nontrivial(interesting);
            t.label(kind);
          } finally {
            fs.rmSync(file, { force: true });
          }
        },
      });
    } finally {
      await et.end();
    }
    function sortKeys(o) {
      return Object.fromEntries(Object.keys(o).sort().map((k) => [k, o[k]]));
    }
  },
};
