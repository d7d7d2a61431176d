"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

const MARK = "__etvInvalidUtf8V1";

/* ---- a strict UTF-8 decoder, written from RFC 3629 ---- */
// Returns { text, bad }: every byte of a malformed sequence becomes one U+FFFD.
// U+FFFE/U+FFFF are left to the code under test (nonchar): both readings are accepted.
function decode(bytes) {
  let text = "";
  let bad = false;
  let nonchar = false;
  for (let i = 0; i < bytes.length; ) {
    const b = bytes[i];
    let n = 0;
    let cp = 0;
    let lo = 0x80;
    let hi = 0xbf;
    if (b < 0x80) cp = b;
    else if (b >= 0xc2 && b <= 0xdf) (n = 1), (cp = b & 31);
    else if (b >= 0xe0 && b <= 0xef) {
      (n = 2), (cp = b & 15);
      if (b === 0xe0) lo = 0xa0;
      if (b === 0xed) hi = 0x9f;
    } else if (b >= 0xf0 && b <= 0xf4) {
      (n = 3), (cp = b & 7);
      if (b === 0xf0) lo = 0x90;
      if (b === 0xf4) hi = 0x8f;
    } else n = -1;
    let ok = n >= 0;
    for (let k = 1; ok && k <= n; k++) {
      const c = bytes[i + k];
      if (c == null || c < (k === 1 ? lo : 0x80) || c > (k === 1 ? hi : 0xbf)) ok = false;
      else cp = (cp << 6) | (c & 63);
    }
    if (!ok) {
      bad = true;
      text += "\ufffd";
      i += 1;
      continue;
    }
    if (cp === 0xfffe || cp === 0xffff) nonchar = true;
    text += String.fromCodePoint(cp);
    i += n + 1;
  }
  return { text, bad, nonchar };
}
// How many replacement characters stand for one damaged stretch is not promised.
const squash = (s) => s.replace(/\ufffd+/g, "\ufffd");

/* ---- byte generators ---- */
const good = fc.oneof(
  { weight: 4, arbitrary: fc.string({ unit: fc.constantFrom(..."abcXYZ ?.,-0189"), minLength: 1, maxLength: 6 }) },
  { weight: 3, arbitrary: fc.constantFrom("é", "ß", "世界", "😀", "Ω", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufffd", "\ufffc", "\u{10000}", "\u{10ffff}", "s:", "b64:", MARK, "e\u0301") },
).map((s) => [...Buffer.from(s)]);
const bad = fc.oneof(
  { weight: 4, arbitrary: fc.integer({ min: 0x80, max: 0xff }).map((b) => [b]) },
  { weight: 4, arbitrary: fc.constantFrom([0xc0, 0x80], [0xc1, 0xbf], [0xe0, 0x80, 0x80], [0xe0, 0x9f, 0xbf], [0xed, 0xa0, 0x80], [0xed, 0xbf, 0xbf], [0xf0, 0x80, 0x80, 0x80], [0xf0, 0x8f, 0xbf, 0xbf], [0xf4, 0x90, 0x80, 0x80], [0xf5, 0x80, 0x80, 0x80], [0xf8, 0x88, 0x80, 0x80, 0x80], [0xfe], [0xff], [0xff, 0xfe], [0xe4, 0xb8], [0xf0, 0x9f, 0x98], [0xc3], [0xdc, 0x4b], [0xe4, 0xb8, 0x41], [0x80], [0xbf, 0xbf], [0x9a], [0xed, 0xa0, 0xbd, 0xed, 0xb8, 0x80]) },
  { weight: 1, arbitrary: fc.array(fc.integer({ min: 0x80, max: 0xff }), { minLength: 1, maxLength: 8 }) },
);
// Text as bytes: letter first and last, so that no format trims or retypes it.
const bytesOf = (extra) =>
  fc
    .tuple(fc.constantFrom("A", "q", "Z?"), fc.array(fc.oneof({ weight: 4, arbitrary: good }, { weight: 2, arbitrary: bad }, ...(extra ? [{ weight: 1, arbitrary: extra }] : [])), { maxLength: 5 }), fc.constantFrom("b", "K", "x?"), fc.boolean())
    .map(([a, parts, z, endBad]) => [...Buffer.from(a), ...parts.flat(), ...(endBad ? [] : Buffer.from(z))])
    .filter((b) => b[b.length - 1] > 0x20);

/* ---- file building ---- */
const seg = (marker, body) => {
  const h = Buffer.alloc(4);
  h[0] = 0xff;
  h[1] = marker;
  h.writeUInt16BE(body.length + 2, 2);
  return Buffer.concat([h, body]);
};
const IFD0 = { ImageDescription: 0x10e, Make: 0x10f, Model: 0x110, Software: 0x131, Artist: 0x13b, HostComputer: 0x13c };
function exif(tags, thumb) {
  const entries = Object.keys(IFD0).filter((k) => tags[k]);
  const ifd1 = thumb ? 2 + 2 * 12 + 4 : 0;
  let off = 8 + 2 + entries.length * 12 + 4;
  const ifd0 = Buffer.alloc(2 + entries.length * 12 + 4);
  ifd0.writeUInt16LE(entries.length, 0);
  const data = [];
  const ifd1At = off;
  off += ifd1;
  entries.forEach((k, i) => {
    const v = Buffer.from([...tags[k], 0]);
    const p = 2 + i * 12;
    ifd0.writeUInt16LE(IFD0[k], p);
    ifd0.writeUInt16LE(2, p + 2);
    ifd0.writeUInt32LE(v.length, p + 4);
    if (v.length <= 4) v.copy(ifd0, p + 8);
    else {
      ifd0.writeUInt32LE(off, p + 8);
      data.push(v);
      off += v.length;
    }
  });
  const parts = [Buffer.from("II*\0\x08\0\0\0", "latin1"), ifd0];
  if (thumb) {
    ifd0.writeUInt32LE(ifd1At, ifd0.length - 4);
    const b = Buffer.alloc(ifd1);
    b.writeUInt16LE(2, 0);
    b.writeUInt16LE(0x201, 2);
    b.writeUInt16LE(4, 4);
    b.writeUInt32LE(1, 6);
    b.writeUInt32LE(off, 10);
    b.writeUInt16LE(0x202, 14);
    b.writeUInt16LE(4, 16);
    b.writeUInt32LE(1, 18);
    b.writeUInt32LE(thumb.length, 22);
    parts.push(b);
    data.push(thumb);
  }
  return seg(0xe1, Buffer.concat([Buffer.from("Exif\0\0", "latin1"), ...parts, ...data]));
}
const iptcRec = (rec, ds, body) => Buffer.concat([Buffer.from([0x1c, rec, ds, body.length >> 8, body.length & 255]), Buffer.from(body)]);
function iptc(keywords) {
  const block = Buffer.concat([iptcRec(1, 90, [0x1b, 0x25, 0x47]), iptcRec(2, 0, [0, 4]), ...keywords.map((k) => iptcRec(2, 25, k))]);
  const pad = block.length % 2 ? Buffer.from([0]) : Buffer.alloc(0);
  const len = Buffer.alloc(4);
  len.writeUInt32BE(block.length);
  return seg(0xed, Buffer.concat([Buffer.from("Photoshop 3.0\0", "latin1"), Buffer.from("8BIM\x04\x04\0\0", "latin1"), len, block, pad]));
}
function xmp({ title, subjects, names }) {
  const S = (s) => Buffer.from(s);
  const out = [S('<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:photoshop="http://ns.adobe.com/photoshop/1.0/" xmlns:mwg-rs="http://www.metadataworkinggroup.com/schemas/regions/">')];
  if (title) out.push(S("<photoshop:Headline>"), Buffer.from(title), S("</photoshop:Headline>"));
  if (subjects.length) {
    out.push(S("<dc:subject><rdf:Bag>"));
    for (const s of subjects) out.push(S("<rdf:li>"), Buffer.from(s), S("</rdf:li>"));
    out.push(S("</rdf:Bag></dc:subject>"));
  }
  if (names.length) {
    out.push(S('<mwg-rs:Regions rdf:parseType="Resource"><mwg-rs:RegionList><rdf:Bag>'));
    for (const s of names) out.push(S('<rdf:li rdf:parseType="Resource"><mwg-rs:Name>'), Buffer.from(s), S("</mwg-rs:Name><mwg-rs:Type>Face</mwg-rs:Type></rdf:li>"));
    out.push(S("</rdf:Bag></mwg-rs:RegionList></mwg-rs:Regions>"));
  }
  out.push(S("</rdf:Description></rdf:RDF></x:xmpmeta>"));
  return seg(0xe1, Buffer.concat([Buffer.from("http://ns.adobe.com/xap/1.0/\0", "latin1"), ...out]));
}

/* ---- stand-in trees ---- */
const wire = (text, bytes) => ({ [MARK]: { replacement: "s:" + text, rawBase64: "b64:" + Buffer.from(bytes).toString("base64") } });
const tagName = fc.constantFrom("Title", "ImageDescription", "Artist", "City", "Keywords", "Subject", "RegionInfo", "XPComment", "Make", "Model", "Headline", "Copyright", "UserComment", "DateTimeOriginal", "CreatorTool", "OwnerName", "Location");
const fieldName = fc.constantFrom("Name", "Type", "Value", "0", "1", "AppliedTo", "Area", "__proto__", "constructor", "length", "replacement", "rawBase64", "CreateDate");
const plainText = fc.oneof(fc.string({ unit: "grapheme", maxLength: 8 }).map((s) => "t" + s.toWellFormed()), fc.constantFrom("s:x", "b64:AA==", MARK, "a�b", "ok?"));
const imitation = fc
  .oneof(
    fc.constantFrom(
      { [MARK]: { replacement: "no prefix", rawBase64: "b64:3Es=" } },
      { [MARK]: { replacement: "s:x", rawBase64: "3Es=" } },
      { [MARK]: { replacement: "s:x" } },
      { [MARK]: { rawBase64: "b64:3Es=" } },
      { [MARK]: { replacement: "s:x", rawBase64: "b64:3Es=", extra: 1 } },
      { [MARK]: { replacement: "s:x", rawBase64: "b64:3Es=" }, Other: "y" },
      { [MARK]: { replacement: 5, rawBase64: "b64:3Es=" } },
      { [MARK]: { replacement: "s:x", rawBase64: ["b64:3Es="] } },
      { [MARK]: "s:x" },
      { [MARK]: ["s:x", "b64:3Es="] },
      { replacement: "s:x", rawBase64: "b64:3Es=" },
      { [MARK.toLowerCase()]: { replacement: "s:x", rawBase64: "b64:3Es=" } },
      { [MARK]: {} },
    ),
    fc.tuple(plainText, plainText).map(([a, b]) => ({ [MARK]: { replacement: a.replace(/^s:/, ""), rawBase64: b } })),
  )
  .map((v) => ({ kind: "imitation", v }));
const { node } = fc.letrec((tie) => ({
  node: fc.oneof(
    { depthSize: "small", maxDepth: 4, withCrossShrink: true },
    { weight: 4, arbitrary: plainText.map((v) => ({ kind: "plain", v })) },
    { weight: 5, arbitrary: bytesOf(fc.constant([0])).map((b) => ({ kind: "bad", bytes: b, text: decode(b.filter((x) => x)).text })) },
    { weight: 1, arbitrary: fc.integer().map((v) => ({ kind: "plain", v })) },
    { weight: 1, arbitrary: imitation },
    { weight: 2, arbitrary: fc.array(tie("node"), { maxLength: 4 }).map((items) => ({ kind: "list", items })) },
    { weight: 2, arbitrary: fc.array(fc.tuple(fieldName, tie("node")), { maxLength: 4 }).map((e) => ({ kind: "struct", fields: [...new Map(e)] })) },
  ),
}));
const def = (o, k, v) => Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true });
const toWire = (n) =>
  n.kind === "bad" ? wire(n.text, n.bytes) : n.kind === "list" ? n.items.map(toWire) : n.kind === "struct" ? n.fields.reduce((o, [k, v]) => def(o, k, toWire(v)), {}) : n.v;
const toText = (n) => (n.kind === "bad" ? n.text : n.kind === "list" ? n.items.map(toText) : n.kind === "struct" ? n.fields.reduce((o, [k, v]) => def(o, k, toText(v)), {}) : n.v);
const toBytes = (n) => {
  if (n.kind === "bad") return Uint8Array.from(n.bytes);
  const kids = n.kind === "list" ? n.items.map((x, i) => [String(i), x]) : n.kind === "struct" ? n.fields : [];
  let o;
  for (const [k, v] of kids) {
    const b = toBytes(v);
    if (b !== undefined) def((o ??= {}), k, b);
  }
  return o;
};
// Array indexes of sparse byte objects come out as ordinary keys, in ascending order.

module.exports = {
  id: "C17",
  level: "exploration",
  quickScale: 1.5,
  shards: 8,
  rule:
    "Byte strings mixing well-formed text, every class of malformed UTF-8 (stray and truncated sequences, overlong forms, surrogates, out-of-range and invalid lead bytes) and NULs are planted in EXIF, comment, IPTC list, XMP text, list and struct values of generated JPEGs, with a thumbnail of arbitrary bytes, and read through the real exiftool in every struct mode with read() and readRaw(). Oracle: a strict RFC 3629 decoder plus the planted bytes. A second part generates whole tag trees with marked, plain and marker-imitating values over a stand-in exiftool, with and without a custom filter. Non-trivial: at least one malformed value or imitation.",
  assumptions: ["how many U+FFFD stand for one damaged stretch is not promised", "U+FFFE and U+FFFF may be treated either way, as exiftool does not accept them", "the stand-in wraps values as the library's own filter does"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    const eqBytes = (got, bytes, what) => {
      u.ok(got instanceof Uint8Array, `${what}: bytes are ${u.show(got)}`);
      u.eq(Buffer.from(got).toString("hex"), Buffer.from(bytes).toString("hex"), what + " original bytes");
    };

    const real = u.real({ useMWG: false });
    const dir = path.join(ctx.scratch, "c17");
    fs.mkdirSync(dir, { recursive: true });
    try {
      const xmlBytes = bytesOf();
      await ctx.prop("real-files", {
        runs: [6000, 120000],
        arb: fc.record({
          exif: fc.uniqueArray(fc.tuple(fc.constantFrom(...Object.keys(IFD0)), bytesOf(fc.constantFrom([9], [0x0d, 0x0a], [0x22], [0x5c], [0x3c, 0x26], [0x1b]))), { maxLength: 4, selector: (e) => e[0] }),
          com: fc.option(bytesOf(fc.constantFrom([0], [9], [0x0a], [0x22], [0x5c], [0x7f], [1])), { freq: 3 }),
          keywords: fc.array(bytesOf(), { maxLength: 3 }),
          title: fc.option(xmlBytes, { freq: 3 }),
          subjects: fc.array(xmlBytes, { maxLength: 3 }),
          names: fc.array(xmlBytes, { maxLength: 2 }),
          thumb: fc.option(fc.uint8Array({ minLength: 4, maxLength: 40 }), { freq: 2 }),
          how: fc.constantFrom("read", "read", "raw"),
          struct: fc.constantFrom(0, 1, 2),
          group: fc.constantFrom(false, false, true),
          api: fc.constantFrom([], [], [], ["-api", "Filter="], ["-api", "filter= "], ["-fast"], ["-api", "FilterX=1"], ["-API", "Filter=$_=1", "-api", "filter="]),
        }),
        async check(c, t) {
          const tags = Object.fromEntries(c.exif);
          const parts = [Buffer.from([0xff, 0xd8])];
          const thumb = c.thumb ? Buffer.concat([Buffer.from([0xff, 0xd8, 0xff, 0xdb]), Buffer.from(c.thumb), Buffer.from([0xff, 0xd9])]) : null;
          if (c.exif.length || thumb) parts.push(exif(tags, thumb));
          if (c.title || c.subjects.length || c.names.length) parts.push(xmp(c));
          if (c.keywords.length) parts.push(iptc(c.keywords));
          if (c.com) parts.push(seg(0xfe, Buffer.from(c.com)));
          parts.push(u.JPEG.subarray(2));
          const file = path.join(dir, "a.jpg");
          fs.writeFileSync(file, Buffer.concat(parts));

          const grp = c.group && c.how === "read";
          const P = (gname, n) => (grp ? `${gname}:${n}` : n);
          const struct = c.how === "read" ? c.struct : 0;
          const what = `${c.how === "read" ? "read" : "readRaw"}(struct ${struct}, readArgs ${JSON.stringify(c.api)})`;
          const readArgs = [...(grp ? ["-G"] : []), "-fast", ...c.api];
          const r = c.how === "read" ? await real.read(file, { readArgs, struct: c.struct, useMWG: false }) : await real.readRaw(file, { readArgs, useMWG: false });
          const want = [];
          for (const [k, b] of c.exif) want.push([[P("EXIF", k)], b]);
          if (c.com) want.push([[P("File", "Comment")], c.com]);
          const list = (name, items) => {
            // a one-item list may come as the item itself
            if (items.length === 1 && !Array.isArray(r[name])) want.push([[name], items[0]]);
            else items.forEach((b, i) => want.push([[name, String(i)], b]));
          };
          list(P("IPTC", "Keywords"), c.keywords);
          if (c.title) want.push([[P("XMP", "Headline")], c.title]);
          list(P("XMP", "Subject"), c.subjects);
          // a fresh file's structs are flattened in mode 0 and kept in 1 and 2
          if (struct === 0 || struct === 2) list(P("XMP", "RegionName"), c.names);
          if (struct !== 0) c.names.forEach((b, i) => want.push([[P("XMP", "RegionInfo"), "RegionList", String(i), "Name"], b]));
          const badOnes = want.filter(([, b]) => decode(b).bad);
          t.nontrivial(badOnes.length > 0);
          t.label(badOnes.length ? "malformed" : "clean");

          const listed = new Set();
          const walk = (o, p) => {
            if (o instanceof Uint8Array) listed.add(p.join("/"));
            else if (o && typeof o === "object") for (const [k, v] of Object.entries(o)) walk(v, [...p, k]);
            else ctx.fail(`${what}: invalidUtf8Bytes holds ${u.show(o)} at ${p.join("/")}`);
          };
          if ("invalidUtf8Bytes" in r) walk(r.invalidUtf8Bytes, []);
          const at = (o, p) => p.reduce((x, k) => (x == null ? x : x[k]), o);
          const maybe = new Set();
          for (const [p, b] of want) {
            const w = `${what} ${p.join("/")} of bytes ${Buffer.from(b).toString("hex")}`;
            const d = decode(b.filter((x) => x !== 0));
            const isBad = decode(b).bad;
            const key = p.join("/");
            const got = at(r, p);
            if (!isBad && decode(b).nonchar) {
              maybe.add(key);
              continue;
            }
            u.ok(typeof got === "string", `${w}: value is ${u.show(got)}`);
            if (d.nonchar) u.eq(squash(got.replace(/[\ufffe\uffff]/g, "\ufffd")), squash(d.text.replace(/[\ufffe\uffff]/g, "\ufffd")), w);
            else u.eq(squash(got), squash(d.text), w);
            if (isBad) {
              eqBytes(at(r.invalidUtf8Bytes, p), b, w);
              listed.delete(key);
            } else u.ok(!listed.has(key), `${w}: well-formed but listed in invalidUtf8Bytes`);
          }
          const stray = [...listed].filter((k) => !maybe.has(k) && !/XPKeywords/.test(k));
          u.ok(stray.length === 0, () => `${what}: unexpected entries in invalidUtf8Bytes: ${stray}`);
          if (thumb) {
            const v = r[P("EXIF", "ThumbnailImage")];
            u.ok(String(v?.rawValue ?? v).includes(`Binary data ${thumb.length} bytes`), () => `${what}: ThumbnailImage of ${thumb.length} bytes is ${u.show(v)}`);
            if (v instanceof L.BinaryField) u.eq(v.bytes, thumb.length, what + " ThumbnailImage bytes");
            const b = await real.readRaw(file, { readArgs: ["-b", "-ThumbnailImage"] });
            u.eq(b.ThumbnailImage, "base64:" + thumb.toString("base64"), "readRaw(-b -ThumbnailImage)");
          }
          // survives serialisation
          if (r.invalidUtf8Bytes) {
            t.label("serialised");
            u.eq(L.parseJSON(JSON.stringify(r)).invalidUtf8Bytes, r.invalidUtf8Bytes, what + " invalidUtf8Bytes after JSON");
          }
        },
      });

      await ctx.prop("custom-filter", {
        runs: [600, 9000],
        arb: fc.record({
          bytes: bytesOf(),
          api: fc.constantFrom(["-api", "Filter=tr/a-z/A-Z/"], ["-api", "filter=$_='own'"], ["-API", "FILTER^=$_='own'"], ["-api", "Filter=", "-api", "Filter=$_='own'"], ["-fast", "-api", "Filter=$_='own'"]),
          how: fc.constantFrom("read", "raw"),
        }),
        async check({ bytes, api, how }, t) {
          const b = decode(bytes);
          t.nontrivial(b.bad);
          const file = path.join(dir, "b.jpg");
          fs.writeFileSync(file, Buffer.concat([Buffer.from([0xff, 0xd8]), exif({ ImageDescription: bytes }), u.JPEG.subarray(2)]));
          const r = how === "read" ? await real.read(file, { readArgs: api }) : await real.readRaw(file, { readArgs: api });
          const w = `${how} with ${JSON.stringify(api)} of ${Buffer.from(bytes).toString("hex")}`;
          u.ok(!("invalidUtf8Bytes" in r), `${w}: invalidUtf8Bytes present`);
          if (/own/.test(api.at(-1))) u.eq(r.ImageDescription, "own", w);
          else {
            u.ok(typeof r.ImageDescription === "string" && !/[a-z]/.test(r.ImageDescription), `${w}: ${u.show(r.ImageDescription)} did not pass the caller's filter`);
          }
        },
      });
    } finally {
      await real.end().catch(() => {});
    }

    const fake = u.fake({ streamFlushMillis: 1 });
    try {
      await ctx.prop("tag-trees", {
        runs: [8000, 120000],
        arb: fc.record({
          tags: fc.uniqueArray(fc.tuple(tagName, node), { minLength: 1, maxLength: 5, selector: (e) => e[0] }),
          how: fc.constantFrom("read", "raw"),
          group: fc.boolean(),
          filter: fc.constantFrom(false, false, false, true),
        }),
        async check({ tags, how, group, filter }, t) {
          const dateish = /when|date|time|subsec|creat|modif/i;
          const pre = group && how === "read" ? "XMP:" : "";
          const named = tags.map(([k, n]) => [pre + k, n]);
          const input = Object.fromEntries(named.map(([k, n]) => [k, toWire(n)]));
          const nBad = tags.filter(([, n]) => toBytes(n) !== undefined).length;
          t.nontrivial(nBad > 0 || JSON.stringify(input).includes(MARK));
          t.label(filter ? "own filter" : nBad ? "marked" : "unmarked");
          const p = fake.tagsFile(input);
          const readArgs = [...(pre ? ["-G"] : []), "-fast", ...(filter ? ["-api", "Filter=tr/a/b/"] : [])];
          const r = how === "read" ? await fake.et.read(p, { readArgs }) : await fake.et.readRaw(p, { readArgs });
          const w = `${how === "read" ? "read" : "readRaw"}() of ${JSON.stringify(input)} with ${JSON.stringify(readArgs)}`;
          const expBytes = {};
          for (const [k, n] of named) {
            const b = toBytes(n);
            const txt = JSON.stringify(filter ? toWire(n) : toText(n));
            // values of date-like tags may be parsed; their text is C16's business
            const back = dateish.test(txt) || dateish.test(k) ? undefined : JSON.parse(txt);
            if (back !== undefined) u.eq(r[k], back, `${w} ${k}`);
            if (b !== undefined && !filter && k in r) expBytes[k] = b;
          }
          if (Object.keys(expBytes).length === 0) u.ok(!("invalidUtf8Bytes" in r), () => `${w}: invalidUtf8Bytes ${u.show(r.invalidUtf8Bytes)}`);
          else u.eq(r.invalidUtf8Bytes, expBytes, `${w} invalidUtf8Bytes`);
        },
      });
    } finally {
      await fake.end();
    }
  },
};
