"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const F = require("../lib/files");
const { fc } = g;

const CODES = ["%d", "%f", "%e", "%F", "%E", "%t", "%g", "%g1", "%s", "%o", "%5f", "%-3.1ue", "%.2d", "%:1d", "%0f", "%%", "%", "%%f", "100%", "%20", "%uf", "%D"];
const COPY = ["%c", "%-c", "%+.2nc", "%C", "%2C", "%03uc"];
const COPYRE = /%[-+]?\d*[.:]?\d*[lun]?[cC]/;
const ODD = ["-", "-b", "~", "#", "$x", "&amp;", "|", ";", "é", "日本", "😀", "e\u0301", "'", '"', "*", "?", "[a]", "{ready}", "@", "+", "=", "<", ">", "!", " ", "  ", "\t", "\u00a0", ".", "..", "_original", "_exiftool_tmp", "base64:", "true", "\\"];
const frag = fc.oneof(
  { weight: 4, arbitrary: fc.constantFrom(...ODD) },
  { weight: 3, arbitrary: fc.constantFrom(...CODES) },
  { weight: 4, arbitrary: fc.string({ unit: fc.constantFrom(..."abcdefgst0159"), minLength: 1, maxLength: 4 }) },
);
const ext = fc.constantFrom("", ".jpg", ".JPG", ".tif", ".bin", ".txt", ".xmp", ".%e", ".jpg_original");
const name = fc
  .tuple(fc.array(frag, { minLength: 1, maxLength: 4 }), ext, fc.integer({ min: 0, max: 24 }))
  .map(([a, e, c]) => (a.join("") + (c === 24 ? COPY[a.length % COPY.length] : "") + e).replace(/\//g, "_"))
  .filter((s) => s !== "." && s !== ".." && Buffer.byteLength(s) < 100);
const dirName = fc.oneof({ weight: 5, arbitrary: fc.constant(null) }, { weight: 2, arbitrary: fc.tuple(name, fc.constantFrom("", "", " ")).map(([s, e]) => "dir " + s + e) });

const jpegish = fc
  .oneof(
    { weight: 6, arbitrary: fc.uint8Array({ maxLength: 40 }).map((a) => Buffer.from(a)) },
    { weight: 2, arbitrary: fc.constantFrom("{ready}\n", "\n{ready1}\n", "base64:AAAA", "\r\n\0\r\n", "\xff\xd9", "\x1a", "-execute\n", "1 output files created", "Warning: x\nError: y\n").map((s) => Buffer.from(s, "latin1")) },
    { weight: 1, arbitrary: fc.tuple(fc.integer({ min: 4000, max: 200000 }), fc.nat()).map(([n, s]) => { const b = Buffer.alloc(n); let x = s | 1; for (let i = 0; i < n; i++) { x = (Math.imul(x, 1103515245) + 12345) >>> 0; b[i] = x >>> 16; } return b; }) },
  )
  .map((b) => Buffer.concat([Buffer.from([0xff, 0xd8, 0xff]), b]));
const opt = (a) => fc.option(a, { freq: 5 }); // absent one time in five
const source = fc.record(
  {
    kind: fc.constantFrom("tif", "tif", "jpg"),
    big: fc.boolean(),
    ThumbnailImage: opt(jpegish),
    PreviewImage: opt(jpegish),
    JpgFromRaw: opt(jpegish),
    XMP: opt(fc.array(fc.constantFrom("a", "é", "日", "😀", " ", "\n", "&amp;", "{ready}", "\t", "x".repeat(50), "'", '"', "\\"), { maxLength: 8 }).map((a) => a.join(""))),
  },
  { noNullPrototype: true },
);
const TAGS = ["ThumbnailImage", "PreviewImage", "JpgFromRaw", "XMP"];
const spell = fc.constantFrom("plain", "plain", "plain", "lower", "upper", "group", "hash");
const op = fc.record(
  {
    src: fc.constantFrom(0, 0, 1, 1, "missing", "text", "empty"),
    tag: fc.constantFrom(0, 0, 1, 2, 3),
    how: fc.constantFrom("file", "file", "named", "named", "buffer"),
    spell,
    dest: fc.nat(4),
    force: fc.constantFrom(undefined, false, true, true),
    rel: fc.boolean(),
  },
  { noNullPrototype: true },
);
const history = fc.record(
  {
    sources: fc.tuple(source, source),
    srcName: fc.tuple(name, name),
    pool: fc.uniqueArray(fc.tuple(dirName, name).map(([d, n]) => (d ? d + "/" + n : n)), { minLength: 3, maxLength: 5 }),
    before: fc.array(fc.record({ dest: fc.nat(4), what: fc.constantFrom("file", "file", "empty", "dir") }, { noNullPrototype: true }), { maxLength: 3 }),
    ops: fc.array(fc.array(op, { minLength: 1, maxLength: 3 }), { minLength: 1, maxLength: 5 }),
  },
  { noNullPrototype: true },
);

module.exports = {
  id: "C20",
  level: "exploration",
  quickScale: 1.5,
  technique: "stateful property-based testing: generated extraction histories through the real exiftool against a model of the destination tree",
  shards: 8,
  rule:
    "TIFF and JPEG files are built byte by byte around generated thumbnail, preview, JpgFromRaw and XMP payloads (random bytes, protocol look-alikes such as {ready}, up to 200 KB); histories of 1-5 batches of 1-3 concurrent extractions (file, convenience methods, buffer; plain, re-cased, grouped and # spellings; relative and absolute paths; overwriting or not; missing tags, missing and non-image sources) go to destinations with generated names (exiftool format codes, option-like names, Unicode, blanks, new sub-directories), some of which already exist as files or directories. Oracle: a model of the directory; after every batch the whole tree, the sources and all outcomes are compared with it. Non-trivial: a payload was extracted to a name with special characters, or an existing destination was involved.",
  assumptions: ["a destination whose name contains an exiftool copy-number code (%c) may be refused, but must then leave no file", "extracting over the source itself and destinations reached through links are not generated"],
  async run(ctx) {
    const u = ctx.u;
    const et = u.real({ maxProcs: 2 });
    const root = path.join(ctx.scratch, "x");
    let n = 0;
    const build = (s) => {
      const third = (b) => [[0x103, 3, 6], [0x201, 4, { data: b }], [0x202, 4, b.length]];
      const cap = (b) => (s.kind === "jpg" ? b?.subarray(0, 12000) : b);
      const th = cap(s.ThumbnailImage);
      const raw = cap(s.JpgFromRaw);
      const pv = s.kind === "jpg" ? null : s.PreviewImage;
      const ifds = {
        ifd0: [[0x10f, 2, "ACME"], ...(pv ? [[0xfe, 4, 1], [0x103, 3, 7], [0x111, 4, { data: pv }], [0x117, 4, pv.length]] : []), ...(raw ? [[0x14a, 4, { ifd: "sub" }]] : [])],
        ifd1: th && third(th),
        sub: raw && third(raw),
      };
      const xmp = s.XMP == null ? null : Buffer.from(`<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description xmlns:dc='http://purl.org/dc/elements/1.1/'><dc:format>${s.XMP.replace(/[\\'"<]/g, "_")}</dc:format></rdf:Description></rdf:RDF></x:xmpmeta>`);
      const has = { ThumbnailImage: th, PreviewImage: pv, JpgFromRaw: raw, XMP: xmp };
      if (s.kind === "jpg") return { has, ext: ".jpg", bytes: F.jpegWith(u.JPEG, F.app1(F.tiff(ifds, s.big)), ...(xmp ? [F.seg(0xe1, Buffer.concat([Buffer.from("http://ns.adobe.com/xap/1.0/\0"), xmp]))] : [])) };
      if (xmp) ifds.ifd0.push([0x2bc, 7, xmp]);
      return { has, ext: ".tif", bytes: F.tiff(ifds, s.big) };
    };
    const tree = (dir, folders = new Set()) => {
      const out = {};
      const walk = (d, p) => {
        for (const e of fs.readdirSync(d, { withFileTypes: true })) {
          const q = p ? p + "/" + e.name : e.name;
          if (e.isDirectory()) {
            folders.add(q);
            walk(path.join(d, e.name), q);
          } else out[q] = fs.readFileSync(path.join(d, e.name));
        }
      };
      walk(dir, "");
      return out;
    };
    const spelled = (tag, how, kind) => {
      if (how === "lower") return tag.toLowerCase();
      if (how === "upper") return tag.toUpperCase();
      if (how === "hash") return tag + "#";
      if (how === "group") return { ThumbnailImage: "EXIF:", PreviewImage: "EXIF:", JpgFromRaw: "EXIF:", XMP: "XMP:" }[tag] + tag;
      return tag;
    };
    try {
      await ctx.prop("extraction-histories", {
        runs: [2400, 40000],
        arb: history,
        async check({ sources, srcName, pool, before, ops }, t) {
          const top = path.join(root, String(++n));
          const dir = path.join(top, "out");
          const srcDir = path.join(top, "src");
          fs.mkdirSync(dir, { recursive: true });
          fs.mkdirSync(srcDir);
          try {
            const built = sources.map(build);
            const files = built.map((b, i) => {
              const f = path.join(srcDir, i + srcName[i] + b.ext);
              fs.writeFileSync(f, b.bytes);
              return f;
            });
            const special = { missing: path.join(srcDir, "none.jpg"), text: path.join(srcDir, "note.txt"), empty: path.join(srcDir, "void.jpg") };
            fs.writeFileSync(special.text, "just text\n");
            fs.writeFileSync(special.empty, "");
            const srcTree = tree(srcDir);
            const model = {};
            const dirs = new Set();
            for (const { dest, what } of before) {
              const d = pool[dest % pool.length];
              if (model[d] || dirs.has(d) || Object.keys(model).some((k) => k.startsWith(d + "/") || d.startsWith(k + "/")) || [...dirs].some((k) => k.startsWith(d + "/"))) continue;
              if (what === "dir") {
                fs.mkdirSync(path.join(dir, d), { recursive: true });
                dirs.add(d);
              } else {
                fs.mkdirSync(path.dirname(path.join(dir, d)), { recursive: true });
                model[d] = Buffer.from(what === "empty" ? "" : "old " + d);
                fs.writeFileSync(path.join(dir, d), model[d]);
              }
            }
            for (const batch of ops) {
              const used = new Set();
              const running = batch.map(async (o) => {
                const dest = pool[o.dest % pool.length];
                if (o.how !== "buffer") {
                  // concurrent extractions have destinations of their own
                  if ([...used].some((k) => k === dest || k.startsWith(dest + "/") || dest.startsWith(k + "/"))) return;
                  used.add(dest);
                }
                const tag = TAGS[o.tag];
                const src = typeof o.src === "number" ? files[o.src] : special[o.src];
                const payload = typeof o.src === "number" ? built[o.src].has[tag] : null;
                const out = path.join(dir, dest);
                const p = (x) => (o.rel ? path.relative(process.cwd(), x) : x);
                const opts = o.force === undefined ? undefined : { forceWrite: o.force };
                if (o.how === "buffer") {
                  const nm = spelled(tag, o.spell);
                  const what = `extractBinaryTagToBuffer(${nm}, source ${u.show(o.src)})`;
                  const r = await u.settles(et.extractBinaryTagToBuffer(nm, p(src)), what);
                  if (payload == null) u.ok(!r.ok, () => `${what} resolved to ${u.show(r.value)}, but there is no such payload`);
                  else {
                    u.ok(r.ok, () => `${what} rejected with ${r.error}, expected ${payload.length} bytes`);
                    u.ok(Buffer.isBuffer(r.value) && r.value.equals(payload), () => `${what}: got ${u.show(r.value)}, expected ${u.show(payload)}`);
                    t.label("buffer");
                  }
                  return;
                }
                const convenience = o.how === "named" && tag !== "XMP";
                const nm = spelled(tag, o.spell);
                const exists = model[dest] != null;
                const blocked = dirs.has(dest) || Object.keys(model).some((k) => dest.startsWith(k + "/"));
                const what = `extract ${convenience ? tag + " (convenience)" : nm} from ${u.show(o.src)} to ${JSON.stringify(dest)} (${exists ? "existing file" : blocked ? "blocked" : "new"}, options ${u.show(opts)})`;
                const call = convenience ? { ThumbnailImage: "extractThumbnail", PreviewImage: "extractPreview", JpgFromRaw: "extractJpgFromRaw" }[tag] : null;
                const r = await u.settles(call ? et[call](p(src), p(out), opts) : et.extractBinaryTag(nm, p(src), p(out), opts), what);
                const refusable = COPYRE.test(path.resolve(out));
                const should = payload != null && !blocked && (!exists || o.force === true);
                if (refusable && !r.ok) return t.label("copy-number code (refused)");
                u.eq(r.ok, should, `${what}: resolved? (${r.ok ? "" : r.error})`);
                if (should) {
                  model[dest] = payload;
                  t.label(exists ? "overwritten" : "created");
                  if (exists || /[^\w./]/.test(dest)) t.nontrivial();
                } else {
                  t.label(payload == null ? "rejected: no payload" : exists ? "rejected: exists" : "rejected: blocked");
                  if (exists) t.nontrivial();
                }
              });
              const done = await Promise.allSettled(running);
              for (const r of done) if (r.status === "rejected") throw r.reason;
              const folders = new Set();
              const now = tree(dir, folders);
              u.eq([...folders].filter((d) => !dirs.has(d) && !pool.some((x) => x.startsWith(d + "/"))), [], "directories that nobody asked for");
              u.eq(Object.keys(now).sort(), Object.keys(model).sort(), "files in the destination directory");
              for (const k of Object.keys(model)) u.ok(now[k].equals(model[k]), () => `content of ${JSON.stringify(k)}: got ${u.show(now[k])}, expected ${u.show(model[k])}`);
              const s = tree(srcDir);
              u.eq(Object.keys(s).sort(), Object.keys(srcTree).sort(), "files in the source directory");
              for (const k of Object.keys(s)) u.ok(s[k].equals(srcTree[k]), () => `source ${JSON.stringify(k)} was modified`);
              u.eq(fs.readdirSync(top).sort(), ["out", "src"], "files beside the destination directory");
            }
          } finally {
            fs.rmSync(top, { recursive: true, force: true });
          }
        },
      });
    } finally {
      await et.end();
    }
  },
};
