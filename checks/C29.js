"use strict";
const fs = require("node:fs");
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

// What calls do to the files of a directory, through the real exiftool.
const NAMES = ["a.jpg", "b.png", "c.xmp", "d e.jpg", "é日本.jpg", "-f.jpg", "UP.JPG", "new.xmp", "new2.xmp", "absent.jpg", "bad.jpg", "empty.png", "k.jpg_original"];
const name = fc.oneof({ weight: 6, arbitrary: fc.constantFrom("a.jpg", "b.png", "c.xmp") }, { weight: 3, arbitrary: fc.constantFrom(...NAMES) });
const word = fc.constantFrom("x", "yy", "zoo", "é", "日本", "0", "");
const TAGSETS = [
  (w) => ({ "XMP-dc:Title": w }),
  (w) => ({ Title: w, Artist: w }),
  (w) => ({ "XMP-dc:Subject": [w, "k"] }),
  (w) => ({ Artist: null, Title: null, Subject: null }),
  (w) => ({ Comment: w }),
  (w) => ({ NoSuchTagAtAll: w }),
  (w) => ({ Title: w, NoSuchTagAtAll: w }),
  (w) => ({ Rating: w }),
  (w) => ({ DateTimeOriginal: w || "2020:01:02 03:04:05" }),
  (w) => ({ AllDates: "2021:02:03 04:05:06" }),
  (w) => ({ GPSLatitude: 12.5, GPSLongitude: -3.25 }),
  (w) => ({ Orientation: w }),
  (w) => ({}),
];
const ARGS = [undefined, [], ["-overwrite_original"], ["-overwrite_original_in_place"], ["-P"], ["-overwrite_original", "-P"], ["-m"], ["-n"]];
const op = fc.oneof(
  { weight: 8, arbitrary: fc.record({ k: fc.constant("write"), f: name, tags: fc.nat(TAGSETS.length - 1), w: word, args: fc.nat(ARGS.length - 1), style: fc.constantFrom("option", "array"), inst: fc.constantFrom("plain", "plain", "overwriting") }, { noNullPrototype: true }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("edit"), f: name, add: fc.boolean(), w: fc.constantFrom("k", "x", "yy", "other"), args: fc.nat(5), inst: fc.constantFrom("plain", "plain", "overwriting") }, { noNullPrototype: true }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("delete"), f: name, retain: fc.constantFrom(undefined, [], ["Title"], ["Artist", "XMP-dc:Subject"], ["bad name"]), inst: fc.constantFrom("plain", "overwriting") }, { noNullPrototype: true }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("rewrite"), f: name, to: name, inst: fc.constant("plain") }, { noNullPrototype: true }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constantFrom("read", "readRaw", "buffer", "extract"), f: name, inst: fc.constantFrom("plain", "overwriting"), hash: fc.boolean() }, { noNullPrototype: true }) },
);

module.exports = {
  id: "C29",
  level: "exploration",
  technique: "stateful property-based testing: generated histories of reads and writes through the real exiftool against a model of the directory",
  shards: 8,
  rule:
    "Histories of 1-8 calls (write with several argument styles, editTags, deleteAllTags, rewriteAllTags, read, readRaw, extraction; accepted, refused and without effect) by two instances (one configured with -overwrite_original) over a directory of images, sidecars, damaged, empty and absent files. Oracle: a map of the directory's bytes: a read, a rejected call and a call that reports 'unchanged' leave every file and modification time alone; any other write changes the named file only, keeps its picture data and mode, and leaves a backup equal to the bytes before the first backed-up write unless -overwrite_original was asked for; the result says created/updated/unchanged accordingly. Non-trivial: the history has a call that changed a file.",
  assumptions: ["one child serves each instance, so exiftool's own handling of simultaneous writers is not in question"],
  async run(ctx) {
    const u = ctx.u;
    const plain = u.real({ useMWG: false });
    const over = u.real({ useMWG: false, writeArgs: ["-overwrite_original"] });
    const root = path.join(ctx.scratch, "w");
    fs.mkdirSync(root);
    let n = 0;
    const picture = (b) =>
      b.length > 2 && b[0] === 0xff && b[1] === 0xd8 ? b.subarray(b.indexOf(Buffer.from([0xff, 0xdb]))) : b.includes("IDAT") ? b.subarray(b.indexOf("IDAT"), b.indexOf("IDAT") + 17) : Buffer.alloc(0);
    const snap = (dir) => {
      const o = {};
      for (const e of fs.readdirSync(dir).sort()) {
        const p = path.join(dir, e);
        const st = fs.lstatSync(p);
        o[e] = st.isFile() ? { bytes: fs.readFileSync(p), mtime: st.mtimeMs, mode: st.mode & 0o777 } : { bytes: Buffer.alloc(0), mtime: 0, mode: "dir" };
      }
      return o;
    };
    const brief = (s) => Object.fromEntries(Object.entries(s).map(([k, v]) => [k, v.bytes.length]));
    const same = (a, b, what, except = []) => {
      const ks = (s) => Object.keys(s).filter((k) => !except.includes(k));
      u.eq(ks(b), ks(a), `${what}: files of the directory`);
      for (const k of ks(a)) {
        u.ok(a[k].bytes.equals(b[k].bytes), () => `${what}: the bytes of ${JSON.stringify(k)} changed`);
        u.eq(b[k].mtime, a[k].mtime, `${what}: modification time of ${JSON.stringify(k)}`);
      }
    };
    try {
      await ctx.prop("directory-histories", {
        runs: [6000, 120000],
        arb: fc.record({ ops: fc.array(op, { minLength: 1, maxLength: 8 }), seeded: fc.boolean(), rel: fc.boolean(), mode: fc.constantFrom(0o644, 0o600, 0o664) }, { noNullPrototype: true }),
        async check({ ops, seeded, rel, mode }, t) {
          const dir = path.join(root, String(++n));
          fs.mkdirSync(dir);
          try {
            for (const k of NAMES) {
              const p = path.join(dir, k);
              if (/^(new|absent)/.test(k)) continue;
              fs.writeFileSync(p, k === "bad.jpg" ? "not an image" : k === "empty.png" ? "" : k.endsWith(".png") ? u.PNG : k.endsWith(".xmp") ? u.XMP : u.JPEG);
              fs.chmodSync(p, mode);
              fs.utimesSync(p, 1e9, 1e9);
            }
            if (seeded) {
              await over.write(path.join(dir, "a.jpg"), { Title: "old", Artist: "old", Subject: ["k", "x"] });
              await over.write(path.join(dir, "c.xmp"), { Title: "old", Subject: ["k", "x"] });
            }
            let changed = 0;
            for (const o of ops) {
              const et = o.inst === "plain" ? plain : over;
              const at = (f) => (rel ? path.relative(process.cwd(), path.join(dir, f)) : path.join(dir, f));
              const before = snap(dir);
              const what = `${JSON.stringify(o)} over ${u.show(brief(before))}`;
              let p;
              let overwrite = false;
              let args;
              if (o.k === "write") {
                args = ARGS[o.args];
                const tags = TAGSETS[o.tags](o.w);
                p = o.style === "array" && args ? et.write(at(o.f), tags, args) : et.write(at(o.f), tags, args ? { writeArgs: args } : undefined);
              } else if (o.k === "edit") {
                args = ARGS[o.args];
                p = et.editTags(at(o.f), [{ tag: "XMP-dc:Subject", operation: o.add ? "add" : "remove", value: o.w }], args ? { writeArgs: args } : undefined);
              } else if (o.k === "delete") {
                args = [];
                p = et.deleteAllTags(at(o.f), o.retain ? { retain: o.retain } : undefined);
              } else if (o.k === "rewrite") p = et.rewriteAllTags(at(o.f), at(o.to));
              else if (o.k === "read") p = et.read(at(o.f), o.hash ? { imageHashType: "SHA256", readArgs: [] } : undefined);
              else if (o.k === "readRaw") p = et.readRaw(at(o.f), { readArgs: ["-fast"] });
              else if (o.k === "buffer") p = et.extractBinaryTagToBuffer("ThumbnailImage", at(o.f));
              else p = et.extractThumbnail(at(o.f), at("absent.jpg"));
              overwrite = (args ?? (o.inst === "overwriting" ? ["-overwrite_original"] : [])).some((a) => a.startsWith("-overwrite_original"));
              const r = await u.settles(p, what);
              const after = snap(dir);
              t.label(`${o.k}: ${r.ok ? "resolved" : "rejected"}`);
              if (!r.ok || ["read", "readRaw", "buffer", "extract"].includes(o.k)) {
                if (o.k === "extract") u.ok(!r.ok, () => `${what}: resolved although there is no thumbnail`);
                same(before, after, `${what} (${r.ok ? "resolved" : "rejected: " + r.error})`);
                continue;
              }
              if (o.k === "rewrite") {
                u.ok(before[o.to] == null && after[o.to] != null, () => `${what}: resolved without a new file`);
                same(before, after, what, [o.to]);
                changed++;
                continue;
              }
              const res = u.pick(r.value, ["created", "updated", "unchanged"]);
              const f = o.f;
              const backup = f + "_original";
              // (with nothing acceptable to write, exiftool counts no file at all)
              if (res.created + res.updated === 0) {
                u.ok(res.unchanged <= 1 && (res.unchanged === 1 || !before[f] || r.value.warnings?.length > 0), () => `${what}: result ${u.show(r.value)}`);
                same(before, after, `${what} (unchanged)`);
                continue;
              }
              changed++;
              t.label(`${o.k}: ${before[f] ? (overwrite ? "overwrote" : "backed up") : "created"}`);
              u.eq(res, before[f] ? { created: 0, updated: 1, unchanged: 0 } : { created: 1, updated: 0, unchanged: 0 }, `${what}: result`);
              u.ok(after[f] != null, () => `${what}: the file is gone`);
              same(before, after, what, [f, backup]);
              if (before[f]) {
                u.ok(picture(before[f].bytes).equals(picture(after[f].bytes)), () => `${what}: picture data changed`);
                u.eq(after[f].mode, before[f].mode, `${what}: mode of the file`);
                if ((args ?? []).includes("-P")) u.eq(Math.floor(after[f].mtime / 1000), Math.floor(before[f].mtime / 1000), `${what}: modification time kept by -P`);
              }
              const expected = before[backup] ?? (overwrite || !before[f] ? undefined : before[f]);
              u.eq(after[backup] != null, expected != null, `${what}: is there a backup`);
              if (expected) u.ok(after[backup].bytes.equals(expected.bytes), () => `${what}: the backup is not the original`);
            }
            t.nontrivial(changed > 0);
          } finally {
            fs.rmSync(dir, { recursive: true, force: true });
          }
        },
      });
    } finally {
      await plain.end();
      await over.end();
    }
  },
};
