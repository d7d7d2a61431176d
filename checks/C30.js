"use strict";
const fs = require("node:fs");
const path = require("node:path");
const zlib = require("node:zlib");
const g = require("../lib/gens");
const { fc } = g;

const TYPES = ["MD5", "SHA256", "SHA512"];
const LEN = { MD5: 32, SHA256: 64, SHA512: 128 };
const how = fc.oneof(
  { weight: 3, arbitrary: fc.constantFrom(...TYPES).map((type) => ({ type })) },
  { weight: 1, arbitrary: fc.constantFrom({ type: false }, { type: undefined }, { md5: true }, { md5: false }, { type: "sha256" }, { type: "SHA1" }, { type: "MD5\n-all=" }) },
);
const step = fc.oneof(
  { weight: 5, arbitrary: fc.record({ k: fc.constant("read"), pic: fc.nat(5), inst: fc.nat(3), how, fast: fc.constantFrom(undefined, undefined, [], ["-fast"]), n: fc.boolean() }, { noNullPrototype: true }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("write"), pic: fc.nat(5), tags: fc.constantFrom({ Title: "x" }, { Artist: "é", Copyright: "c" }, { Title: null, Artist: null }, { Subject: ["a", "b"], Rating: 3 }, { DateTimeOriginal: "2020:01:02 03:04:05" }, { GPSLatitude: 1.5, GPSLongitude: 2.5 }) }, { noNullPrototype: true }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("strip"), pic: fc.nat(5) }, { noNullPrototype: true }) },
);

module.exports = {
  id: "C30",
  level: "exploration",
  technique: "stateful property-based testing: generated histories of metadata changes and hash requests through the real exiftool against a picture -> digest model",
  shards: 8,
  rule:
    "Histories of 2-12 steps over three JPEG and three PNG pictures with generated image data (some pairs equal, some differing in one byte): metadata writes, deleteAllTags, and reads asking for a hash type per call, by instance option or by the deprecated includeImageDataMD5, or asking for none, or for an unknown type. Oracle: a table of (image data, type) -> digest filled in as the history runs: equal data and type always give one digest, of the right length, whatever the metadata; different data give different digests; no request, no digest; an unknown type rejects. Non-trivial: a digest is seen again after a metadata change, or under two types.",
  assumptions: ["the digest function itself is ExifTool's"],
  async run(ctx) {
    const u = ctx.u;
    const insts = [undefined, "MD5", "SHA512"].map((imageHashType) => u.real({ useMWG: false, ...(imageHashType ? { imageHashType } : {}) }));
    insts.push(u.real({ useMWG: false, includeImageDataMD5: true }));
    const INST = [undefined, "MD5", "SHA512", "MD5"];
    const root = path.join(ctx.scratch, "w");
    fs.mkdirSync(root);
    let n = 0;
    const jpeg = (data) => {
      const i = u.JPEG.indexOf(Buffer.from([0xff, 0xda]));
      return Buffer.concat([u.JPEG.subarray(0, i + 10), Buffer.from(data.map((x) => x & 0x7f)), Buffer.from([0xff, 0xd9])]);
    };
    const png = (data) => {
      const chunk = (type, b) => {
        const h = Buffer.alloc(8);
        h.writeUInt32BE(b.length, 0);
        h.write(type, 4, "latin1");
        const c = Buffer.alloc(4);
        c.writeUInt32BE(zlib.crc32 ? zlib.crc32(Buffer.concat([h.subarray(4), b])) >>> 0 : 0, 0);
        return Buffer.concat([h, b, c]);
      };
      const ihdr = Buffer.from([0, 0, 0, 1, 0, 0, 0, 1, 8, 6, 0, 0, 0]);
      return Buffer.concat([u.PNG.subarray(0, 8), chunk("IHDR", ihdr), chunk("IDAT", zlib.deflateSync(Buffer.from([0, ...data]))), chunk("IEND", Buffer.alloc(0))]);
    };
    try {
      await ctx.prop("hash-histories", {
        runs: [2800, 60000],
        arb: fc.record({ data: fc.array(fc.array(fc.integer({ min: 0, max: 255 }), { minLength: 4, maxLength: 12 }), { minLength: 2, maxLength: 2 }), tweak: fc.nat(3), steps: fc.array(step, { minLength: 2, maxLength: 12 }) }, { noNullPrototype: true }),
        async check({ data, tweak, steps }, t) {
          const dir = path.join(root, String(++n));
          fs.mkdirSync(dir);
          try {
            const near = data[0].map((x, i) => (i === tweak ? x ^ 1 : x));
            const pics = [jpeg(data[0]), jpeg(data[0]), jpeg(near), png(data[1]), png(data[1]), png(data[1].map((x, i) => (i === tweak ? x ^ 1 : x)))];
            const id = ["J", "J", "J'", "P", "P", "P'"];
            const file = (i) => path.join(dir, `p${i}.${i < 3 ? "jpg" : "png"}`);
            pics.forEach((b, i) => fs.writeFileSync(file(i), b));
            const seen = new Map();
            const touched = new Set();
            let again = false;
            for (const s of steps) {
              const f = file(s.pic);
              if (s.k === "write") {
                await insts[0].write(f, s.tags, { writeArgs: ["-overwrite_original"] });
                touched.add(s.pic);
                continue;
              }
              if (s.k === "strip") {
                await insts[0].deleteAllTags(f);
                touched.add(s.pic);
                continue;
              }
              const opts = { ...("type" in s.how && s.how.type !== undefined ? { imageHashType: s.how.type } : {}), ...("md5" in s.how ? { includeImageDataMD5: s.how.md5 } : {}), ...(s.fast ? { readArgs: s.fast } : {}), ...(s.n ? { numericTags: ["Orientation"] } : {}) };
              // (the instance has a setting of its own only for the deprecated option)
              if ("md5" in s.how && s.inst !== 0) continue;
              const asked = "md5" in s.how ? (s.how.md5 ? "MD5" : undefined) : s.how.type === undefined ? INST[s.inst] : s.how.type || undefined;
              const what = `read(${path.basename(f)} ${touched.has(s.pic) ? "with changed metadata" : ""}, ${u.show(opts)}) by an instance with ${INST[s.inst]}`;
              const r = await u.settles(insts[s.inst].read(f, opts), what);
              if (asked && !TYPES.includes(asked)) {
                u.ok(!r.ok, () => `${what} resolved`);
                continue;
              }
              u.ok(r.ok, () => `${what} rejected: ${r.error}`);
              const h = r.value.ImageDataHash;
              t.label(asked ?? "none");
              if (!asked) {
                u.eq(h, undefined, `${what}: ImageDataHash`);
                continue;
              }
              u.ok(typeof h === "string" && new RegExp(`^[0-9a-f]{${LEN[asked]}}$`).test(h), () => `${what}: ImageDataHash is ${u.show(h)}`);
              const key = id[s.pic] + asked;
              if (seen.has(key)) {
                u.eq(h, seen.get(key), `${what}: the digest of the same picture`);
                if (touched.has(s.pic)) again = true;
              }
              for (const [k, v] of seen) if (k !== key) u.ok(v !== h, () => `${what}: the digest equals that of ${k}`);
              seen.set(key, h);
            }
            t.nontrivial(again || seen.size > 1);
          } finally {
            fs.rmSync(dir, { recursive: true, force: true });
          }
        },
      });
    } finally {
      for (const et of insts) await et.end();
    }
  },
};
