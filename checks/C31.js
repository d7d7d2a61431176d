"use strict";
const fs = require("node:fs");
const path = require("node:path");
const cp = require("node:child_process");
const g = require("../lib/gens");
const { fc } = g;

// Tags to write, with their family 0 group and values that print differently from their numbers.
const POOL = [
  ["EXIF", "Orientation", ["1", "3", "6", "8"], true],
  ["EXIF", "Flash", ["0", "1", "16", "25"], true],
  ["EXIF", "ExposureProgram", ["2", "3", "7"], true],
  ["EXIF", "MeteringMode", ["1", "5", "255"], true],
  ["EXIF", "ExposureTime", ["0.004", "0.5", "2"], true],
  ["EXIF", "FNumber", ["2.8", "11"], true],
  ["EXIF", "ISO", ["100", "6400"], true],
  ["EXIF", "FocalLength", ["35", "4.25"], true],
  ["EXIF", "SubjectDistance", ["1.5", "12"], true],
  ["EXIF", "WhiteBalance", ["0", "1"], true],
  ["EXIF", "ColorSpace", ["1", "65535"], true],
  ["EXIF", "ExposureCompensation", ["-0.333", "1"], true],
  ["EXIF", "Sharpness", ["0", "1", "2"], true],
  ["EXIF", "LightSource", ["0", "4", "21"], true],
  ["EXIF", "DateTimeOriginal", ["2021:02:03 04:05:06", "1999:12:31 23:59:59"]],
  ["EXIF", "ModifyDate", ["2022:02:03 04:05:06"]],
  ["EXIF", "OffsetTimeOriginal", ["+05:30", "-08:00"]],
  ["EXIF", "SubSecTimeOriginal", ["12", "345"]],
  ["EXIF", "Artist", ["Zoë", "a b", "12"]],
  ["EXIF", "GPSLatitude", ["37.5", "51.25"], true],
  ["EXIF", "GPSLatitudeRef", ["N", "S"]],
  ["EXIF", "GPSLongitude", ["122.5", "13.375"], true],
  ["EXIF", "GPSLongitudeRef", ["E", "W"]],
  ["EXIF", "GPSAltitude", ["12.5", "8000"], true],
  ["EXIF", "GPSAltitudeRef", ["0", "1"], true],
  ["EXIF", "GPSImgDirection", ["12.5", "359"], true],
  ["EXIF", "GPSDateStamp", ["2021:02:03"]],
  ["EXIF", "GPSTimeStamp", ["04:05:06", "01:02:03.5"]],
  ["XMP", "XMP-dc:Title", ["title", "日本", "0012"]],
  ["XMP", "XMP-dc:Subject", ["one", "two"], false, true],
  ["XMP", "XMP-xmp:Rating", ["0", "3", "5"], true],
  ["XMP", "XMP-xmp:CreateDate", ["2020:01:02 03:04:05+01:00", "2020", "2020:05"]],
  ["XMP", "XMP-crs:HasSettings", ["True", "False"], true],
  ["XMP", "XMP-exif:SceneType", ["1"], true],
  ["XMP", "XMP-mwg-rs:RegionInfo", ["{AppliedToDimensions={W=10,H=20,Unit=pixel},RegionList=[{Name=Ann,Type=Face,Area={X=0.1,Y=0.2,W=0.3,H=0.4,Unit=normalized}},{Name=Bob,Type=Pet}]}"], true],
  ["XMP", "XMP-xmpMM:History", ["[{Action=saved,When=2020:01:02 03:04:05+01:00,SoftwareAgent=x},{Action=derived,Changed=/}]"]],
  ["XMP", "XMP-mwg-coll:Collections", ["[{CollectionName=n,CollectionURI=u}]"]],
  ["IPTC", "IPTC:Keywords", ["k1", "k2"], false, true],
  ["IPTC", "IPTC:Urgency", ["0", "5", "8"], true],
  ["IPTC", "IPTC:DateCreated", ["2020:01:02"]],
  ["File", "Comment", ["a comment"]],
];
const bare = (n) => n.replace(/^.*:/, "");
const NAMES = POOL.map((x) => bare(x[1]));
const numeric = fc.oneof(
  { weight: 6, arbitrary: fc.constantFrom(...POOL.filter((x) => x[3]).map((x) => bare(x[1])), "Aperture", "ShutterSpeed", "LightValue", "RegionAppliedToDimensionsW", "RegionType", "Megapixels", "ImageSize", "FileSize", "Orientation", "FileModifyDate", "FilePermissions", "SubSecDateTimeOriginal") },
  { weight: 1, arbitrary: fc.constantFrom(...NAMES, "NoSuchTag") },
  { weight: 1, arbitrary: fc.constantFrom("*Time*", "Exposure*", "F*", "?ating", "*o*", "ISO*", "GPS*", "G*Ref", "*") },
  { weight: 1, arbitrary: fc.constantFrom("orientation", "FLASH", "iso", "exposuretime") },
);
const tagWrites = fc.uniqueArray(fc.nat(POOL.length - 1).chain((i) => fc.tuple(fc.constant(i), fc.nat(POOL[i][2].length - 1))), { minLength: 1, maxLength: 14, selector: (x) => x[0], size: "max" });
const numericTags = fc.oneof({ weight: 1, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constant([]) }, { weight: 5, arbitrary: fc.array(numeric, { minLength: 1, maxLength: 6 }) });
const request = fc.oneof(
  {
    weight: 5,
    arbitrary: fc.record(
      { how: fc.constant("read"), struct: fc.constantFrom(undefined, 0, 1, 2, "undef"), numericTags, geolocation: fc.constantFrom(undefined, undefined, undefined, true), utc: fc.constantFrom(undefined, undefined, true, false), args: fc.constantFrom(undefined, [], ["-fast"], ["-fast2"], ["-n"], ["-G"], ["-G1"], ["-G0:1"], ["-a"], ["-u"], ["-x", "Orientation"], ["-x", "XMP:all"], ["--Flash", "-fast"], ["-c", "%.4f"], ["-d", "%Y %m %d"], ["-e"], ["-api", "largefilesupport=1"], ["-sep", "; "], ["-l"]), position: fc.boolean() },
      { noNullPrototype: true },
    ),
  },
  { weight: 1, arbitrary: fc.record({ how: fc.constant("raw"), args: fc.constantFrom(undefined, [], ["-fast"], ["-n"], ["-G"], ["-G1", "-a"], ["-struct"], ["-Orientation", "-Flash#", "-XMP:all"], ["-Orientation#", "-all"], ["-j", "-n"], ["-json"], ["-JFIF:all", "-jfif:XResolution#"], ["-jpgfromraw", "-Orientation"], ["-joboption", "-json:all", "-Flash"], ["-s"], ["-x", "EXIF:all"], ["-g1"], ["-D"], ["-l"]), position: fc.boolean() }, { noNullPrototype: true }) },
);

module.exports = {
  id: "C31",
  level: "exploration",
  technique: "differential property-based testing: generated files and read options, compared with exiftool itself run with and without numeric output",
  shards: 8,
  rule:
    "Generated JPEG, PNG and XMP files (1-14 tags out of 41 in EXIF, XMP, IPTC and JPEG comment, among them enumerated, rational and structured ones) are read with generated options: numericTags (plain names, other case, globs, absent tags, none, the default list), struct modes, useMWG, geolocation, keepUTCTime, extra arguments, as option or as argument. Oracle: a second exiftool process that the check drives itself, asked once for printed and once for numeric values; read() must report exactly its tags, those which a numericTags entry matches with the numeric value and all others as printed; readRaw() must equal its JSON. Non-trivial: some tag is matched whose numeric value differs from the printed one, or the file holds a structure, or extra arguments are given.",
  assumptions: ["latitude, longitude and their references and position are left to C14; how dates, booleans and binary fields are wrapped to C08, C09 and C16", "an entry naming a tag that several groups of the output share may apply to any of them"],
  async run(ctx) {
    const u = ctx.u;
    const L = ctx.lib;
    const dir = path.join(ctx.scratch, "w");
    fs.mkdirSync(dir);
    // one pair of (library instance, exiftool of our own) per useMWG, which sticks to a process
    const pairs = {};
    const own = async (bin) => {
      const p = cp.spawn("/usr/bin/perl", [bin, "-stay_open", "True", "-@", "-"], { stdio: ["pipe", "pipe", "ignore"], env: { LANG: "C" } });
      let buf = "";
      let done;
      p.stdout.setEncoding("utf8");
      p.stdout.on("data", (d) => {
        buf += d;
        const i = buf.indexOf("{ready}");
        if (i >= 0 && done) {
          const r = buf.slice(0, i);
          buf = buf.slice(buf.indexOf("\n", i) + 1);
          const f = done;
          done = undefined;
          f(r);
        }
      });
      return {
        run: (args) =>
          new Promise((resolve) => {
            done = resolve;
            p.stdin.write([...args, "-execute", ""].join("\n"));
          }),
        end: () => p.kill("SIGKILL"),
      };
    };
    const pair = async (mwg) => {
      if (!pairs[mwg]) {
        const et = u.real({ useMWG: mwg });
        const bin = await et.exiftoolPath();
        // (writing a structure changes how exiftool names its flattened fields later in the same process)
        pairs[mwg] = { et, x: await own(bin), w: await own(bin) };
      }
      return pairs[mwg];
    };
    const VOLATILE = new Set(["FileAccessDate", "FileInodeChangeDate"]);
    const LEFT = new Set(["GPSLatitude", "GPSLongitude", "GPSLatitudeRef", "GPSLongitudeRef", "GPSPosition"]);
    const OWN = new Set(["zone", "tz", "tzSource", "errors", "warnings", "invalidUtf8Bytes", "SourceFile", "Warning", "Error"]);
    const unwrap = (v) => {
      if (v instanceof L.ExifDateTime || v instanceof L.ExifDate || v instanceof L.ExifTime || v instanceof L.BinaryField) return v.rawValue;
      if (Array.isArray(v)) return v.map(unwrap);
      if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, unwrap(x)]));
      return v;
    };
    const glob = (s) => new RegExp("^" + s.replace(/[.*+?^${}()|[\]\\]/g, (c) => (c === "*" ? ".*" : c === "?" ? "." : "\\" + c)) + "$", "i");
    let n = 0;
    try {
      await ctx.prop("against-exiftool", {
        runs: [3200, 60000],
        arb: fc.record({ kind: fc.constantFrom("jpg", "jpg", "jpg", "png", "xmp"), mwg: fc.boolean(), tags: tagWrites, reads: fc.array(request, { minLength: 1, maxLength: 4 }) }, { noNullPrototype: true }),
        async check(c, t) {
          const { et, x, w } = await pair(c.mwg);
          const file = path.join(dir, `f${++n}.${c.kind}`);
          try {
            fs.writeFileSync(file, { jpg: u.JPEG, png: u.PNG, xmp: u.XMP }[c.kind]);
            const writes = [];
            for (const [i, j] of c.tags) {
              const [, name, values, raw, list] = POOL[i];
              const struct = /^[[{]/.test(values[j]);
              for (const v of list ? values.slice(0, j + 1) : [values[j]]) writes.push(`-${name}${raw && !struct ? "#" : ""}=${v}`);
            }
            await w.run(["-overwrite_original", "-m", "-struct", ...writes, file]);
            t.label(c.kind);
            for (const r of c.reads) {
              const cmd = ["-json", ...(r.args ?? []), ...(r.how === "read" ? ["-api", `struct=${typeof r.struct === "number" ? r.struct : r.struct === "undef" ? 0 : 1}`] : []), ...(r.geolocation ? ["-api", "geolocation"] : []), ...(r.how === "read" && r.utc !== false ? ["-api", "keepUTCTime"] : []), ...(c.mwg ? ["-use", "MWG"] : [])];
              const what = `${r.how === "read" ? "read" : "readRaw"}(${JSON.stringify(r)}) of a ${c.kind} after ${JSON.stringify(writes)}${c.mwg ? " (MWG)" : ""}`;
              const answer = async (extra) => {
                const s = await x.run([...cmd, ...extra, ...(r.how === "read" ? ["-all"] : []), file]);
                return s.trim() === "" ? undefined : JSON.parse(s)[0];
              };
              const printed = await answer([]);
              if (printed === undefined) {
                t.label("no output");
                continue;
              }
              if (r.how === "raw") {
                const got = await u.settles(r.position || r.args === undefined ? et.readRaw(file, r.args) : et.readRaw(file, { readArgs: r.args }), what);
                u.ok(got.ok, () => `${what} rejected: ${got.error}`);
                const strip = (o, top = true) =>
                  Object.fromEntries(
                    Object.entries(o)
                      .filter(([k]) => !VOLATILE.has(bare(k)) && !(top && (k === "errors" || k === "warnings")))
                      .map(([k, v]) => [k, r.args?.includes("-g1") && v && typeof v === "object" && !Array.isArray(v) ? strip(v, false) : v])
                      .sort(([a], [b]) => (a < b ? -1 : 1)),
                  );
                if (r.args === undefined) {
                  // the instance's own readArgs are in effect
                  const s = JSON.parse(await x.run([...cmd, "-fast", file]))[0];
                  u.eq(strip(got.value), strip(s), what);
                } else u.eq(strip(got.value), strip(printed), what);
                if (r.args?.length) t.nontrivial();
                continue;
              }
              const fast = r.args === undefined ? await answer(["-fast"]) : printed;
              const numbers = await answer(r.args === undefined ? ["-fast", "-n"] : ["-n"]);
              const opts = { ...(r.struct === undefined ? {} : { struct: r.struct }), ...(r.numericTags ? { numericTags: r.numericTags } : {}), ...(r.geolocation ? { geolocation: true } : {}), ...(r.utc === undefined ? {} : { keepUTCTime: r.utc }) };
              const got = await u.settles(r.position && r.args ? et.read(file, r.args, opts) : et.read(file, { ...opts, ...(r.args ? { readArgs: r.args } : {}) }), what);
              u.ok(got.ok, () => `${what} rejected: ${got.error}`);
              const entries = r.numericTags ?? ["*Duration*", "GPSAltitude", "GPSLatitude", "GPSLongitude", "GPSPosition", "GeolocationPosition", "Orientation"];
              const grouped = Object.keys(fast).some((k) => k.includes(":"));
              const count = {};
              for (const k of Object.keys(fast)) count[bare(k)] = (count[bare(k)] ?? 0) + 1;
              const named = (k) => entries.some((e) => glob(e).test(bare(k)));
              const value = got.value;
              for (const [k, p] of Object.entries(fast)) {
                const b = bare(k);
                if (VOLATILE.has(b) || LEFT.has(b) || OWN.has(b) || p === null || /^(undef|null|undefined)$/.test(String(p).trim())) continue;
                const m = named(k);
                const want = m ? numbers[k] : p;
                const have = unwrap(value[k]);
                const same = (w) => (b === "ExifToolVersion" ? String(w) === String(have) : require("node:util").isDeepStrictEqual(have, unwrap(w)) || (/Valid$/.test(b) && typeof have === "boolean"));
                if (m && !require("node:util").isDeepStrictEqual(numbers[k], p)) t.nontrivial();
                if (p && typeof p === "object") t.nontrivial();
                u.ok(k in value, () => `${what}: ${k} (${u.show(want)}) is missing`);
                u.ok(same(want) || (grouped && count[b] > 1 && (same(p) || same(numbers[k]))), () => `${what}: ${k} is ${u.show(value[k])}, exiftool says ${u.show(want)}${m ? " (numeric)" : ""}`);
              }
              for (const k of Object.keys(value)) u.ok(k in fast || OWN.has(k) || LEFT.has(bare(k)), () => `${what}: ${k} = ${u.show(value[k])} is not in exiftool's answer`);
              if (r.args?.length) t.nontrivial();
            }
          } finally {
            fs.rmSync(file, { force: true });
          }
        },
      });
    } finally {
      for (const p of Object.values(pairs)) {
        p.x.end();
        p.w.end();
        await p.et.end().catch(() => {});
      }
    }
  },
};
