"use strict";
const fs = require("node:fs");
const path = require("node:path");
const cp = require("node:child_process");
const g = require("../lib/gens");
const { fc } = g;

const LANGS = ["en", "de", "fr", "zh_cn", "en_gb"];
const NAMES = ["ISO", "Artist", "Title", "ProfileType", "SampleRate", "Zoom", "A", "ThumbnailImageX", "Make", "Lens", "desc", "tag", "name", "Red-eye", "x16", "007", "AFPoint1", "ISOSpeed", "lang"];
const ABSENT = ["constructor", "toString", "__proto__", "hasOwnProperty", "valueOf", "", " ", "iso", "NoSuchTag", "ISO ", "Tag Name", "<desc", "ProfileTyp", "'", "en"];
const word = fc.constantFrom("Zoom", "a", "é", "日本", "Тип", "&", "<", ">", "'", '"', "&amp;", "&lt;", "&#39;", "(x)", "$1", "{ready}", "l'image", "desc lang='en'", "</desc>", "]]>", "name='Zoom'", ":", "0");
const desc = fc.array(word, { minLength: 1, maxLength: 4 }).map((a) => a.join(" "));
const descs = fc.record(Object.fromEntries(LANGS.map((l) => [l, fc.option(desc, { freq: l === "en" ? 20 : 3 })])), { noNullPrototype: true });
const tag = fc.record({ id: fc.constantFrom("0", "Bit016-017", "0x0100", "a&b", "it's"), name: fc.constantFrom(...NAMES), descs, vals: fc.array(descs, { maxLength: 2 }), attrs: fc.constantFrom("", " count='4'", " index='0' count='-1'", " g2='Image'", " flags='Avoid,Unsafe'") }, { noNullPrototype: true });
const db = fc.array(fc.record({ name: fc.constantFrom("AAC::Main", "Exif::Main", "XMP::dc"), descs, tags: fc.array(tag, { maxLength: 6 }) }, { noNullPrototype: true }), { minLength: 1, maxLength: 3 });
const anyName = fc.oneof({ weight: 4, arbitrary: fc.constantFrom(...NAMES) }, { weight: 1, arbitrary: fc.constantFrom(...ABSENT) });
const inst = fc.nat(3);
const op = fc.oneof(
  { weight: 6, arbitrary: fc.record({ op: fc.constant("lookup"), i: inst, names: fc.array(anyName, { minLength: 1, maxLength: 4 }), how: fc.constantFrom("async", "async", "sync", "all") }, { noNullPrototype: true }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant("together"), is: fc.array(inst, { minLength: 2, maxLength: 4 }), name: anyName }, { noNullPrototype: true }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constantFrom("clear", "preload"), i: inst }, { noNullPrototype: true }) },
  { weight: 2, arbitrary: fc.record({ op: fc.constant("renew"), i: inst }, { noNullPrototype: true }) },
  { weight: 4, arbitrary: fc.record({ op: fc.constant("damage"), how: fc.constantFrom("delete", "truncate", "truncate", "empty", "garbage", "bytes", "version", "language", "scalar", "null", "dir", "prefix", "no-descriptions"), at: fc.double({ min: 0, max: 1, noNaN: true }), renew: fc.boolean() }, { noNullPrototype: true }) },
  { weight: 1, arbitrary: fc.record({ op: fc.constant("fail"), i: inst, name: anyName, act: fc.constantFrom("exit", "exitMid") }, { noNullPrototype: true }) },
);
const calmOp = op.filter((o) => o.op !== "fail");
const historyOf = (op) => fc.record(
  {
    db,
    insts: fc.array(fc.record({ language: fc.constantFrom(undefined, "en", "de", "fr", "zh_cn", "en_gb"), disableDiskCache: fc.constantFrom(undefined, false, false, true) }, { noNullPrototype: true }), { minLength: 4, maxLength: 4 }),
    dir: fc.constantFrom("new", "new", "deep", "exists", "file"),
    ops: fc.array(op, { minLength: 2, maxLength: 10 }),
    cuts: fc.array(fc.nat(), { maxLength: 3 }),
  },
  { noNullPrototype: true },
);

// exiftool's own escaping of XML text
const esc = (s) => s.replace(/[&<>'"]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", "'": "&#39;", '"': "&quot;" })[c]);
const langs = (d, el, pad) => LANGS.filter((l) => d[l] != null).map((l) => `${pad}<${el} lang='${l}'>${esc(d[l])}</${el}>\n`).join("");
const render = (tables) =>
  `<?xml version='1.0' encoding='UTF-8'?>\n<!-- Generated by Image::ExifTool 13.59 -->\n<taginfo>\n\n${tables
    .map((t) => `<table name='${t.name}' g0='X' g1='X' g2='Audio'>\n${langs(t.descs, "desc", " ")}${t.tags.map((x) => ` <tag id='${esc(x.id)}' name='${x.name}' type='?'${x.attrs} writable='false'>\n${langs(x.descs, "desc", "  ")}${x.vals.length ? `  <values>\n${x.vals.map((v, i) => `   <key id='${i}'>\n${langs(v, "val", "    ")}   </key>\n`).join("")}  </values>\n` : ""} </tag>\n`).join("")}</table>\n\n`)
    .join("")}</taginfo>\n`;

module.exports = {
  id: "C23",
  level: "exploration",
  technique: "stateful property-based testing with fault injection on the cache file: generated tag databases and lookup histories against a reference map; differential against the real tag database",
  shards: 8,
  rule:
    "Tag databases (tables, repeated names, five languages, entities, markup look-alikes, value lists) are generated and served as exiftool -listx output by a stand-in; histories of 2-10 operations over four TagDescriptions instances (languages, with and without disk cache) sharing one cache directory look up present, absent and Object.prototype-like names (sync, async, all, concurrently), clear, recreate, damage the cache files (delete, truncate, garbage, flipped bytes that break the JSON, another version or language, directory in their place, unwritable location) and make exiftool die. Oracle: the set of descriptions the database gives the name in that language, and equality with the first answer; a lookup may only fail while exiftool fails. The real database is also loaded in several languages and compared, tag by tag, with an independent parse of exiftool -listx. Non-trivial: a lookup follows damage or a failure, or uses a cache written by another instance.",
  assumptions: ["a cache file that is well-formed and claims the right version and language is trusted", "for a name in several tables any of its descriptions is accepted, but always the same one"],
  async run(ctx) {
    const u = ctx.u;
    const { TagDescriptions } = ctx.lib;
    const f = u.fake({ maxProcs: 2 });
    const root = path.join(ctx.scratch, "c23");
    fs.mkdirSync(root);
    let n = 0;
    try {
      const curatedOnly = new TagDescriptions(f.et, { disableDiskCache: true });
      const spec = {
        async check({ db, insts, dir, ops, cuts }, t) {
          const top = path.join(root, String(++n));
          fs.mkdirSync(top);
          const cacheDir = dir === "deep" ? path.join(top, "a", "b c") : path.join(top, "cache");
          if (dir === "exists") fs.mkdirSync(cacheDir);
          if (dir === "file") fs.writeFileSync(cacheDir, "not a directory");
          try {
            const xml = render(db);
            const ctl = { stdout: xml, cuts };
            const serve = (c) => fs.writeFileSync(path.join(f.dir, "listx.ctl"), JSON.stringify(c));
            serve(ctl);
            const known = {}; // lang → name → Set
            for (const l of LANGS) {
              known[l] = new Map();
              for (const tb of db) for (const x of tb.tags) if (x.descs[l] != null) known[l].set(x.name, (known[l].get(x.name) ?? new Set()).add(x.descs[l].trim()));
            }
            const make = (o) => new TagDescriptions(f.et, { cacheDir, ...(o.language === undefined ? {} : { language: o.language }), ...(o.disableDiskCache === undefined ? {} : { disableDiskCache: o.disableDiskCache }) });
            const live = insts.map(make);
            const first = {};
            const langOf = (i) => insts[i].language ?? "en";
            const judge = (i, name, got, what) => {
              const l = langOf(i);
              const curated = l === "en" ? curatedOnly.get(name) : undefined;
              if (got === undefined || got === null) u.ok(!curated && !known[l].has(name), () => `${what}: nothing, though the database has ${u.show([...(known[l].get(name) ?? [])])}`);
              else {
                u.ok(typeof got === "object" && typeof got.desc === "string", () => `${what}: ${u.show(got)} is not a description`);
                if (curated) u.eq(got, curated, what);
                else u.ok(known[l].get(name)?.has(got.desc) && got.see === undefined, () => `${what}: got ${u.show(got)}, the database says ${u.show([...(known[l].get(name) ?? [])])}`);
              }
              const key = l + "/" + name;
              if (key in first) u.eq(got?.desc, first[key], `${what}: differs from an earlier answer`);
              else first[key] = got?.desc;
            };
            let touched = false;
            const loaded = new Set();
            for (const [k, o] of ops.entries()) {
              const at = `op ${k + 1} ${u.show(o)} (language ${o.i != null ? langOf(o.i) : "-"})`;
              if (o.op === "lookup") {
                const d = live[o.i];
                if (o.how === "all") {
                  const r = await u.settles(d.getAll(), at);
                  u.ok(r.ok, () => `${at} rejected: ${r.error}`);
                  for (const name of [...o.names, ...NAMES]) judge(o.i, name, r.value.get(name), `${at}: getAll().get(${JSON.stringify(name)})`);
                  const l = langOf(o.i);
                  for (const name of r.value.keys()) u.ok(known[l].has(name) || (l === "en" && curatedOnly.get(name)), () => `${at}: getAll() has ${JSON.stringify(name)}, which is not in the database`);
                  u.eq(d.size, r.value.size, `${at}: size`);
                } else
                  for (const name of o.names) {
                    if (o.how === "sync") {
                      const was = d.isLoaded;
                      const got = d.get(name);
                      if (was || got !== undefined) judge(o.i, name, got, `${at}: get(${JSON.stringify(name)})`);
                      continue;
                    }
                    const r = await u.settles(d.getAsync(name), at);
                    u.ok(r.ok, () => `${at}: getAsync(${JSON.stringify(name)}) rejected: ${r.error}`);
                    judge(o.i, name, r.value, `${at}: getAsync(${JSON.stringify(name)})`);
                  }
                if (touched || loaded.size) t.nontrivial();
                loaded.add(o.i);
              } else if (o.op === "together") {
                const rs = await Promise.all(o.is.map((i) => u.settles(live[i].getAsync(o.name), at)));
                rs.forEach((r, j) => {
                  u.ok(r.ok, () => `${at}: getAsync rejected: ${r.error}`);
                  judge(o.is[j], o.name, r.value, `${at}: instance ${o.is[j]} (${langOf(o.is[j])})`);
                });
              } else if (o.op === "clear") {
                live[o.i].clear();
                u.eq([live[o.i].isLoaded, live[o.i].size], [false, 0], `${at}: isLoaded, size`);
              } else if (o.op === "preload") {
                const r = await u.settles(live[o.i].preload(), at);
                u.ok(r.ok, () => `${at} rejected: ${r.error}`);
                u.eq(live[o.i].isLoaded, true, `${at}: isLoaded`);
              } else if (o.op === "renew") live[o.i] = make(insts[o.i]);
              else if (o.op === "fail") {
                const before = fs.existsSync(cacheDir) && fs.statSync(cacheDir).isDirectory() ? fs.readdirSync(cacheDir) : [];
                for (const e of before) fs.rmSync(path.join(cacheDir, e), { recursive: true });
                serve({ ...ctl, act: o.act });
                const d = (live[o.i] = make(insts[o.i]));
                const r = await u.settles(d.getAsync(o.name), at);
                if (r.ok) judge(o.i, o.name, r.value, `${at}: while exiftool dies`);
                else t.label("rejected while exiftool dies");
                serve(ctl);
                const again = await u.settles(d.getAsync(o.name), at);
                u.ok(again.ok, () => `${at}: exiftool works again, but getAsync rejects: ${again.error}`);
                judge(o.i, o.name, again.value, `${at}: after exiftool died`);
                touched = true;
              } else if (o.op === "damage") {
                if (!fs.existsSync(cacheDir) || !fs.statSync(cacheDir).isDirectory()) continue;
                for (const e of fs.readdirSync(cacheDir)) {
                  const p = path.join(cacheDir, e);
                  if (fs.statSync(p).isDirectory()) continue;
                  const b = fs.readFileSync(p);
                  const i = Math.floor(o.at * b.length);
                  let j;
                  try {
                    j = JSON.parse(b);
                  } catch {}
                  const poison = { ...Object.fromEntries(NAMES.map((x) => [x, { desc: "POISON" }])) };
                  if (o.how === "delete") fs.unlinkSync(p);
                  else if (o.how === "truncate") fs.writeFileSync(p, b.subarray(0, Math.min(i, b.length - 1)));
                  else if (o.how === "empty") fs.writeFileSync(p, "");
                  else if (o.how === "garbage") fs.writeFileSync(p, "\0\xff{not json");
                  else if (o.how === "bytes") {
                    const c = Buffer.concat([b.subarray(0, i), Buffer.from([0]), b.subarray(i)]);
                    fs.writeFileSync(p, c); // a raw NUL is never valid JSON
                  } else if (o.how === "version" && j && typeof j === "object") fs.writeFileSync(p, JSON.stringify({ ...j, version: ["13.58", "13.590", "", null][Math.floor(o.at * 3.99)], descriptions: poison }));
                  else if (o.how === "language" && j && typeof j === "object") fs.writeFileSync(p, JSON.stringify({ ...j, language: ["xx", "", null, "EN"][Math.floor(o.at * 3.99)], descriptions: poison }));
                  else if (o.how === "scalar") fs.writeFileSync(p, ["1", '"x"', "[]", "{}", "true"][Math.floor(o.at * 4.99)]);
                  else if (o.how === "null") fs.writeFileSync(p, "null");
                  else if (o.how === "prefix") fs.writeFileSync(p, Buffer.concat([Buffer.from("x"), b]));
                  else if (o.how === "no-descriptions" && j && typeof j === "object") fs.writeFileSync(p, JSON.stringify({ ...j, descriptions: o.at < 0.5 ? null : undefined }));
                  else if (o.how === "dir") {
                    fs.unlinkSync(p);
                    fs.mkdirSync(p);
                  } else continue;
                  touched = true;
                  t.label("damage:" + o.how);
                }
                if (o.renew) insts.forEach((x, i) => (live[i] = make(x)));
              }
            }
          } finally {
            fs.rmSync(top, { recursive: true, force: true });
          }
        },
      };
      await ctx.prop("lookups-over-a-damaged-cache", { runs: [3200, 80000], arb: historyOf(calmOp), ...spec });
      await ctx.prop("lookups-while-exiftool-dies", { runs: [240, 6000], arb: historyOf(op), ...spec });
    } finally {
      await f.end();
    }

    const et = u.real();
    let real;
    try {
      await ctx.prop("real-database", {
        runs: [5, 18],
        shards: 5,
        arb: fc.constant(ctx.shard),
        async check(shard, t) {
          if (!real) {
            const { exiftoolPath } = ctx.lib;
            const bin = typeof exiftoolPath === "function" ? await exiftoolPath() : et.options.exiftoolPath;
            const xml = cp.execFileSync("perl", [typeof bin === "string" ? bin : await et.exiftoolPath(), "-listx"], { maxBuffer: 1 << 28, encoding: "utf8" });
            real = { fr: new Map(), en: new Map(), de: new Map(), ja: new Map(), es: new Map() };
            let name = null;
            for (const l of xml.split("\n")) {
              const m = /^ <tag id='[^']*' name='([^']*)'/.exec(l);
              if (m) name = m[1];
              if (l.startsWith("</table>")) name = null;
              const d = /^  <desc lang='(\w+)'>(.*)<\/desc>$/.exec(l);
              if (d && name && real[d[1]]) real[d[1]].set(name, (real[d[1]].get(name) ?? new Set()).add(d[2].replace(/&(#39|amp|lt|gt|quot);/g, (_, e) => ({ "#39": "'", amp: "&", lt: "<", gt: ">", quot: '"' })[e]).trim()));
            }
          }
          const language = ["fr", "en", "de", "ja", "es"][shard % 5];
          const cacheDir = path.join(root, "real" + ++n);
          const cold = new TagDescriptions(et, { cacheDir, language });
          const warm = new TagDescriptions(et, { cacheDir, language });
          const a = await cold.getAll();
          const b = await warm.getAll();
          const none = new TagDescriptions(et, { cacheDir, language });
          for (const [k, set] of real[language]) {
            const c = none.get(k);
            const want = c ? [c.desc] : [...set];
            if (want.join("") === "") continue;
            u.ok(want.includes(a.get(k)?.desc), () => `${language} ${k}: got ${u.show(a.get(k))}, exiftool says ${u.show(want)}`);
            u.eq(b.get(k), a.get(k), `${language} ${k} from the cache`);
          }
          for (const k of a.keys()) u.ok(real[language].has(k) || none.get(k), () => `${language}: ${k} is not in exiftool's database`);
          u.eq(b.size, a.size, `${language}: size from the cache`);
          t.label(language + " " + a.size);
          t.nontrivial();
          fs.rmSync(cacheDir, { recursive: true, force: true });
        },
      });
    } finally {
      await et.end();
    }
  },
};
