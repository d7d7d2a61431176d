"use strict";
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

// What reaches the child process, for hostile text in every argument position.
module.exports = {
  id: "C01",
  level: "exploration",
  quickScale: 2,
  shards: 8,
  rule:
    "Every public call that sends a command is made with generated file names, tag names, tag values, list/struct members, numericTags, retain lists and extra arguments, mixing ordinary text with protocol metacharacters (LF, CR, NUL, other Unicode line breaks, -execute, -stay_open, leading '-' or '#', '<', '=', '{ready}', %-codes). A stand-in child records the argument lists it receives. Oracle: the call either rejects and the child receives nothing, or the child receives exactly one command with the same argument structure as a benign call of the same shape, in which only the hostile slots differ and decode back to the given text. Non-trivial: the call carries at least one metacharacter.",
  assumptions: ["entity-decoding '&#N;' is the inverse of ExifTool's -E decoding for text that contains no '&'", "the stand-in splits arguments at LF and commands at -execute, as exiftool's -stay_open loop does"],
  async run(ctx) {
    const u = ctx.u;
    const f = u.fake({ ignoreMinorErrors: false, useMWG: true });
    const { et } = f;
    await et.version();
    f.records();

    const META = ["\n", "\r", "\0", "\r\n", "\u2028", "\u2029", "\u0085", "\v", "\f", "\t", "-execute", "\n-execute\n", "\n-stay_open\nFalse\n", "-", "#", "=", "<", ">", "{ready}", "%d", " ", ":", "&", ";", "|", "\u001f", "\u2212", "\ud800", "\u00a0", "\ufeff", "$", "`", "@", "!", "*", "?", "+", "^", ",", "[", "]", "{", "}", "\"", "'", "\\"];
    const chunk = fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...META) }, { weight: 3, arbitrary: fc.string({ unit: "grapheme", maxLength: 5 }) }, { weight: 2, arbitrary: fc.string({ unit: fc.constantFrom(..."abcXYZ012"), minLength: 1, maxLength: 6 }) });
    const hostile = fc.array(chunk, { minLength: 1, maxLength: 5 }).map((a) => a.join(""));
    const word = fc.string({ unit: fc.constantFrom(..."abcdefXYZ019"), minLength: 1, maxLength: 8 });
    const mixed = fc.oneof({ weight: 1, arbitrary: word }, { weight: 3, arbitrary: hostile });

    const GRAMMAR = /^[A-Za-z0-9_:*?+#^][A-Za-z0-9_:\-*?+#^]*$/; // documented tag reference grammar
    const tagName = fc.oneof(
      { weight: 3, arbitrary: fc.constantFrom("Artist", "XMP-dc:Title", "IPTC:By-line", "Orientation#", "History+", "Description^", "*Duration*", "?mm") },
      { weight: 2, arbitrary: hostile },
      { weight: 2, arbitrary: fc.tuple(fc.constantFrom("Artist", "XMP-dc:Title", "Comment"), hostile).map(([a, b]) => a + b) },
      { weight: 1, arbitrary: fc.tuple(hostile, fc.constantFrom("Artist", "Comment")).map(([a, b]) => a + b) },
      { weight: 1, arbitrary: fc.constantFrom("execute", "EXECUTE", "execute7", "-execute") },
    );
    // a file name inside the scratch folder: no separators, no parent hops
    const fileName = fc.oneof({ weight: 1, arbitrary: word }, { weight: 2, arbitrary: hostile }).map((s) => s.replace(/[/\\]/g, "_").replace(/^\.+/, "_") || "x");
    const BREAKS = /[\r\n\0]/;
    const isMeta = (s) => /[^A-Za-z0-9 ]/.test(s);
    const settle = (p) => p.then((value) => ({ ok: true, value }), (error) => ({ ok: false, error }));
    const lone = (s) => /[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/.test(s);
    const wire = (s) => Buffer.from(s, "utf8").toString("utf8"); // what UTF-8 can carry

    // Make the call, then return the commands the child saw for it.
    const run = async (call) => {
      let p;
      try {
        p = Promise.resolve(call());
      } catch (e) {
        p = Promise.reject(e);
      }
      const r = await u.settles(p, "call");
      // a second command must be answered by its own response: nothing of the first leaks
      const probe = await u.settles(et.version(), "version after the call");
      u.ok(probe.ok && probe.value === "13.59", () => `the next command got someone else's response: ${u.show(probe)}`);
      const recs = f.records();
      // (version probes are also how the pool checks a child's health)
      const cmds = recs.filter((x) => x.cmd && !(x.cmd.length === 1 && x.cmd[0] === "-ver")).map((x) => x.cmd);
      u.ok(!recs.some((x) => x.end), "the child was told to exit");
      return { r, cmds };
    };
    // template: argument list of a benign call of the same shape
    const expectOne = (cmds, expected, what) => {
      u.eq(cmds.length, 1, `${what}: commands received by the child (${u.show(cmds)})`);
      u.eq(cmds[0].length, expected.length, `${what}: argument count of ${u.show(cmds[0])} vs ${u.show(expected)}`);
      for (let i = 0; i < expected.length; i++) {
        if (typeof expected[i] === "function") u.ok(expected[i](cmds[0][i]), () => `${what}: argument ${i} is ${JSON.stringify(cmds[0][i])}`);
        else u.eq(cmds[0][i], expected[i], `${what}: argument ${i}`);
      }
    };
    const expectNone = (r, cmds, what) => {
      u.ok(!r.ok, () => `${what}: should have been rejected, child received ${u.show(cmds)}`);
      u.eq(cmds, [], `${what}: rejected, but the child received a command`);
    };
    const template = async (call) => {
      const { r, cmds } = await run(call);
      u.ok(cmds.length === 1, () => `benign call sent ${cmds.length} commands: ${u.show(r)}`);
      return cmds[0];
    };
    const decode = (s) => s.replace(/&#(\d+);/g, (_, n) => String.fromCodePoint(Number(n)));
    const B = path.join(f.dir, "benign.jpg");
    const sub = (tpl, map) => tpl.map((a) => (map.has(a) ? map.get(a) : a));

    const T = {
      read: await template(() => et.read(B)),
      readRaw: await template(() => et.readRaw(B)),
      write0: await template(() => et.write(B, { Artist: "benign" })),
      del: await template(() => et.deleteAllTags(B)),
      rewrite: await template(() => et.rewriteAllTags(B, path.join(f.dir, "benign-out.jpg"))),
      extract: await template(() => et.extractBinaryTag("ThumbnailImage", B, path.join(f.dir, "benign-out.jpg"))),
      buffer: await template(() => et.extractBinaryTagToBuffer("ThumbnailImage", B)),
    };

    process.chdir(f.dir);
    await ctx.prop("file-names", {
      runs: [4000, 80000],
      arb: fc.record({ src: fileName, dst: fileName, rel: fc.constantFrom("abs", "abs", "rel", "dir"), api: fc.constantFrom("read", "readRaw", "write", "deleteAllTags", "editTags", "rewriteAllTags", "extractBinaryTag", "extractBinaryTagToBuffer") }),
      async check({ src, dst, rel, api }, t) {
        t.nontrivial(isMeta(src) || isMeta(dst));
        t.label(rel);
        t.label("api:" + api);
        if (lone(src) || lone(dst)) return t.label("lone surrogate in a path (skipped)");
        // (the working directory is f.dir)
        const at = (x) => (rel === "rel" ? x : rel === "dir" ? "./" + x : path.join(f.dir, x));
        const S = at(src);
        const D = at(dst);
        const two = api === "rewriteAllTags" || api === "extractBinaryTag";
        const call = {
          read: () => et.read(S),
          readRaw: () => et.readRaw(S),
          write: () => et.write(S, { Artist: "benign" }),
          deleteAllTags: () => et.deleteAllTags(S),
          editTags: () => et.editTags(S, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]),
          rewriteAllTags: () => et.rewriteAllTags(S, D),
          extractBinaryTag: () => et.extractBinaryTag("ThumbnailImage", S, D),
          extractBinaryTagToBuffer: () => et.extractBinaryTagToBuffer("ThumbnailImage", S),
        }[api];
        const { r, cmds } = await run(call);
        const what = `${api}(${JSON.stringify(S)}${two ? ", " + JSON.stringify(dst) : ""})`;
        if (BREAKS.test(src) || (two && BREAKS.test(dst))) return expectNone(r, cmds, what);
        // a copy-number code cannot be passed literally to exiftool, so the call may be refused (C20 decides what happens)
        if (two && !r.ok && cmds.length === 0 && /%[-+]?\d*[.:]?\d*[lun]?[cC]/.test(D)) return t.label("copy-number code (refused)");
        u.eq(cmds.length, 1, `${what}: commands ${u.show(cmds)}`);
        const a = cmds[0];
        // not taken for an option, a comment or a trimmed name
        const names = (x, want) => x === want || (/^\.{1,2}\//.test(x) && path.resolve(x) === want);
        u.ok(a.some((x) => names(x, path.resolve(S))), () => `${what}: the child got ${u.show(a)}, without ${JSON.stringify(path.resolve(S))}`);
        const tpl = { read: T.read, readRaw: T.readRaw, write: T.write0, deleteAllTags: T.del, rewriteAllTags: T.rewrite, extractBinaryTag: T.extract, extractBinaryTagToBuffer: T.buffer }[api];
        if (tpl) {
          u.eq(a.length, tpl.length, `${what}: argument count of ${u.show(a)}`);
          const bo = path.join(f.dir, "benign-out.jpg");
          tpl.forEach((x, i) => {
            if (x === B) u.ok(names(a[i], path.resolve(S)), () => `${what}: source argument is ${JSON.stringify(a[i])}`);
            else if (x !== bo) u.eq(a[i], x, `${what}: argument ${i}`);
          });
        }
      },
    });

    await ctx.prop("tag-names", {
      runs: [4000, 80000],
      arb: fc.record({ tag: tagName, api: fc.constantFrom("write", "numericTags", "retain", "extractBinaryTag", "extractBinaryTagToBuffer", "editTags-add", "editTags-remove"), bystander: fc.boolean() }),
      async check({ tag, api, bystander }, t) {
        t.nontrivial(!/^[A-Za-z]+$/.test(tag));
        t.label("api:" + api);
        const call = {
          write: () => et.write(B, bystander ? { Artist: "x", [tag]: "v" } : { [tag]: "v" }),
          numericTags: () => et.read(B, { numericTags: bystander ? ["Orientation", tag] : [tag] }),
          retain: () => et.deleteAllTags(B, { retain: bystander ? ["Artist", tag] : [tag] }),
          extractBinaryTag: () => et.extractBinaryTag(tag, B, path.join(f.dir, "out.jpg")),
          extractBinaryTagToBuffer: () => et.extractBinaryTagToBuffer(tag, B),
          "editTags-add": () => et.editTags(B, [{ tag, operation: "add", value: "v" }]),
          "editTags-remove": () => et.editTags(B, [{ tag, operation: "remove", value: "v" }]),
        }[api];
        const { r, cmds } = await run(call);
        const what = `${api} with tag name ${JSON.stringify(tag)}`;
        if (!GRAMMAR.test(tag)) {
          t.label("invalid name");
          return expectNone(r, cmds, what);
        }
        t.label("valid name");
        if (api.startsWith("editTags")) return u.ok(cmds.length <= 1, what + ": at most one command");
        if (api.startsWith("extract") && /^execute\d*$/i.test(tag)) return expectNone(r, cmds, what);
        u.eq(cmds.length, 1, `${what}: commands ${u.show(cmds)}`);
        const want = { write: `-${tag}=v`, numericTags: `-${tag}#`, retain: `-${tag}<${tag}`, extractBinaryTag: `-${tag}`, extractBinaryTagToBuffer: `-${tag}` }[api];
        if (bystander && tag === "Artist") return;
        // how a glob is retained is decided by what is left in the file (C22)
        if (api === "retain" && /[*?]/.test(tag)) return u.ok(cmds[0].some((a) => a.endsWith(tag)), () => `${what}: not in ${u.show(cmds[0])}`);
        u.eq(cmds[0].filter((a) => a === want).length >= 1, true, `${what}: ${JSON.stringify(want)} among ${u.show(cmds[0])}`);
      },
    });

    const scalar = fc.oneof({ weight: 4, arbitrary: mixed }, { weight: 1, arbitrary: fc.integer() }, { weight: 1, arbitrary: fc.boolean() }, { weight: 1, arbitrary: fc.constant(null) });
    const struct = fc.letrec((tie) => ({
      node: fc.dictionary(fc.constantFrom("Name", "Uri", "Kids", "Area"), fc.oneof({ depthSize: "small" }, mixed, fc.integer(), tie("node"), fc.array(mixed, { maxLength: 2 })), { minKeys: 1, maxKeys: 3 }),
    })).node;
    await ctx.prop("written-values", {
      runs: [5000, 100000],
      arb: fc.record({
        tags: fc.array(fc.tuple(fc.constantFrom("Artist", "XMP-dc:Title", "Keywords", "Comment", "IPTC:By-line", "Orientation#", "Versions+"), fc.oneof({ weight: 4, arbitrary: scalar }, { weight: 2, arbitrary: fc.array(fc.oneof(mixed, fc.integer()), { minLength: 1, maxLength: 4 }) }, { weight: 2, arbitrary: struct }, { weight: 1, arbitrary: fc.array(struct, { minLength: 1, maxLength: 2 }) })), { minLength: 1, maxLength: 4 }),
      }),
      async check({ tags }, t) {
        const o = Object.fromEntries(tags);
        const flat = [];
        const walk = (v) => (typeof v === "string" ? flat.push(v) : v && typeof v === "object" ? Object.values(v).forEach(walk) : 0);
        walk(o);
        t.nontrivial(flat.some(isMeta));
        if (flat.some((s) => BREAKS.test(s))) t.label("contains CR, LF or NUL");
        if (flat.some(lone)) return t.label("lone surrogate (skipped)");
        const { r, cmds } = await run(() => et.write(B, o));
        const what = `write(${u.show(o)})`;
        if (!r.ok && cmds.length === 0) return t.label("rejected");
        const keys = Object.keys(o);
        const i0 = T.write0.indexOf("-Artist=benign");
        const expected = [...T.write0.slice(0, i0), ...keys.map((k) => (a) => a.startsWith(`-${k}=`)), ...T.write0.slice(i0 + 1)];
        expectOne(cmds, expected, what);
        keys.forEach((k, i) => {
          const v = o[k];
          const arg = cmds[0][i0 + i].slice(k.length + 2);
          if (typeof v === "string" && !v.includes("&")) u.eq(decode(arg), v, `${what}: ${k} decodes to the given text`);
          if (v === null) u.eq(arg, "", `${what}: null deletes ${k}`);
          if (typeof v === "number") u.eq(arg, String(v), `${what}: ${k}`);
        });
      },
    });

    await ctx.prop("extra-arguments", {
      runs: [3000, 60000],
      arb: fc.record({ args: fc.array(fc.oneof({ weight: 1, arbitrary: fc.constantFrom("-fast2", "-G", "-n", "-x", "Foo") }, { weight: 2, arbitrary: mixed }), { minLength: 1, maxLength: 3 }), api: fc.constantFrom("read", "readRaw", "write", "options") }),
      async check({ args, api }, t) {
        t.nontrivial(args.some(isMeta));
        t.label("api:" + api);
        if (args.some(lone)) return t.label("lone surrogate (skipped)");
        const call = {
          read: () => et.read(B, args),
          readRaw: () => et.readRaw(B, args),
          write: () => et.write(B, { Artist: "benign" }, args),
          options: () => et.read(B, { readArgs: args }),
        }[api];
        const { r, cmds } = await run(call);
        const what = `${api} with extra arguments ${JSON.stringify(args)}`;
        const sent = args.filter((a) => a.trim() !== "");
        if (sent.some((a) => BREAKS.test(a) || /^\s*[-\u2212]execute\d*$/i.test(a))) return expectNone(r, cmds, what);
        u.eq(cmds.length, 1, `${what}: commands ${u.show(cmds)}`);
        // the extra arguments appear contiguously, in order, each as one argument
        const a = cmds[0];
        const at = a.findIndex((_, i) => sent.every((s, j) => a[i + j] === s));
        u.ok(sent.length === 0 || at >= 0, () => `${what}: child received ${u.show(a)}`);
        u.eq(a.filter((x) => x === B).length, 1 + sent.filter((x) => x === B).length, `${what}: file name`);
      },
    });

    await ctx.prop("options", {
      runs: [2000, 30000],
      arb: fc.record({ imageHashType: fc.oneof(hostile, fc.constantFrom("MD5", "SHA256", "SHA512", false, undefined, "md5")), struct: fc.oneof(hostile, fc.constantFrom(0, 1, 2, "undef")), geolocation: fc.oneof(hostile, fc.boolean()), useMWG: fc.oneof(hostile, fc.boolean()), keepUTCTime: fc.oneof(hostile, fc.boolean()) }),
      async check(o, t) {
        t.nontrivial(Object.values(o).some((v) => typeof v === "string"));
        const { r, cmds } = await run(() => et.read(B, o));
        const what = `read with options ${u.show(o)}`;
        const okHash = [false, undefined, "MD5", "SHA256", "SHA512"].includes(o.imageHashType);
        if (!okHash) {
          if (o.imageHashType == null) return;
          return expectNone(r, cmds, what);
        }
        u.eq(cmds.length, 1, `${what}: commands ${u.show(cmds)}`);
        // hostile option values never reach the child verbatim
        for (const [k, v] of Object.entries(o))
          if (typeof v === "string" && k !== "imageHashType" && v.trim().length > 3 && isMeta(v)) u.ok(!cmds[0].some((a) => a.includes(v) && !T.read.includes(a)), () => `${what}: ${k} reached the child: ${u.show(cmds[0])}`);
      },
    });

    await ctx.prop("custom-tasks", {
      runs: [2000, 40000],
      arb: fc.array(mixed, { minLength: 1, maxLength: 4 }),
      async check(args, t) {
        t.nontrivial(args.some(isMeta));
        if (args.some(lone)) return;
        class Mine extends ctx.lib.ExifToolTask {
          parse(s) {
            return s;
          }
        }
        const { r, cmds } = await run(() => et.enqueueTask(() => new Mine(args)));
        const what = `custom task ${JSON.stringify(args)}`;
        const sent = args.filter((a) => a.trim() !== "");
        if (sent.some((a) => BREAKS.test(a) || /^\s*[-\u2212]execute\d*$/i.test(a))) return expectNone(r, cmds, what);
        if (sent.length === 1 && sent[0] === "-ver") return;
        if (sent.some((a) => /stay_open/i.test(a))) return t.label("stay_open argument (skipped)");
        u.eq(cmds, [sent], `${what}: commands`);
      },
    });
    await f.end();
  },
};
