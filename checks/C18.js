"use strict";
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

// File names that imitate messages appear at the end of ExifTool's lines.
const FILES = ["a.jpg", "warning: x.jpg", "Nothing to do.jpg", "nothing to write", "error.jpg", "Error: b.jpg", "{ready}", "1 image files updated", "Can't locate x in @INC.jpg", "é 日本.jpg", "it's.jpg", "Warning.png", "unchanged"];
const fileName = fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...FILES) }, { weight: 1, arbitrary: fc.string({ unit: "grapheme", minLength: 1, maxLength: 10 }).map((s) => s.replace(/[\s/\\\u0085\u2028\u2029]/g, "_") || "x") });
const words = fc.array(fc.constantFrom("Bad", "format", "tag", "IFD0", "directory", "error", "warning", "minor", "[minor]", "(0x9286)", "is", "not", "writable", "Truncated", "100%", "é", "'x'", "file", "updated", "created"), { minLength: 1, maxLength: 6 }).map((a) => a.join(" "));
const suffix = fc.oneof(fc.constant(""), fileName.map((f) => " - /d/" + f));
let n = 0;
const line = fc.oneof(
  { weight: 3, arbitrary: fc.tuple(words, suffix, fc.constantFrom("", "[minor] ", "[Minor] ")).map(([w, s, m]) => ({ kind: "warning", text: `Warning: ${m}${w}${s}` })) },
  { weight: 2, arbitrary: fc.tuple(words, suffix).map(([w, s]) => ({ kind: "error", text: `Error: ${w}${s}` })) },
  { weight: 1, arbitrary: fc.tuple(fc.constantFrom("File not found", "Not a valid JPG (looks more like a PNG)", "[minor] Bad IFD", "Writing of this type of file is not supported", "Error opening file"), fileName).map(([w, f]) => ({ kind: "error", text: `Error: ${w} - /d/${f}` })) },
  { weight: 1, arbitrary: fc.constantFrom("Syntax error in -if condition", "Perl internal error", "Writing error 5").map((text) => ({ kind: "error", text })) },
  { weight: 1, arbitrary: fc.constantFrom("Error: Nothing to write - /d/a.xmp", "Nothing to do.", "Error: Nothing to do - x").map((text) => ({ kind: "warning", text })) },
  { weight: 1, arbitrary: fc.constantFrom("", "   ", "some note", "    1 image files read", "=== a.jpg").map((text) => ({ kind: "noise", text })) },
);
const lines = fc.oneof({ weight: 1, arbitrary: fc.constant([]) }, { weight: 5, arbitrary: fc.array(line, { minLength: 1, maxLength: 6 }) }, { weight: 2, arbitrary: fc.array(line.filter((l) => l.kind !== "error"), { minLength: 1, maxLength: 4 }) });
const countLine = fc.oneof(
  { weight: 3, arbitrary: fc.tuple(fc.integer({ min: 0, max: 99999 }), fc.constantFrom("image files updated", "image files unchanged", "image files created", "directories created", "files updated", "file created", "files weren't updated")).map(([k, w]) => ({ n: k, w })) },
  { weight: 1, arbitrary: fc.tuple(fc.integer({ min: 0, max: 3 }), fc.constantFrom("image files updated", "image files unchanged", "image files created")).map(([k, w]) => ({ n: k, w })) },
);
const KIND = { "image files updated": "updated", "files updated": "updated", "image files unchanged": "unchanged", "files weren't updated": "unchanged", "image files created": "created", "directories created": "created", "file created": "created" };

module.exports = {
  id: "C18",
  level: "exploration",
  quickScale: 2,
  shards: 8,
  rule:
    "Stand-in answers are generated as lists of warning, error, nothing-to-do and unrelated lines on stderr (with file names that imitate messages, CRLF or LF, optionally in separate chunks), status-count lines on stdout, and Error/Warning tags in the JSON; several calls share one child, one after the other and queued together. Oracle: the generated lines themselves say whether the call must reject and with which message, the exact (deduplicated) warnings, the counts, and, for reads, errors and warnings next to the tags. Non-trivial: at least one warning or error line, or more than one status line.",
  assumptions: ["ExifTool's error lines start with 'Error: ' and its warning lines with 'Warning: '; 'Nothing to write' and 'Nothing to do' are documented as warnings"],
  async run(ctx) {
    const u = ctx.u;
    const L = ctx.lib;
    const f = u.fake({ streamFlushMillis: 1 });
    const { et } = f;
    await et.version();
    const uniq = (a) => [...new Set(a)];
    const stderrOf = (ls, eol) => ls.map((l) => l.text + eol).join("");
    let seq = 0;

    const writeCall = fc.record({
      kind: fc.constantFrom("write", "editTags", "deleteAllTags"),
      lines,
      counts: fc.array(countLine, { maxLength: 4 }),
      junk: fc.option(fc.constantFrom("some other output", "    1 files failed condition"), { freq: 6, nil: undefined }),
      eol: fc.constantFrom("\n", "\n", "\r\n"),
    });
    const readCall = fc.record({
      kind: fc.constantFrom("read", "readRaw"),
      lines,
      tags: fc.record({ Title: fc.constantFrom("x", "Error: fake", "Warning: fake"), Error: fc.constantFrom("File format error", "Error: x", "é"), Warning: fc.constantFrom("Bad IFD", "[minor] Bad thing", "Warning: twice") }, { requiredKeys: [], noNullPrototype: true }),
      eol: fc.constantFrom("\n", "\r\n"),
      dup: fc.boolean(),
      nojson: fc.integer({ min: 0, max: 5 }).map((x) => x === 0),
    });
    const otherCall = fc.record({ kind: fc.constantFrom("extractBinaryTag", "rewriteAllTags", "extractBinaryTagToBuffer", "custom"), lines, eol: fc.constantFrom("\n", "\r\n") });
    class Custom extends L.ExifToolTask {
      parse(s, err) {
        return { out: s.trim(), err: err && err.message, errors: this.errors, warnings: this.warnings };
      }
    }

    const start = (c) => {
      const p = path.join(f.dir, "c" + ++seq);
      c = { ...c, p, lines: c.dup ? c.lines.flatMap((l) => [l, l]) : c.lines };
      const stderr = stderrOf(c.lines, c.eol);
      const errs = c.lines.filter((l) => l.kind === "error").map((l) => l.text);
      let stdout;
      if (c.counts) stdout = [...c.counts.map((x) => `${String(x.n).padStart(5)} ${x.w}`), ...(c.junk ? [c.junk] : [])].map((l) => l + c.eol).join("");
      else if (c.kind === "read" || c.kind === "readRaw") stdout = c.nojson ? "" : JSON.stringify([{ SourceFile: p, ...c.tags }]) + "\n";
      else if (c.kind === "extractBinaryTag") stdout = errs.length ? "    0 output files created\n" : "    1 output files created\n";
      else if (c.kind === "rewriteAllTags") stdout = errs.length ? "    0 image files created\n    1 files weren't created due to errors\n" : "    1 image files created\n";
      else if (c.kind === "extractBinaryTagToBuffer") stdout = errs.length ? "" : JSON.stringify([{ SourceFile: p, ThumbnailImage: "base64:aGk=" }]) + "\n";
      else stdout = "done " + p + "\n";
      f.file({ stdout, stderr }, path.basename(p));
      const promise = {
        write: () => et.write(p, { Title: "x" }),
        editTags: () => et.editTags(p, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]),
        deleteAllTags: () => et.deleteAllTags(p),
        read: () => et.read(p),
        readRaw: () => et.readRaw(p),
        extractBinaryTag: () => et.extractBinaryTag("ThumbnailImage", p, path.join(f.dir, "out.jpg")),
        rewriteAllTags: () => et.rewriteAllTags(p, path.join(f.dir, "out.jpg")),
        extractBinaryTagToBuffer: () => et.extractBinaryTagToBuffer("ThumbnailImage", p),
        custom: () => et.enqueueTask(() => new Custom(["-x", p])),
      }[c.kind]();
      return { c, errs, warns: c.lines.filter((l) => l.kind === "warning").map((l) => l.text), r: u.settles(promise, c.kind) };
    };
    const judge = async ({ c, errs, warns, r }, t) => {
      r = await r;
      const what = `${c.kind} with stderr ${JSON.stringify(stderrOf(c.lines, c.eol))}`;
      const msgs = errs.map((e) => e.replace(/^error: /i, ""));
      t.label(c.kind + (errs.length ? ": error" : warns.length ? ": warning" : ": clean"));
      const bare = (s) => String(s).trim();
      const rejected = () => {
        u.ok(!r.ok, () => `${what} resolved with ${u.show(r.value)}`);
        u.ok(r.error instanceof Error && msgs.some((m) => bare(r.error.message) === bare(m)), () => `${what} rejected with ${r.error}, expected one of ${u.show(msgs)}`);
      };
      if (c.counts) {
        if (errs.length) return rejected();
        u.ok(r.ok, () => `${what} rejected: ${r.error}`);
        const exp = { created: 0, updated: 0, unchanged: 0 };
        for (const x of c.counts) exp[KIND[x.w]] += x.n;
        u.eq(u.pick(r.value, ["created", "updated", "unchanged"]), exp, `${what} and stdout ${u.show(c.counts)}`);
        const w = (r.value.warnings ?? []).map(bare);
        u.eq(w.filter((x) => !x.startsWith("Unexpected output")).sort(), uniq(warns.map(bare)).sort(), `${what}: warnings`);
        u.eq(w.filter((x) => x.startsWith("Unexpected output")).length, c.junk ? 1 : 0, `${what}: unexpected output ${c.junk} is reported in ${u.show(w)}`);
        return;
      }
      if (c.nojson) {
        if (errs.length) return rejected();
        return u.ok(!r.ok && r.error instanceof Error, () => `${what} without JSON gave ${u.show(r)}`);
      }
      if (c.kind === "read" || c.kind === "readRaw") {
        u.ok(r.ok, () => `${what} rejected: ${r.error}`);
        const trim = (a) => a.map(bare).sort();
        u.eq(trim(r.value.errors), trim(uniq([...(c.tags.Error ? [c.tags.Error] : []), ...errs])), `${what} and tags ${u.show(c.tags)}: errors`);
        u.eq(trim(r.value.warnings), trim(uniq([...(c.tags.Warning ? [c.tags.Warning] : []), ...warns])), `${what} and tags ${u.show(c.tags)}: warnings`);
        u.eq(r.value.Title, c.tags.Title, `${what}: Title`);
        u.eq(r.value.SourceFile, c.p, `${what}: SourceFile`);
        return;
      }
      if (c.kind === "custom") {
        u.ok(r.ok, () => `${what} rejected: ${r.error}`);
        u.eq({ ...r.value, errors: r.value.errors.map(bare), warnings: r.value.warnings.map(bare), err: r.value.err == null ? undefined : bare(r.value.err) }, { out: "done " + c.p, err: msgs.length ? bare(msgs[0]) : undefined, errors: errs.map(bare), warnings: warns.map(bare) }, what);
        return;
      }
      if (errs.length) return rejected();
      u.ok(r.ok, () => `${what} rejected: ${r.error}`);
      if (c.kind === "extractBinaryTagToBuffer") u.eq(r.value.toString(), "hi", what);
    };
    const anyCall = fc.oneof({ weight: 4, arbitrary: writeCall }, { weight: 3, arbitrary: readCall }, { weight: 2, arbitrary: otherCall });

    await ctx.prop("messages", {
      runs: [6000, 100000],
      arb: fc.record({ calls: fc.array(anyCall, { minLength: 1, maxLength: 5 }), together: fc.boolean() }),
      async check({ calls, together }, t) {
        t.nontrivial(calls.some((c) => c.lines.some((l) => l.kind !== "noise") || (c.counts ?? []).length > 1));
        if (together) {
          const started = calls.map(start);
          for (const s of started) await s.r;
          for (const s of started) await judge(s, t);
        } else for (const c of calls) await judge(start(c), t);
      },
    });

    // isWarning() and the tasks agree on what is fatal.
    await ctx.prop("is-warning", {
      runs: [8000, 100000],
      arb: line.filter((l) => l.kind !== "noise"),
      check({ kind, text }, t) {
        t.nontrivial();
        if (!L.isWarning) return;
        u.eq(L.isWarning(text), kind === "warning", `isWarning(${JSON.stringify(text)})`);
      },
    });

    // A broken Perl installation is reported to the caller, whether or not the child survives it.
    await ctx.prop("perl-errors", {
      runs: [60, 1500],
      arb: fc.record({ mod: fc.constantFrom("Time/HiRes.pm", "Image/ExifTool.pm", "IO/Handle.pm"), dies: fc.boolean(), kind: fc.constantFrom("read", "write", "readRaw"), lead: fc.constantFrom("", "Warning: something\n") }),
      async check({ mod, dies, kind, lead }, t) {
        t.nontrivial();
        const p = path.join(f.dir, "perl" + ++seq);
        const msg = `Can't locate ${mod} in @INC (you may need to install the module) (@INC entries checked: /usr/lib) at exiftool line 33.`;
        f.file({ stderr: lead + msg + "\n", stdout: kind === "write" ? "    1 image files updated\n" : JSON.stringify([{ SourceFile: p }]) + "\n", act: dies ? "exitMid" : "ok" }, path.basename(p));
        const r = await u.settles(kind === "write" ? et.write(p, { Title: "x" }) : et[kind](p), kind);
        u.ok(!r.ok, () => `${kind} resolved although Perl reported ${msg}`);
        u.ok(r.error instanceof Error, `${kind} rejected with ${u.show(r.error)}`);
        if (!dies) u.ok(r.error.message.includes(msg), () => `${kind} rejected with ${r.error}`);
        const q = f.tagsFile({ Title: "after" });
        const after = await u.settles(et.read(q), "next read");
        u.ok(after.ok && after.value.Title === "after" && after.value.warnings.length === 0, () => `the next read gave ${u.show(after)}`);
      },
    });
    await f.end();
  },
};
