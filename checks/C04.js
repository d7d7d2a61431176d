"use strict";
const path = require("node:path");
const g = require("../lib/gens");
const { fc } = g;

// Written out from the documentation, independently of the code under test.
const ADD = ["IPTC:CatalogSets", "IPTC:Keywords", "MIE-Doc:Keywords", "XMP-acdsee:Keywords", "XMP-dc:Subject", "XMP-digiKam:TagsList", "XMP-expressionmedia:CatalogSets", "XMP-expressionmedia:People", "XMP-iptcExt:PersonInImage", "XMP-lr:HierarchicalSubject", "XMP-mediapro:CatalogSets", "XMP-mediapro:People", "XMP-microsoft:LastKeywordXMP"];
const REMOVE_ONLY = ["XMP-MP:RegionPersonDisplayName", "XMP-acdsee-rs:ACDSeeRegionName", "XMP-mwg-rs:RegionName", "XMP-xmpDM:Album"];
const COLL = "XMP-mwg-coll:Collections";
const ALL = [...ADD, ...REMOVE_ONLY, COLL];
const FIELDS = ["CollectionName", "CollectionURI"];

const META = ["&", "&amp;", "&#10;", "&#38;#10;", "&#x41;", "&copy;", "&", "|", "{", "}", "[", "]", ",", "=", ";", "\n", "\t", " ", "  ", "-execute", "\n-execute\n", "<", "#", "$", "%", "\\", "\"", "'", "\u2028", "\u00a0", "\u0085", "{ready}", "é", "😀", "日本", "e\u0301", "|,", "+=", "-=", "null", "\ufeff", "\u200b", "~", "\u007f", "\u0080", "\u00ad"];
const safe = fc
  .array(fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...META) }, { weight: 3, arbitrary: fc.string({ unit: fc.constantFrom(..."abcXYZ012 "), minLength: 1, maxLength: 6 }) }, { weight: 1, arbitrary: fc.string({ unit: "grapheme", minLength: 1, maxLength: 4 }) }), { minLength: 1, maxLength: 4 })
  .map((a) => a.join(""))
  .filter((s) => !bad(s));
// Characters that are documented to be rejected.
function bad(s) {
  for (const ch of s) {
    const c = ch.codePointAt(0);
    if (c <= 8 || c === 0xb || c === 0xc || c === 0xd || (c >= 0xe && c <= 0x1f)) return true;
    if ((c >= 0xd800 && c <= 0xdfff) || (c >= 0xfdd0 && c <= 0xfdef) || (c & 0xfffe) === 0xfffe) return true;
  }
  return false;
}
const badChar = fc.oneof(
  fc.constantFrom("\0", "\u0001", "\b", "\v", "\f", "\r", "\u000e", "\u001e", "\u001f", "\ud800", "\udbff", "\udc00", "\udfff", "\ufdd0", "\ufdef", "\ufffe", "\uffff", "\u{1fffe}", "\u{1ffff}", "\u{10fffe}", "\u{10ffff}", "\r\n"),
  fc.integer({ min: 0, max: 8 }).map((c) => String.fromCharCode(c)),
  fc.integer({ min: 0xe, max: 0x1f }).map((c) => String.fromCharCode(c)),
  fc.integer({ min: 0xd800, max: 0xdfff }).map((c) => String.fromCharCode(c)),
  fc.integer({ min: 0xfdd0, max: 0xfdef }).map((c) => String.fromCharCode(c)),
  fc.tuple(fc.integer({ min: 0, max: 16 }), fc.constantFrom(0xfffe, 0xffff)).map(([p, c]) => String.fromCodePoint((p << 16) | c)),
);
const badText = fc.tuple(fc.oneof(fc.constant(""), safe), badChar, fc.oneof(fc.constant(""), safe)).map(([a, b, c]) => a + b + c).filter(bad);

const pool = fc.oneof({ weight: 2, arbitrary: fc.constantFrom("a", "A", "b", "a ", "é", "a,b", "x&amp;y") }, { weight: 3, arbitrary: safe });
const collValue = fc.record({ CollectionName: fc.oneof(fc.constant(""), pool), CollectionURI: fc.oneof(fc.constant(""), pool) }, { noNullPrototype: true });
const predicate = fc.oneof(collValue, collValue.map((v) => ({ CollectionName: v.CollectionName })), collValue.map((v) => ({ CollectionURI: v.CollectionURI })), collValue.map((v) => ({ CollectionURI: v.CollectionURI, CollectionName: v.CollectionName })));
const addEdit = fc.record({ tag: fc.constantFrom(...ADD), operation: fc.constant("add"), value: pool }, { noNullPrototype: true });
const remEdit = fc.record({ tag: fc.constantFrom(...ADD, ...REMOVE_ONLY), operation: fc.constant("remove"), value: pool }, { noNullPrototype: true });
const addColl = fc.record({ tag: fc.constant(COLL), operation: fc.constant("add"), value: collValue }, { noNullPrototype: true });
const remColl = fc.record({ tag: fc.constant(COLL), operation: fc.constant("remove"), predicate }, { noNullPrototype: true });
const good = fc.oneof({ weight: 3, arbitrary: addEdit }, { weight: 3, arbitrary: remEdit }, { weight: 2, arbitrary: addColl }, { weight: 2, arbitrary: remColl });

// A tag name that is almost a supported one.
const badTag = fc.oneof(
  fc.constantFrom(...ALL).map((t) => t.toLowerCase()),
  fc.constantFrom(...ALL).map((t) => t.toUpperCase()),
  fc.constantFrom(...ALL).chain((t) => fc.constantFrom(t + "#", t + "+", t + "-", t + " ", " " + t, t + "-en", t.split(":")[1], ":" + t.split(":")[1], "XMP:" + t.split(":")[1], "1" + t, t + "\n", t + "=x", "-" + t, t + "<x", "*", t.replace(":", "::"), "ALL:" + t, t + "*", t.slice(0, -1), t + "s")),
  fc.constantFrom("", "XMP-xmp:CreateDate", "XMP-iptcExt:PersonInImageName", "IPTC:Keywords:x", "XMP-dc:Title", "__proto__", "constructor", "toString", "next", "values", "XMP-mwg-coll:CollectionName", "XMP-dc:Subject\0", null, undefined, 7, {}, ["IPTC:Keywords"], true),
).filter((t) => !ALL.includes(t));

// kind → an edit that must be rejected
const badEdit = fc.oneof(
  { weight: 3, arbitrary: fc.tuple(badTag, fc.constantFrom("add", "remove"), pool).map(([tag, operation, value]) => ({ tag, operation, value })) },
  { weight: 3, arbitrary: fc.tuple(fc.oneof(addEdit, remEdit), badText).map(([e, value]) => ({ ...e, value })) },
  { weight: 1, arbitrary: fc.tuple(fc.oneof(addEdit, remEdit), fc.constantFrom("", null, undefined, 0, 1, true, ["a"], { a: 1 }, new String("a"), Symbol("x"), 10n)).map(([e, value]) => ({ ...e, value })) },
  { weight: 1, arbitrary: fc.tuple(fc.constantFrom(...REMOVE_ONLY), pool).map(([tag, value]) => ({ tag, operation: "add", value })) },
  { weight: 1, arbitrary: fc.tuple(good, fc.constantFrom("Add", "REMOVE", "set", "", "=", null, undefined, 1, "add ", ["add"])).map(([e, operation]) => ({ ...e, operation })) },
  { weight: 1, arbitrary: fc.tuple(good, fc.constantFrom("tag", "operation", "value")).map(([e, k]) => { const r = { ...e }; delete r[k]; delete r.predicate; return k === "value" || e.predicate ? r : { ...r, [k]: undefined }; }) },
  { weight: 1, arbitrary: fc.tuple(fc.oneof(addEdit, remEdit), predicate).map(([e, p]) => ({ ...e, predicate: p })) },
  { weight: 1, arbitrary: fc.tuple(addColl, predicate).map(([e, p]) => ({ ...e, predicate: p })) },
  { weight: 1, arbitrary: fc.tuple(remColl, collValue).map(([e, value]) => ({ ...e, value })) },
  { weight: 1, arbitrary: fc.tuple(fc.constantFrom("add", "remove"), pool).map(([operation, value]) => ({ tag: COLL, operation, value })) },
  { weight: 2, arbitrary: fc.tuple(fc.oneof(addColl, remColl), fc.constantFrom(...FIELDS), fc.oneof(badText, fc.constantFrom(null, undefined, 1, ["a"], {}))).map(([e, k, x]) => (e.value ? { ...e, value: { ...e.value, [k]: x } } : { ...e, predicate: { ...e.predicate, [k]: x } })) },
  { weight: 2, arbitrary: fc.tuple(fc.oneof(addColl, remColl), fc.constantFrom("collectionName", "CollectionName ", "collectionuri", "Foo", "constructor", "toString", Symbol("CollectionName"), "__proto__")).map(([e, k]) => { const o = { ...(e.value ?? e.predicate) }; Object.defineProperty(o, k, { value: "x", enumerable: true, configurable: true, writable: true }); return e.value ? { ...e, value: o } : { ...e, predicate: o }; }) },
  { weight: 1, arbitrary: fc.tuple(fc.oneof(addColl, remColl), fc.constantFrom("hidden")).map(([e]) => { const o = { ...(e.value ?? e.predicate) }; Object.defineProperty(o, "Extra", { value: "x", enumerable: false }); return e.value ? { ...e, value: o } : { ...e, predicate: o }; }) },
  { weight: 2, arbitrary: fc.tuple(fc.oneof(addColl, remColl), fc.constantFrom(...FIELDS)).map(([e, k]) => { const o = { ...(e.value ?? e.predicate) }; Object.defineProperty(o, k, { get: () => "got", enumerable: true, configurable: true }); return e.value ? { ...e, value: o } : { ...e, predicate: o }; }) },
  { weight: 1, arbitrary: fc.tuple(addColl, fc.constantFrom(...FIELDS)).map(([e, k]) => { const value = { ...e.value }; delete value[k]; return { ...e, value }; }) },
  { weight: 1, arbitrary: fc.constantFrom("add", "remove").map((operation) => (operation === "add" ? { tag: COLL, operation, value: {} } : { tag: COLL, operation, predicate: {} })) },
  { weight: 1, arbitrary: fc.tuple(fc.constantFrom("add", "remove"), fc.constantFrom([], new Map(), new (class Foo {})(), null, undefined, "x", 1, Object.create({ CollectionName: "a", CollectionURI: "b" }))).map(([operation, v]) => (operation === "add" ? { tag: COLL, operation, value: v } : { tag: COLL, operation, predicate: v })) },
  { weight: 1, arbitrary: fc.constantFrom(null, undefined, "x", 1, [], new Map(), () => ({})) },
  { weight: 1, arbitrary: good.map((e) => Object.create(e)) },
);

module.exports = {
  id: "C04",
  level: "exploration",
  quickScale: 1.5,
  shards: 8,
  rule:
    "Edit lists are generated from supported edits (every supported tag; values rich in entities, separators, struct delimiters, line feeds and non-ASCII text) and from mutated edits that the documentation rules out (near-miss tag names, forbidden characters, wrong types, missing, unknown, hidden or accessor fields, wrong value/predicate pairing, add-then-remove conflicts, -api/-sep arguments), alone and embedded in long valid lists, with generated write options. A stand-in child records what is sent. Oracle: an independent model of the documented rules decides accept or reject and which index is at fault; an accepted list must arrive as exactly one command whose edit arguments, entity-decoded as ExifTool would and parsed, equal the edits given, in order. Non-trivial: more than one edit, or a value with a metacharacter, or an invalid edit.",
  assumptions: ["the stand-in decodes '&#N;', '&amp;' and other entities once per layer and parses structs with '|' escapes, as ExifTool's -E and struct syntax are documented to"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    const f = u.fake({ ignoreMinorErrors: false });
    const { et } = f;
    const B = path.join(f.dir, "b.jpg");
    await et.version();
    f.records();

    // entities as `-E` decodes them (numeric and the five XML names are enough for what is generated, any other name must not appear unprotected)
    const NAMED = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", copy: "\u00a9", nbsp: "\u00a0" };
    const decode = (s) => s.replace(/&(#?\w+);/g, (m, e) => (e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : Number(e.slice(1))) : (NAMED[e] ?? m)));
    const parseStruct = (s) => {
      let i = 0;
      if (s[i++] !== "{") return undefined;
      const o = {};
      for (;;) {
        let k = "";
        while (i < s.length && s[i] !== "=") k += s[i++];
        i++;
        let v = "";
        while (/\s/.test(s[i] ?? "")) i++; // unescaped leading space is dropped
        while (i < s.length && s[i] !== "," && s[i] !== "}") {
          if (s[i] === "|") i++;
          v += s[i++];
        }
        o[k.trim()] = v;
        if (s[i++] === "}") return i === s.length ? o : undefined;
        if (i >= s.length) return undefined;
      }
    };
    const decodeEdit = (arg) => {
      const m = /^-([^+=]+?)([+-])=([\s\S]*)$/.exec(arg);
      if (!m) return { arg };
      const text = decode(m[3].replace(/^ /, ""));
      const operation = m[2] === "+" ? "add" : "remove";
      if (m[1] !== COLL) return { tag: m[1], operation, value: text };
      const o = parseStruct(text);
      if (!o) return { arg };
      for (const k of Object.keys(o)) o[k] = decode(o[k]);
      return operation === "add" ? { tag: COLL, operation, value: o } : { tag: COLL, operation, predicate: o };
    };
    const show = (e) => u.show(e);
    const conflictAt = (edits) => {
      for (let i = 0; i < edits.length; i++)
        for (let j = i + 1; j < edits.length; j++) {
          const [a, b] = [edits[i], edits[j]];
          if (a.operation !== "add" || b.operation !== "remove" || a.tag !== b.tag) continue;
          if (a.tag === COLL ? FIELDS.every((k) => !(k in b.predicate) || b.predicate[k] === a.value[k]) : a.value === b.value) return [i, j];
        }
    };
    const run = async (call) => {
      let p;
      try {
        p = Promise.resolve(call());
      } catch (e) {
        ctx.fail(`editTags threw synchronously: ${e}`);
      }
      const r = await u.settles(p, "editTags");
      if (!r.ok) await et.version();
      return { r, cmds: f.commands() };
    };
    const plainCopy = (e) => JSON.parse(JSON.stringify(e));
    const template = await run(() => et.editTags(B, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]));
    const T = template.cmds[0];
    const at = T.indexOf("-XMP-dc:Subject+=x");
    u.ok(at > 0, () => `template: ${show(template)}`);
    const sameEdits = (cmds, edits, extra, what) => {
      u.eq(cmds.length, 1, `${what}: number of commands`);
      const a = cmds[0];
      u.eq(a.slice(0, at), T.slice(0, at), `${what}: leading arguments`);
      u.eq(a.slice(at, a.length - T.length + at + 1).slice(0, edits.length).map(decodeEdit), plainCopy(edits), `${what}: edits received (${show(a.slice(at))})`);
      u.eq(a.slice(at + edits.length), [...extra, ...T.slice(at + 1)], `${what}: trailing arguments`);
    };

    await ctx.prop("accepted-exactly", {
      runs: [10000, 150000],
      arb: fc.record({ edits: fc.array(good, { minLength: 1, maxLength: 12 }), args: fc.oneof({ weight: 3, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.array(fc.constantFrom("-overwrite_original", "-P", "-n", "-q", "-x"), { maxLength: 2 }) }) }),
      async check({ edits, args }, t) {
        t.nontrivial(edits.length > 1 || !/^"[\w ]*"$/.test(JSON.stringify(edits[0].value ?? "")));
        const before = plainCopy(edits);
        const { r, cmds } = await run(() => et.editTags(B, edits, args && { writeArgs: args }));
        const what = `editTags(${show(edits)})`;
        u.eq(plainCopy(edits), before, `${what} modified the edit list`);
        const c = conflictAt(edits);
        if (c) {
          t.label("conflict");
          u.ok(!r.ok && cmds.length === 0, () => `${what}: edits ${c} conflict, but the child received ${show(cmds)}`);
          u.ok(r.error instanceof Error && r.error.message.includes(String(c[0])), () => `${what}: conflicting index ${c[0]} not named in ${r.error}`);
          return;
        }
        t.label("accepted");
        u.ok(r.ok, () => `${what} was rejected: ${r.error}`);
        u.eq(r.value, { created: 0, updated: 1, unchanged: 0 }, what);
        sameEdits(cmds, edits, args ?? [], what);
      },
    });

    await ctx.prop("rejected-whole", {
      runs: [10000, 150000],
      arb: fc.record({ before: fc.array(good, { maxLength: 5 }), bad: badEdit, after: fc.array(good, { maxLength: 3 }) }),
      async check({ before, bad: b, after }, t) {
        t.nontrivial();
        const edits = [...before, b, ...after];
        const { r, cmds } = await run(() => et.editTags(B, edits));
        const what = `editTags(${show(edits)})`;
        u.ok(!r.ok, () => `${what} was accepted; the child received ${show(cmds)}`);
        u.eq(cmds, [], `${what} was rejected, but sent`);
        u.ok(r.error instanceof Error, () => `${what} rejected with ${show(r.error)}`);
        u.ok(new RegExp(`\\b${before.length}\\b`).test(r.error.message), () => `${what}: message does not name edit ${before.length}: ${r.error.message}`);
        // nothing lingers: the good edits alone are still accepted
        if (before.length && !conflictAt(before)) {
          const again = await run(() => et.editTags(B, before));
          u.ok(again.r.ok, () => `afterwards ${show(before)} was rejected: ${again.r.error}`);
          sameEdits(again.cmds, before, [], "afterwards");
        }
      },
    });

    // -api and -sep change what an edit means, in whatever spelling exiftool accepts.
    await ctx.prop("incompatible-arguments", {
      runs: [2000, 30000],
      arb: fc.record({ edits: fc.array(good, { minLength: 1, maxLength: 3 }), lead: fc.constantFrom("", "", " ", "  ", "\t"), dash: fc.constantFrom("-", "-", "-", "\u2212"), name: fc.constantFrom("sep", "SEP", "separator", "Sep", "api", "API", "Api"), value: fc.constantFrom(",", "struct=0", " "), others: fc.array(fc.constantFrom("-P", "-overwrite_original", "-n"), { maxLength: 2 }), where: fc.nat(2), via: fc.constantFrom("call", "instance") }),
      async check({ edits, lead, dash, name, value, others, where, via }, t) {
        if (conflictAt(edits)) return;
        t.nontrivial();
        t.label(via);
        const args = [...others];
        args.splice(Math.min(where, others.length), 0, lead + dash + name, value);
        const h = via === "call" ? f : u.fake({ ignoreMinorErrors: false, writeArgs: args });
        try {
          const p = via === "call" ? et.editTags(B, edits, { writeArgs: args }) : h.et.editTags(B, edits);
          const r = await u.settles(p, "editTags");
          const cmds = h.commands();
          u.ok(!r.ok, () => `editTags(${show(edits)}, writeArgs ${JSON.stringify(args)}) (${via}) was accepted; the child received ${show(cmds)}`);
          u.eq(cmds, [], `editTags with writeArgs ${JSON.stringify(args)} was rejected, but sent`);
        } finally {
          if (h !== f) await h.end();
        }
      },
    });

    // An edit whose properties change while being read is sent as validated, or not at all.
    await ctx.prop("shifting-edits", {
      runs: [4000, 60000],
      arb: fc.record({ first: good, later: fc.oneof(good, badEdit.filter((x) => x != null && typeof x === "object" && typeof x.tag === "string")), flip: fc.array(fc.boolean(), { minLength: 1, maxLength: 6 }), props: fc.subarray(["tag", "operation", "value", "predicate"], { minLength: 1 }), others: fc.array(good, { maxLength: 2 }), deep: fc.boolean() }),
      async check({ first, later, flip, props, others, deep }, t) {
        t.nontrivial();
        const mk = () => {
          let n = 0;
          const src = () => (flip[Math.min(n++, flip.length - 1)] ? later : first);
          const e = { ...first };
          for (const k of props) if (k in first) Object.defineProperty(e, k, { get: () => src()[k], enumerable: true, configurable: true });
          return e;
        };
        let e = mk();
        if (deep && first.tag === COLL) {
          // a Collection object behind a proxy that changes its mind
          let n = 0;
          const k = first.value ? "value" : "predicate";
          const other = later[k] && typeof later[k] === "object" ? later[k] : { CollectionName: "evil", Extra: "x" };
          e = { ...first, [k]: new Proxy({ ...first[k] }, { get: (tg, p) => (flip[n++ % flip.length] ? other[p] : tg[p]), getOwnPropertyDescriptor: (tg, p) => { const d = Reflect.getOwnPropertyDescriptor(tg, p); return d && flip[n++ % flip.length] && p in other ? { ...d, value: other[p] } : d; } }) };
        }
        const { r, cmds } = await run(() => et.editTags(B, [e, ...others]));
        if (!r.ok) return u.eq(cmds, [], "rejected, but sent"), t.label("rejected");
        t.label("accepted");
        // whatever was sent is a list of supported edits
        const a = cmds[0];
        u.eq([cmds.length, a.length], [1, T.length + others.length], `shape of ${show(cmds)}`);
        u.eq(a.slice(at + 1 + others.length), T.slice(at + 1), "trailing arguments");
        const sent = a.slice(at, at + 1 + others.length).map(decodeEdit);
        u.eq(sent.slice(1), plainCopy(others), "the other edits");
        const s = sent[0];
        const v = s.value ?? s.predicate;
        u.ok(s.operation === "add" ? [...ADD, COLL].includes(s.tag) : ALL.includes(s.tag), () => `sent ${show(s)}`);
        if (s.tag === COLL) u.ok(v && Object.keys(v).length > 0 && Object.entries(v).every(([k, x]) => FIELDS.includes(k) && typeof x === "string" && !bad(x)) && (s.operation === "remove" || Object.keys(v).length === 2), () => `sent ${show(s)}`);
        else u.ok(typeof v === "string" && v.length > 0 && !bad(v), () => `sent ${show(s)}`);
        u.eq(conflictAt(sent), undefined, `sent conflicting edits ${show(sent)}`);
      },
    });

    await ctx.prop("lists", {
      runs: [500, 5000],
      arb: fc.oneof(fc.constantFrom(undefined, null, [], {}, "x", 1, new Set([1]), { length: 1, 0: { tag: "XMP-dc:Subject", operation: "add", value: "x" } }, new Array(2)), good.map((e) => e), fc.array(good, { minLength: 1, maxLength: 3 }).map((a) => { a.length += 1; return a; })),
      async check(list, t) {
        t.nontrivial();
        const { r, cmds } = await run(() => et.editTags(B, list));
        u.ok(!r.ok && r.error instanceof Error, () => `editTags(${show(list)}) was accepted`);
        u.eq(cmds, [], `editTags(${show(list)}) was rejected, but sent`);
      },
    });
    await f.end();
  },
};
