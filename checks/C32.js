"use strict";
const g = require("../lib/gens");
const { fc } = g;

const HELPERS = new Set(["values", "length", "has", "includes", "getCI", "pick", "omit", "indexOf", "ordinal", "toValid", "firstValid", "mapValid", "cmp", "lt", "next", "toReversed", "__proto__"]);
const letters = "abzABZkKiI09_-:";
const value = fc
  .oneof(
    { weight: 4, arbitrary: fc.string({ unit: fc.constantFrom(...letters), minLength: 1, maxLength: 3 }) },
    { weight: 1, arbitrary: fc.string({ unit: "grapheme-ascii", minLength: 1, maxLength: 10 }) },
    { weight: 1, arbitrary: fc.constantFrom("constructor", "toString", "hasOwnProperty", "valueOf", "1", "0", "10", "North", "south", "XMP-dc:Subject", "true", "null", "undefined", "NaN", " ", "", "keys", "Values", "NEXT") },
  )
  .filter((s) => !HELPERS.has(s));
const flip = (s, bits) => [...s].map((c, i) => ((bits >> (i % 30)) & 1 ? (c === c.toLowerCase() ? c.toUpperCase() : c.toLowerCase()) : c)).join("");
const lower = (s) => s.replace(/[A-Z]/g, (c) => String.fromCharCode(c.charCodeAt(0) + 32));
// What a caller asks about: a member, a member in another case, something close to one, or anything.
const query = fc.oneof(
  { weight: 4, arbitrary: fc.record({ at: fc.nat(40) }, { noNullPrototype: true }) },
  { weight: 3, arbitrary: fc.record({ at: fc.nat(40), bits: fc.nat(0x3fffffff) }, { noNullPrototype: true }) },
  { weight: 1, arbitrary: fc.record({ at: fc.nat(40), tail: fc.constantFrom(" ", "a", "\n", "\u0000") }, { noNullPrototype: true }) },
  { weight: 1, arbitrary: fc.record({ any: fc.oneof(fc.string({ maxLength: 3 }), fc.constantFrom("constructor", "toString", "__proto__", "values", "length", "next", "0", "")) }, { noNullPrototype: true }) },
  { weight: 1, arbitrary: fc.record({ nil: fc.constantFrom(null, undefined) }, { noNullPrototype: true }) },
);

module.exports = {
  id: "C32",
  level: "exploration",
  technique: "model-based property testing: generated enumerations and queries against an ordered-set reference model",
  shards: 4,
  rule:
    "Generated value lists (0-12 ASCII values, repeats, values differing in case only, integer-like and Object.prototype names) are made into string enums, also reversed and re-reversed, and asked about members, members in other case, near misses, arbitrary strings, null and undefined. Oracle: an ordered set. Non-trivial: at least two values, and a query that is a member.",
  assumptions: ["values are ASCII and do not name a helper of the enum itself; when values differ in case only, a case-insensitive query may name any of them"],
  async run(ctx) {
    const u = ctx.u;
    const { strEnum } = ctx.lib;
    const resolve = (q, vals) => {
      if ("nil" in q) return q.nil;
      if ("any" in q) return q.any;
      if (!vals.length) return "x";
      const v = vals[q.at % vals.length];
      return "bits" in q ? flip(v, q.bits) : "tail" in q ? v + q.tail : v;
    };
    const input = fc.record({ list: fc.array(value, { maxLength: 12 }), reversed: fc.nat(3), queries: fc.array(query, { minLength: 1, maxLength: 10 }) }, { noNullPrototype: true });
    const make = (c) => {
      const order = [...new Set(c.list)];
      let e = strEnum(...c.list);
      for (let i = 0; i < c.reversed; i++) {
        const was = JSON.stringify(e.values);
        const r = e.toReversed();
        u.eq(JSON.stringify(e.values), was, "values after toReversed()");
        e = r;
        order.reverse();
      }
      return { order, e, at: `strEnum(${c.list.map((x) => JSON.stringify(x)).join(", ")})${".toReversed()".repeat(c.reversed)}` };
    };
    await ctx.prop("ordered-set", {
      runs: [40000, 800000],
      arb: input,
      check(c, t) {
        const { order, e, at } = make(c);
        u.eq([...e.values], order, `${at}.values`);
        u.eq(e.length, order.length, `${at}.length`);
        u.eq([...e], order, `[...${at}]`);
        u.eq([...e], order, `[...${at}] a second time`);
        u.eq(Object.prototype.toString.call(e), "[object StrEnum]", `tag of ${at}`);
        for (const v of order) u.eq(e[v], v, `${at}[${JSON.stringify(v)}]`);
        const qs = c.queries.map((q) => resolve(q, order));
        for (const q of qs) {
          const s = `(${q === undefined ? "undefined" : JSON.stringify(q)})`;
          const i = order.indexOf(q);
          if (i >= 0 && order.length > 1) t.nontrivial();
          u.eq(e.has(q), i >= 0, `${at}.has${s}`);
          u.eq(e.includes(q), i >= 0, `${at}.includes${s}`);
          u.eq(e.indexOf(q), i >= 0 ? i : undefined, `${at}.indexOf${s}`);
          u.eq(e.ordinal(q), i >= 0 ? i : order.length, `${at}.ordinal${s}`);
          const like = typeof q === "string" ? order.filter((v) => lower(v) === lower(q)) : [];
          for (const f of ["getCI", "toValid", "firstValid"]) {
            const got = e[f](q);
            // (the Kelvin sign and the like fold to ASCII letters)
            if (typeof q === "string" && /[^\x00-\x7f]/.test(q)) continue;
            u.ok(like.length ? like.includes(got) : got === undefined, () => `${at}.${f}${s} is ${u.show(got)}, expected ${u.show(like.length > 1 ? like : like[0])}`);
          }
          const seen = [];
          const r = e.mapValid(q, (v) => (seen.push(v), 0));
          u.eq([r, seen], i >= 0 ? [0, [q]] : [undefined, []], `${at}.mapValid${s}`);
        }
        const members = qs.filter((q) => order.includes(q));
        u.eq(e.pick(...members), order.filter((v) => members.includes(v)), `${at}.pick(${members.map((x) => JSON.stringify(x))})`);
        u.eq(e.omit(...members), order.filter((v) => !members.includes(v)), `${at}.omit(${members.map((x) => JSON.stringify(x))})`);
        u.eq([...e.values], order, `${at}.values after pick() and omit()`);
        for (const a of qs)
          for (const b of qs) {
            const [i, j] = [order.indexOf(a), order.indexOf(b)];
            u.eq(e.cmp(a, b), i < 0 || j < 0 ? undefined : Math.sign(i - j), `${at}.cmp(${JSON.stringify(a)}, ${JSON.stringify(b)})`);
            u.eq(e.lt(a, b), i >= 0 && j >= 0 && i < j, `${at}.lt(${JSON.stringify(a)}, ${JSON.stringify(b)})`);
          }
        // the first candidate that is a value in any case
        const ascii = qs.filter((q) => typeof q !== "string" || /^[\x00-\x7f]*$/.test(q));
        const first = ascii.find((q) => typeof q === "string" && order.some((v) => lower(v) === lower(q)));
        const got = e.firstValid(...ascii);
        u.ok(first === undefined ? got === undefined : order.includes(got) && lower(got) === lower(first), () => `${at}.firstValid(${ascii.map((x) => JSON.stringify(x))}) is ${u.show(got)}`);
      },
    });
    await ctx.prop("next", {
      runs: [8000, 100000],
      arb: input,
      check(c, t) {
        const { order, e, at } = make(c);
        let known;
        for (const q of c.queries.map((x) => resolve(x, order))) {
          const i = order.indexOf(q);
          const want = i < 0 ? undefined : order[i + 1];
          const got = e.next(q);
          if (i >= 0) t.nontrivial();
          if (got === want) continue;
          const m = `${at}.next(${JSON.stringify(q)}) is ${u.show(got)}, expected ${u.show(want)}`;
          if (i >= 0 && got === q) known ??= m;
          else ctx.fail(m);
        }
        if (known) ctx.fail(known, "strenum-next");
      },
    });
  },
};
