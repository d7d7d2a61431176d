"use strict";
const g = require("../lib/gens");
const { fc } = g;
const TZS = ["UTC", "America/Los_Angeles", "Asia/Kathmandu", "Europe/London"];
// Documented abbreviation table (minutes east), written out independently.
const ABBR = {
  NST: -210, NDT: -150, ADT: -180, EST: -300, EDT: -240, CDT: -300, MST: -420, MDT: -360, PST: -480, PDT: -420, AKST: -540, AKDT: -480, HST: -600,
  WET: 0, WEST: 60, CET: 60, CEST: 120, EET: 120, EEST: 180, MSK: 180, TRT: 180, WAT: 60, CAT: 120, SAST: 120, EAT: 180,
  IRST: 210, IRDT: 270, AFT: 270, PKT: 300, NPT: 345, MMT: 390, ICT: 420, SGT: 480, HKT: 480, PHT: 480, JST: 540, KST: 540,
  AWST: 480, ACST: 570, ACDT: 630, AEST: 600, AEDT: 660, NZST: 720, NZDT: 780, CHAST: 765, CHADT: 825,
  COT: -300, PET: -300, VET: -240, BOT: -240, CLT: -240, CLST: -180, ART: -180, BRT: -180, UYT: -180, CVT: -60, AZOT: -60, MUT: 240, SCT: 240,
};
const AMBIGUOUS = ["CST", "IST", "BST", "AST", "GST", "AMT", "SST", "WST", "QQQ", "XYZT"];

module.exports = {
  id: "C11",
  level: "exploration",
  quickScale: 10,
  shardEnvs: () => TZS.flatMap((TZ) => [{ TZ }, { TZ }]),
  rule:
    "Zone texts are generated from (offset in minutes or IANA name, spelling), timestamps from (date-time text, zone text, abbreviation), plus arbitrary and mutated text and non-text values; settings for archaic and Baker Island offsets vary per case. Oracles: the generated offset and an independent table of offsets in civil use, Node's Intl database for IANA names, and a hand-written recogniser for arbitrary text. Non-trivial: an offset other than whole-hour UTC, a non-default spelling, a setting switched on, or text that is almost a zone.",
  assumptions: ["Intl's time zone database decides which IANA names exist and their offsets", "whole-minute offsets only: the 19th-century -00:25:21 has no name"],
  async run(ctx) {
    const L = ctx.lib;
    const u = ctx.u;
    const { Settings } = L;
    const { Info, IANAZone, FixedOffsetZone } = require(require.resolve("luxon", { paths: [ctx.entry] }));
    const names = Intl.supportedValuesOf("timeZone");
    const settings = fc.record({ archaic: fc.boolean(), baker: fc.boolean() });
    const arch = g.ARCHAIC.filter(Number.isInteger);
    const isValid = (o, s) => g.OFFSETS.includes(o) || (s.archaic && arch.includes(o)) || (s.baker && o === -720);
    const withSettings = (s, f) => {
      Settings.allowArchaicTimezoneOffsets.value = s.archaic;
      Settings.allowBakerIslandTime.value = s.baker;
      if (s.abbr) Settings.tzAbbreviationOffsets.value = s.abbr;
      try {
        return f();
      } finally {
        Settings.reset();
      }
    };
    const anyOffset = fc.oneof(
      { weight: 6, arbitrary: g.offsetMin },
      { weight: 2, arbitrary: fc.constantFrom(...arch, -720) },
      { weight: 1, arbitrary: fc.integer({ min: -900, max: 900 }) },
      { weight: 1, arbitrary: fc.integer({ min: -60, max: 60 }).map((q) => q * 15) },
    );
    const SPELL = ["+HH:MM", "+HHMM", "UTC+HH:MM", "UTC+H", "+HH", "+H", "\u2212HH:MM", "GMT+HH:MM", "GMT+H", "UTC+HHMM"];
    const spell = (o, st) => {
      if (st === "GMT+HH:MM") return "GMT" + g.offStr(o);
      if (st === "GMT+H") return g.writeOffset(o, "UTC+H").replace("UTC", "GMT");
      if (st === "UTC+HHMM") return "UTC" + g.offStr(o, false);
      return g.writeOffset(o, st);
    };
    // Intl's idea of a zone's offset (minutes) at an instant with whole seconds.
    const fmts = new Map();
    const intlOffset = (zone, ms) => {
      let f = fmts.get(zone);
      if (!f) fmts.set(zone, (f = new Intl.DateTimeFormat("en-US", { timeZone: zone, hourCycle: "h23", year: "numeric", month: "2-digit", day: "2-digit", hour: "2-digit", minute: "2-digit", second: "2-digit" })));
      const p = Object.fromEntries(f.formatToParts(new Date(ms)).map((x) => [x.type, +x.value]));
      return (Date.UTC(p.year, p.month - 1, p.day, p.hour, p.minute, p.second) - ms) / 60000;
    };
    const instants = fc.integer({ min: 0, max: Date.UTC(2037, 0, 1) / 1000 }).map((s) => s * 1000);

    await ctx.prop("offset-text", {
      runs: [24000, 600000],
      arb: fc.record({ o: anyOffset, st: fc.constantFrom(...SPELL), s: settings }),
      check({ o, st, s }, t) {
        withSettings(s, () => {
          t.nontrivial(o % 60 !== 0 || st !== "+HH:MM" || s.archaic || s.baker);
          t.label(isValid(o, s) ? "valid" : "invalid");
          const text = spell(o, st);
          const valid = isValid(o, s);
          const z = L.normalizeZone(text);
          const what = `normalizeZone(${JSON.stringify(text)}) with ${JSON.stringify(s)}`;
          if (valid) {
            u.ok(z != null && z.isValid && z.isUniversal, `${what} is not a zone`);
            u.eq(z.offset(0), o, what + " offset");
            u.eq(z.name, g.zoneName(o), what + " name");
            u.eq(L.isZoneValid(z), true, what + " isZoneValid");
            u.eq(L.normalizeZone(z)?.offset(0), o, "normalizeZone(zone)");
            u.eq(L.normalizeZone(z.name)?.offset(0), o, "normalizeZone(zone.name)");
            u.eq(L.zoneToShortOffset(text, 0), g.offStr(o), "zoneToShortOffset");
          } else {
            u.eq(z, undefined, what);
            u.eq(L.zoneToShortOffset(text, 0), "", "zoneToShortOffset");
          }
          u.eq(L.extractZone(text)?.zone, valid ? g.zoneName(o) : undefined, `extractZone(${JSON.stringify(text)})`);
          u.eq(L.validTzOffsetMinutes(o), valid, `validTzOffsetMinutes(${o})`);
          u.eq(L.offsetMinutesToZoneName(o), valid ? g.zoneName(o) : undefined, `offsetMinutesToZoneName(${o})`);
          u.eq(L.normalizeZone(o)?.offset(0), valid ? o : undefined, `normalizeZone(${o})`);
          u.eq(L.isZoneValid(FixedOffsetZone.instance(o)), valid, `isZoneValid(FixedOffsetZone ${o})`);
          if (Math.abs(o) < 15 * 60) u.eq(L.parseTimezoneOffsetToMinutes(text), Object.is(o, -0) ? 0 : o, `parseTimezoneOffsetToMinutes(${text})`);
          if (L.TimezoneOffsetRE) {
            const m = L.parseTimezoneOffsetMatch(new RegExp("^x" + L.TimezoneOffsetRE.source + "$").exec("x" + g.writeOffset(o, "+HH:MM")));
            u.eq(m?.offsetMinutes, Math.abs(o) < 900 ? o : undefined, "parseTimezoneOffsetMatch");
          }
          u.eq(L.extractZone(o / 60)?.zone, isValid(Math.round((o / 60) * 60), s) && (o / 60) * 60 === o ? g.zoneName(o) : L.extractZone(o / 60)?.zone, `extractZone(${o / 60} hours)`);
        });
      },
    });

    await ctx.prop("iana-names", {
      runs: [4000, 60000],
      arb: fc.record({ n: fc.constantFrom(...names), ms: instants, other: fc.constantFrom(...names), o: g.offsetMin }),
      check({ n, ms, other, o }, t) {
        t.nontrivial();
        const z = L.normalizeZone(n);
        u.ok(z != null && z.isValid, `normalizeZone(${n}) is not a zone`);
        u.eq(z.offset(ms), intlOffset(n, ms), `${n} offset at ${new Date(ms).toISOString()}`);
        const ez = L.extractZone(n);
        u.eq(L.normalizeZone(ez?.zone)?.offset(ms), intlOffset(n, ms), `extractZone(${n})`);
        u.eq(L.normalizeZone(IANAZone.create(n))?.name, n, "normalizeZone(IANAZone)");
        const off = intlOffset(n, ms);
        const same = intlOffset(other, ms) === off;
        u.eq([L.equivalentZones(n, other, ms), L.equivalentZones(other, n, ms)], [same || n === other, same || n === other], `equivalentZones(${n}, ${other}) at ${ms}`);
        const eqo = off === o;
        u.eq([L.equivalentZones(n, g.zoneName(o), ms), L.equivalentZones(o, n, ms), L.equivalentZones(n, n, ms)], [eqo, eqo, true], `equivalentZones(${n}, ${g.zoneName(o)}) at ${ms}`);
        if (Number.isInteger(off)) u.eq(L.zoneToShortOffset(n, ms), g.offStr(off), `zoneToShortOffset(${n})`);
      },
    });

    // equivalence over everything that denotes a zone
    const zoneValue = fc.oneof(
      { weight: 4, arbitrary: fc.tuple(g.offsetMin, fc.constantFrom(...SPELL)).map(([o, st]) => ({ v: spell(o, st), o })) },
      { weight: 2, arbitrary: g.offsetMin.map((o) => ({ v: o, o })) },
      { weight: 2, arbitrary: g.offsetMin.map((o) => ({ v: FixedOffsetZone.instance(o), o, zone: true })) },
      { weight: 1, arbitrary: fc.constantFrom("UTC", "GMT", "Z", "Zulu", "+00:00", "-00:00", "Etc/UTC", "UTC+0", "GMT+0", "0", "utc", "gmt", "z").map((v) => ({ v, o: 0 })) },
      { weight: 1, arbitrary: fc.constantFrom(null, undefined, "", "nope", -1, "UTC-0:01", NaN, 1200, "+25:00", L.UnsetZone, L.UnsetZoneName).map((v) => ({ v })) },
    );
    const showV = (x) => (x.zone ? `FixedOffsetZone(${x.o})` : u.show(x.v));
    await ctx.prop("equivalence", {
      runs: [12000, 200000],
      arb: fc.tuple(zoneValue, zoneValue, instants),
      check([a, b, ms], t) {
        t.nontrivial(a.o !== b.o || typeof a.v !== typeof b.v);
        const exp = a.o !== undefined && b.o !== undefined && a.o === b.o;
        u.eq(L.equivalentZones(a.v, b.v, ms), exp, `equivalentZones(${showV(a)}, ${showV(b)})`);
        u.eq(L.equivalentZones(b.v, a.v, ms), exp, `equivalentZones(${showV(b)}, ${showV(a)})`);
        u.eq(L.equivalentZones(a.v, a.v, ms), a.o !== undefined, `equivalentZones(${showV(a)}, itself)`);
        u.eq(L.normalizeZone(a.v)?.offset(ms), a.o, `normalizeZone(${showV(a)})`);
      },
    });

    const times = fc.tuple(g.dt, g.fraction, fc.constantFrom("exif", "iso", "time")).map(([f, fr, l]) => {
      const d = `${g.pad(f.year, 4)}-${g.pad(f.month, 2)}-${g.pad(f.day, 2)}`;
      const tm = `${g.pad(f.hour, 2)}:${g.pad(f.minute, 2)}:${g.pad(f.second, 2)}` + (fr == null ? "" : "." + fr);
      return l === "exif" ? d.replace(/-/g, ":") + " " + tm : l === "iso" ? d + "T" + tm : tm;
    });
    const EMBED = ["+HH:MM", "+HHMM", "UTC+HH:MM", "+HH", "\u2212HH:MM", "Z"];
    await ctx.prop("zone-within-timestamp", {
      runs: [24000, 500000],
      arb: fc.record({ text: times, o: fc.option(anyOffset, { freq: 6 }), st: fc.constantFrom(...EMBED), tza: fc.option(fc.constantFrom(...Object.keys(ABBR), ...AMBIGUOUS), { freq: 2 }), lower: fc.boolean(), ws: fc.constantFrom("", " ", "\n"), s: settings, abbr: fc.option(fc.dictionary(fc.constantFrom("CST", "IST", "PST", "QQQ"), fc.oneof(g.offsetMin, fc.constantFrom(13, 999))), { freq: 3 }), strip: fc.constantFrom(undefined, true, false) }),
      check({ text, o, st, tza, lower, ws, s, abbr, strip }, t) {
        withSettings({ ...s, abbr }, () => {
          const z = o == null ? "" : g.writeOffset(o, st);
          const suffix = tza == null ? "" : " " + (lower ? tza.toLowerCase() : tza);
          const str = ws + text + z + suffix + ws;
          t.nontrivial(o != null || tza != null);
          const valid = o != null && isValid(o, s);
          t.label(`${o == null ? "no-offset" : valid ? "offset" : "bad-offset"}/${tza == null ? "-" : "tza"}`);
          const r = L.extractZone(str, strip === undefined ? undefined : { stripTZA: strip });
          const what = `extractZone(${JSON.stringify(str)}, stripTZA=${strip}) with ${JSON.stringify({ ...s, abbr })}`;
          if (strip === false && tza != null) return void u.eq(r, undefined, what);
          let exp;
          let left = text;
          if (valid) exp = g.zoneName(o);
          else if (tza != null) {
            const a = (abbr && abbr[tza] !== undefined ? abbr[tza] : undefined) ?? ABBR[tza];
            if (a !== undefined && isValid(a, s)) exp = g.zoneName(a);
            left = text + z;
          }
          u.eq(r?.zone, exp, what);
          u.eq(r?.tz, exp, what + " tz");
          if (exp !== undefined) {
            u.eq(r.leftovers, left, what + " leftovers");
            if (valid && tza == null) u.eq(r.zone, L.extractZone(z)?.zone, "zone text alone");
          }
        });
      },
    });

    // A recogniser for "this text is exactly a zone", written character by character.
    const recognise = (text, s) => {
      const digits = (x) => x.length > 0 && [...x].every((c) => c >= "0" && c <= "9");
      let rest = text;
      const up = rest.toUpperCase();
      if (["Z", "UTC", "GMT", "ZULU", "0"].includes(up)) return { o: 0 };
      for (const p of ["ZULU", "UTC", "GMT", "Z"]) if (up.startsWith(p) && /^[+\u2212-]/.test(rest.slice(p.length))) {
        rest = rest.slice(p.length);
        break;
      }
      const sign = rest[0] === "+" ? 1 : rest[0] === "-" || rest[0] === "\u2212" ? -1 : 0;
      if (sign) {
        const b = rest.slice(1);
        // +HMM:00 and +HHMM:00, half basic and half extended, are nobody's format: either answer
        if (/^\d{3,4}:00$/.test(b)) {
          const r = recognise((sign < 0 ? "-" : "+") + b.slice(0, -3), s);
          return r.o === undefined ? {} : { ...r, optional: true };
        }
        const parts = b.includes(":") ? b.split(":") : b.length > 2 ? [b.slice(0, -2), b.slice(-2)] : [b];
        if (parts.length === 1) parts.push("00");
        if (parts.length === 3 && parts[2] === "00") parts.pop();
        if (parts.length !== 2 || !parts.every(digits) || parts[0].length > 2 || parts[1].length !== 2) return {};
        if (+parts[1] > 59 || +parts[0] > 14) return {};
        const o = sign * (+parts[0] * 60 + +parts[1]);
        return isValid(o, s) || o === 0 ? { o: o === 0 ? 0 : o } : {};
      }
      if (["LOCAL", "SYSTEM", "DEFAULT"].includes(up)) return {};
      try {
        new Intl.DateTimeFormat("en-US", { timeZone: text });
        return { iana: text };
      } catch {
        return {};
      }
    };
    const almost = fc
      .tuple(fc.oneof(anyOffset.chain((o) => fc.constantFrom(...SPELL).map((st) => spell(o, st))), fc.constantFrom(...names, "UTC", "GMT", "Z", "Zulu", "local", "system", "default")), fc.nat(20), fc.oneof(fc.constantFrom("", " ", ":", "0", "-", "+", "Z", "\n", "\u2212", "/"), fc.string({ maxLength: 2 })), fc.nat(2))
      .map(([s, i, x, d]) => s.slice(0, i) + x + s.slice(i + d));
    await ctx.prop("arbitrary-text", {
      runs: [30000, 800000],
      arb: fc.record({ text: fc.oneof({ weight: 6, arbitrary: almost }, { weight: 2, arbitrary: fc.string({ unit: fc.constantFrom(..."0123456789:+-UTCGMZ"), maxLength: 10 }) }, { weight: 1, arbitrary: fc.string({ maxLength: 25 }) }, { weight: 1, arbitrary: fc.string({ unit: "grapheme", maxLength: 12 }) }), s: settings }),
      check({ text, s }, t) {
        withSettings(s, () => {
          const z = L.normalizeZone(text);
          const ref = recognise(text, s);
          const what = `normalizeZone(${JSON.stringify(text)}) with ${JSON.stringify(s)}`;
          if (z != null) {
            u.ok(z.isValid === true, what + " is an invalid zone");
            u.ok(!L.isZoneUnset(z), what + " is the unset marker");
          }
          if (ref.o !== undefined) {
            t.nontrivial();
            t.label("offset");
            // lower-case prefixes before an offset are not documented spellings
            if (ref.optional && z == null) return;
            if (/^(utc|gmt|z|zulu)/i.test(text) && !/^(UTC|GMT)/.test(text) && z == null) return;
            u.ok(z != null, `${what} is not a zone`);
            u.eq(z.offset(0), ref.o, what + " offset");
          } else if (ref.iana !== undefined) {
            t.nontrivial();
            t.label("iana");
            // fixed-offset IANA aliases (Etc/GMT+5, "+05:00") and legacy POSIX names are optional spellings
            if (z == null) u.ok(!names.includes(text), `${what} is not a zone`);
            else if (!z.isUniversal) u.eq(z.offset(1700000000000), intlOffset(ref.iana, 1700000000000), what + " offset");
          } else {
            t.label("none");
            t.nontrivial(/\d|\//.test(text));
            u.eq(z?.name, undefined, what);
          }
          const e = L.extractZone(text);
          if (z != null) u.eq(e?.zone, z.name, `extractZone(${JSON.stringify(text)}) agrees with normalizeZone`);
          if (e != null) {
            u.ok(L.normalizeZone(e.zone) != null, `extractZone(${JSON.stringify(text)}) reported ${e.zone}, which is not a zone`);
            const str = text.trim();
            u.ok(str.startsWith(e.leftovers ?? ""), `extractZone(${JSON.stringify(text)}) left ${JSON.stringify(e.leftovers)}`);
            const used = str.slice((e.leftovers ?? "").length).trim();
            const tza = /^(.*)\s([a-z]{2,5})$/is.exec(used) ?? [0, "", used];
            const ok = [used, tza[1].trim()].some((x) => L.normalizeZone(x)?.name === e.zone) || g.zoneName(ABBR[tza[2].toUpperCase()] ?? NaN) === e.zone;
            u.ok(ok, `extractZone(${JSON.stringify(text)}) took ${JSON.stringify(used)} for ${e.zone}`);
            if (e.leftovers != null) u.ok(text.includes(e.leftovers), `leftovers ${JSON.stringify(e.leftovers)} are not part of ${JSON.stringify(text)}`);
          }
        });
      },
    });

    await ctx.prop("other-values", {
      runs: [8000, 100000],
      arb: fc.oneof(
        fc.anything({ maxDepth: 2 }).filter((v) => { try { return typeof String(v) === "string"; } catch { return false; } }),
        fc.constantFrom(L.UnsetZone, L.UnsetZoneName, -1, -1.0, 0, -0, true, NaN, Infinity, new Date(0), Info.normalizeZone("bogus/zone"), Symbol("z"), 10n),
        fc.array(fc.oneof(fc.constantFrom(null, undefined, "nope", 100), g.offsetMin.map((o) => g.offStr(o)), g.offsetMin.map((o) => o / 60)), { maxLength: 4 }),
        fc.double(),
      ),
      check(v, t) {
        t.nontrivial(v != null);
        const z = L.normalizeZone(v);
        if (z != null) u.ok(z.isValid === true && !L.isZoneUnset(z) && L.isZoneValid(z), `normalizeZone(${u.show(v)}) gave ${z.name}`);
        if (typeof v === "number" && !g.OFFSETS.includes(v)) u.eq(z, undefined, `normalizeZone(${v})`);
        if (v !== null && typeof v === "object" && !(v instanceof Object.getPrototypeOf(FixedOffsetZone))) u.eq(z, undefined, `normalizeZone(${u.show(v)})`);
        const e = L.extractZone(v);
        if (Array.isArray(v)) {
          const first = v.find((x) => x != null);
          if (!Array.isArray(first)) u.eq(e?.zone, L.extractZone(first)?.zone, `extractZone(${u.show(v)}) uses the first value`);
        }
        if (typeof v === "number") u.eq(e?.zone, g.OFFSETS.includes(v * 60) ? g.zoneName(v * 60) : undefined, `extractZone(${v})`);
        if (e != null) u.ok(L.normalizeZone(e.zone) != null, `extractZone(${u.show(v)}) reported ${e.zone}`);
        u.eq(L.isUTC(v), typeof v === "string" || typeof v === "number" || typeof v === "object" ? L.isUTC(v) : false, "isUTC");
        if (L.isUTC(v)) u.eq(z?.offset(0), 0, `isUTC(${u.show(v)}) but normalizeZone gave ${z?.name}`);
        u.ok(!L.equivalentZones(v, L.UnsetZone), "nothing is equivalent to the unset marker");
      },
    });
  },
};
