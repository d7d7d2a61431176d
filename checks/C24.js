"use strict";
const g = require("../lib/gens");
const { fc } = g;
const TZS = ["UTC", "America/New_York", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "America/Sao_Paulo", "Europe/Dublin", "Asia/Beirut"];

module.exports = {
  id: "C24",
  level: "exploration",
  quickScale: 4,
  shardEnvs: () => TZS.map((TZ) => ({ TZ })),
  rule:
    "Date-times are generated as (fields, optional fraction, no zone | fixed offset | IANA zone), biased to DST changes of the host zone and of the target zone; operations are setZone (with and without keepLocalTime), plus, maybeMatchZone, and chains of them. Oracles: epoch arithmetic for fixed offsets, Intl for IANA offsets, Date.UTC month arithmetic for calendar units. Non-trivial: a zone actually changes, a fraction is present, or the time lies near a DST change.",
  assumptions: ["keeping a local time that does not exist in the target IANA zone is not decided", "Intl's database decides IANA offsets"],
  async run(ctx) {
    const { ExifDateTime } = ctx.lib;
    const u = ctx.u;
    const { DateTime } = require(require.resolve("luxon", { paths: [ctx.entry] }));
    const fmts = new Map();
    const intlOffset = (zone, ms) => {
      let f = fmts.get(zone);
      if (!f) fmts.set(zone, (f = new Intl.DateTimeFormat("en-US", { timeZone: zone, hourCycle: "h23", year: "numeric", month: "2-digit", day: "2-digit", hour: "2-digit", minute: "2-digit", second: "2-digit" })));
      const sec = Math.floor(ms / 1000) * 1000;
      const p = Object.fromEntries(f.formatToParts(new Date(sec)).map((x) => [x.type, +x.value]));
      return (Date.UTC(p.year, p.month - 1, p.day, p.hour, p.minute, p.second) - sec) / 60000;
    };
    const IZ = ["America/New_York", "Europe/London", "Asia/Tokyo", "Asia/Kathmandu", "America/St_Johns", "Pacific/Auckland"];
    const near = Object.fromEntries([...IZ, process.env.TZ].map((z) => [z, g.nearTransition(DateTime, z)]));
    const fields = fc.oneof(
      { weight: 3, arbitrary: g.dt.map((f) => ({ ...f, year: 1975 + (f.year % 60) })).map((f) => ({ ...f, day: Math.min(f.day, g.daysIn(f.year, f.month)) })) },
      { weight: 2, arbitrary: near[process.env.TZ] },
      { weight: 2, arbitrary: fc.constantFrom(...IZ).chain((z) => near[z]) },
    );
    const zone = fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: g.offsetMin.map((o) => ({ o })) }, { weight: 2, arbitrary: fc.constantFrom(...IZ).map((iana) => ({ iana })) });
    const src = fc.record({ f: fields, frac: fc.option(fc.integer({ min: 0, max: 999 }), { freq: 2 }), z: zone });
    const zname = (z) => (z == null ? undefined : z.iana ?? g.zoneName(z.o));
    const F = ["year", "month", "day", "hour", "minute", "second", "millisecond"];
    const wallMs = (f) => g.instant({ ...f, millisecond: f.millisecond ?? 0 }, 0);
    const offAt = (z, ms) => (z.iana ? intlOffset(z.iana, ms) : z.o);
    // instants at which the wall clock of z shows w (0, 1 or 2)
    const instantsOf = (z, w) => {
      if (!z.iana) return [w - z.o * 60000];
      const c = new Set([-2, 0, 2].map((d) => intlOffset(z.iana, w + d * 86400000)));
      for (const h of [-14, -10, -4, 4, 10, 14]) c.add(intlOffset(z.iana, w + h * 3600000));
      return [...c].map((o) => w - o * 60000).filter((ms) => ms + intlOffset(z.iana, ms) * 60000 === w);
    };
    // Builds the date-time; undefined when the wall time does not exist in its own zone.
    const make = (c) => {
      const f = { ...c.f, millisecond: c.frac ?? undefined };
      const w = wallMs(f);
      if (c.z?.iana) {
        const at = instantsOf(c.z, w);
        if (at.length !== 1) return;
        const off = (w - at[0]) / 60000;
        return { e: new ExifDateTime(f.year, f.month, f.day, f.hour, f.minute, f.second, f.millisecond, off, "raw", c.z.iana), f, w, ms: at[0] };
      }
      const e = new ExifDateTime(f.year, f.month, f.day, f.hour, f.minute, f.second, f.millisecond, c.z ? c.z.o : undefined, "raw", c.z ? g.zoneName(c.z.o) : undefined);
      return { e, f, w, ms: c.z ? w - c.z.o * 60000 : undefined };
    };
    const snap = (e) => JSON.stringify([e, e.zone, e.hasZone]);
    const desc = (c) => `${JSON.stringify(c.f)}${c.frac == null ? "" : "." + c.frac} ${zname(c.z) ?? "(no zone)"}`;
    const checkWall = (r, w, hasMs, what) => {
      const x = g.wallFields(w);
      u.eq(u.pick(r, F), { ...x, millisecond: hasMs ? ((w % 1000) + 1000) % 1000 : undefined }, what + " fields");
    };

    const target = fc.oneof(g.offsetMin.map((o) => ({ o })), fc.constantFrom(...IZ).map((iana) => ({ iana })));
    await ctx.prop("setZone", {
      runs: [24000, 400000],
      arb: fc.record({ c: src, to: target, keep: fc.constantFrom(undefined, undefined, true, false), inferred: fc.constantFrom(undefined, true, false), asZone: fc.boolean() }),
      check({ c, to, keep, inferred, asZone }, t) {
        const m = make(c);
        if (!m) return;
        const before = snap(m.e);
        const opts = {};
        if (keep !== undefined) opts.keepLocalTime = keep;
        if (inferred !== undefined) opts.inferredZone = inferred;
        const arg = asZone ? ctx.lib.normalizeZone(zname(to)) : zname(to);
        if (c.z == null && keep === false) return; // converting a time of unknown zone is not decided
        const keeps = keep ?? c.z == null;
        const what = `${desc(c)} .setZone(${zname(to)}, ${JSON.stringify(opts)})`;
        const at = keeps ? instantsOf(to, m.w) : [m.ms];
        if (at.length !== 1) return t.label("gap-or-overlap");
        t.nontrivial(zname(to) !== zname(c.z));
        t.label(keeps ? "keep-local" : "keep-instant");
        const r = m.e.setZone(arg, Object.keys(opts).length ? opts : undefined);
        u.ok(r instanceof ExifDateTime, what + " gave nothing");
        const off = offAt(to, at[0]);
        u.eq(r.toMillis(), at[0], what + " instant");
        checkWall(r, at[0] + off * 60000, c.frac != null, what);
        u.eq([r.zone, r.hasZone, r.tzoffsetMinutes], [zname(to), true, off], what + " zone");
        u.eq(r.rawValue, "raw", what + " rawValue");
        u.eq(r.inferredZone, inferred ?? true, what + " inferredZone");
        u.eq(snap(m.e), before, what + " modified the original");
        // there and back
        if (!keeps && c.z) {
          const b = r.setZone(zname(c.z));
          u.eq(u.pick(b, F), u.pick(m.e, F), what + " and back");
        }
        if (keeps) u.eq(u.pick(r, F), u.pick(m.e, F), what + " keeps the local time");
      },
    });

    // hours..milliseconds move the instant; days and weeks and months the calendar.
    const dur = fc.oneof(
      fc.record({ unit: fc.constantFrom("hours", "minutes", "seconds", "milliseconds"), n: fc.integer({ min: -100000, max: 100000 }) }),
      fc.record({ unit: fc.constantFrom("days", "weeks", "months", "years"), n: fc.integer({ min: -500, max: 500 }) }).map((d) => (d.unit === "years" ? { ...d, n: d.n % 40 } : d)),
    );
    const MS = { hours: 3600000, minutes: 60000, seconds: 1000, milliseconds: 1 };
    await ctx.prop("plus", {
      runs: [24000, 400000],
      arb: fc.record({ c: src, d: dur }),
      check({ c, d }, t) {
        if (d.unit === "milliseconds" && c.frac == null) return;
        const m = make(c);
        if (!m) return;
        const before = snap(m.e);
        const what = `${desc(c)} .plus({${d.unit}: ${d.n}})`;
        let w;
        let ms;
        if (MS[d.unit]) {
          if (c.z) {
            ms = m.ms + d.n * MS[d.unit];
            w = ms + offAt(c.z, ms) * 60000;
          } else w = m.w + d.n * MS[d.unit];
        } else {
          const x = { ...m.f };
          if (d.unit === "months" || d.unit === "years") {
            const k = x.year * 12 + (x.month - 1) + d.n * (d.unit === "years" ? 12 : 1);
            x.year = Math.floor(k / 12);
            x.month = (k % 12) + 1;
            x.day = Math.min(x.day, g.daysIn(x.year, x.month));
            w = wallMs(x);
          } else w = m.w + d.n * 86400000 * (d.unit === "weeks" ? 7 : 1);
          if (c.z) {
            const at = instantsOf(c.z, w);
            if (at.length !== 1) return t.label("gap-or-overlap");
            ms = at[0];
          }
        }
        t.nontrivial(d.n !== 0);
        t.label(d.unit + (c.z ? (c.z.iana ? "/iana" : "/offset") : "/none"));
        const r = m.e.plus({ [d.unit]: d.n });
        u.ok(r instanceof ExifDateTime, what + " gave nothing");
        checkWall(r, w, c.frac != null, what);
        u.eq([r.zone, r.hasZone], [m.e.zone, m.e.hasZone], what + " zone");
        if (ms !== undefined) u.eq(r.toMillis(), ms, what + " instant");
        u.eq(snap(m.e), before, what + " modified the original");
        if (MS[d.unit]) u.eq(u.pick(r.plus({ [d.unit]: -d.n }), F), u.pick(m.e, F), what + " and back");
      },
    });

    await ctx.prop("matching-another-zone", {
      runs: [16000, 300000],
      arb: fc.record({ c: src, to: target, delta: fc.oneof(fc.integer({ min: -20 * 60000, max: 20 * 60000 }), fc.constantFrom(0, 14 * 60000, 14 * 60000 + 1, -14 * 60000, -14 * 60000 - 1)), mode: fc.constantFrom("instant", "wall", "far"), max: fc.constantFrom(undefined, undefined, 60000, 0), noZone: fc.boolean() }),
      check({ c, to, delta, mode, max, noZone }, t) {
        const m = make({ ...c, frac: c.frac ?? 0 });
        if (!m) return;
        if (c.z == null && mode === "instant") mode = "wall";
        const asLocal = instantsOf(to, m.w);
        if (asLocal.length !== 1) return t.label("gap-or-overlap");
        const base = mode === "instant" ? m.ms : mode === "wall" ? asLocal[0] : asLocal[0] + 5 * 86400000;
        const tms = base + delta;
        const off = offAt(to, tms);
        const x = g.wallFields(tms + off * 60000);
        const mss = (((tms + off * 60000) % 1000) + 1000) % 1000;
        if (to.iana && instantsOf(to, tms + off * 60000).length !== 1) return;
        const tgt = noZone && delta % 7 === 0
          ? new ExifDateTime(x.year, x.month, x.day, x.hour, x.minute, x.second, mss)
          : new ExifDateTime(x.year, x.month, x.day, x.hour, x.minute, x.second, mss, off, undefined, zname(to));
        const before = snap(m.e);
        const what = `${desc(c)} .maybeMatchZone(${tgt.toISOString()} ${tgt.zone}, ${max})`;
        const r = max === undefined ? m.e.maybeMatchZone(tgt) : m.e.maybeMatchZone(tgt, max);
        u.eq(snap(m.e), before, what + " modified the original");
        const lim = max ?? 14 * 60000;
        if (!tgt.hasZone) return void u.eq(r, undefined, what);
        t.nontrivial();
        const instOk = c.z != null && Math.abs(m.ms - tms) <= lim;
        const wallOk = Math.abs(asLocal[0] - tms) <= lim;
        t.label(instOk ? "same-instant" : wallOk ? "same-wall" : "no-match");
        if (c.z == null && !wallOk) {
          // the host zone may make a zoneless time close by accident; never decided
          return;
        }
        if (!instOk && !wallOk) return void u.eq(r, undefined, what);
        u.ok(r instanceof ExifDateTime, what + " gave nothing");
        u.eq(r.zone, zname(to), what + " zone");
        u.ok(Math.abs(r.toMillis() - tms) <= lim, what + ` is ${r.toMillis() - tms} ms from the target`);
        if (instOk) u.eq(r.toMillis(), m.ms, what + " keeps the instant");
        else if (c.z != null) u.eq(u.pick(r, F), u.pick(m.e, F), what + " keeps the local time");
      },
    });

    // Reading the same wall clock in another zone, in any order with the plain conversions.
    await ctx.prop("read-in-another-zone", {
      runs: [8000, 150000],
      arb: fc.record({ c: src, tos: fc.array(fc.oneof({ weight: 3, arbitrary: target }, { weight: 1, arbitrary: fc.constant(null) }), { minLength: 1, maxLength: 4 }) }),
      check({ c, tos }, t) {
        const m = make(c);
        if (!m) return;
        const before = snap(m.e);
        for (const to of tos) {
          const what = `${desc(c)} .toDateTime(${to ? zname(to) : ""}) after ${tos.map((x) => zname(x) ?? "-").join(", ")}`;
          if (to == null) {
            if (c.z) u.eq([m.e.toDateTime().toMillis(), m.e.toEpochSeconds(), m.e.toMillis()], [m.ms, Math.floor(m.ms / 1000), m.ms], what + " instant");
            continue;
          }
          const at = instantsOf(to, m.w);
          if (at.length !== 1) continue;
          t.nontrivial(zname(to) !== zname(c.z));
          const d = m.e.toDateTime(zname(to));
          u.eq([d.toMillis(), d.offset], [at[0], offAt(to, at[0])], what + " [instant, offset]");
          u.eq(u.pick(d, F), { ...u.pick(m.e, F), millisecond: m.e.millisecond ?? 0 }, what + " local time");
          u.eq(m.e.toEpochSeconds(zname(to)), Math.floor(at[0] / 1000), what + " toEpochSeconds");
        }
        u.eq(snap(m.e), before, "conversions modified the original");
      },
    });

    await ctx.prop("from-epoch", {
      runs: [8000, 150000],
      arb: fc.record({ ms: fc.integer({ min: Date.UTC(1975, 0, 1), max: Date.UTC(2036, 0, 1) }), z: zone, raw: fc.constantFrom(undefined, "raw") }),
      check({ ms, z, raw }, t) {
        t.nontrivial(z != null);
        const opts = {};
        if (z) opts.zone = zname(z);
        if (raw) opts.rawValue = raw;
        const frozen = JSON.stringify(opts);
        const e = ExifDateTime.fromMillis(ms, opts);
        u.eq(JSON.stringify(opts), frozen, "options");
        const zz = z ?? { iana: process.env.TZ };
        const w = ms + offAt(zz, ms) * 60000;
        checkWall(e, w, true, `fromMillis(${ms}, ${frozen})`);
        u.eq([e.zone, e.rawValue], [z ? zname(z) : undefined, raw], `fromMillis(${ms}, ${frozen}) zone, rawValue`);
        if (z && instantsOf(z, w).length === 1) {
          u.eq(e.toMillis(), ms, `fromMillis(${ms}, ${frozen}).toMillis()`);
          u.eq(e.toDate().getTime(), ms, "toDate");
          u.eq(e.toEpochSeconds(), Math.floor(ms / 1000), "toEpochSeconds");
        }
        const unset = { zone: ctx.lib.UnsetZone };
        const e2 = ExifDateTime.fromMillis(ms, unset);
        u.eq([e2.zone, unset.zone === ctx.lib.UnsetZone], [undefined, true], "fromMillis with the unset zone");
      },
    });
  },
};
