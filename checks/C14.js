"use strict";
const g = require("../lib/gens");
const { fc } = g;

// GPS coordinates as `read` returns them, over a stand-in child that answers
// with generated metadata JSON.
module.exports = {
  id: "C14",
  level: "exploration",
  quickScale: 2.5,
  shards: 8,
  rule:
    "A true (latitude, longitude) is generated, then encoded as ExifTool could report it (number, numeric string, deg/min/sec, deg/min or decimal-degree text, unsigned value plus hemisphere ref, GPSPosition only), optionally with wrong/contradicting refs, a GeolocationPosition (near, mirrored, far, other side of the equator or meridian) and unrelated GPS tags. Oracle: the generated position and a small sign model. Non-trivial: the case has a ref, a textual form, a GPSPosition fallback, a GeolocationPosition or an invalid coordinate.",
  assumptions: ["the fake child's JSON stands for ExifTool's output", "cases within 1e-3 degrees of the 1-degree proximity threshold are not generated"],
  async run(ctx) {
    const u = ctx.u;
    const fakes = {};
    for (const iz of [true, false])
      for (const G of [false, true])
        fakes[`${iz}${G}`] = u.fake({ ignoreZeroZeroLatLon: iz, readArgs: G ? ["-fast", "-G"] : ["-fast"], geoTz: () => undefined });

    // magnitudes biased to <1 degree, poles, antimeridian, exact integers
    const mag = (max) =>
      fc.oneof(
        { weight: 4, arbitrary: fc.integer({ min: 0, max: max * 1e6 }).map((i) => i / 1e6) },
        { weight: 3, arbitrary: fc.integer({ min: 1, max: 999999 }).map((i) => i / 1e6) },
        { weight: 1, arbitrary: fc.integer({ min: 0, max }) },
        { weight: 1, arbitrary: fc.constantFrom(max, 0, 1e-6, max - 1e-6) },
      );
    const FORMS = ["number", "numeric-text", "dms", "dms-deg", "dms-prime", "dm", "d", "d-deg"];
    const coord = (max) => fc.record({ m: mag(max), neg: fc.boolean(), form: fc.constantFrom(...FORMS), how: fc.constantFrom("sign", "letter", "ref"), lc: fc.boolean() });
    const fmt = (x) => String(Math.round(x * 1e6) / 1e6).replace(/^(\d+)e-(\d+)$/, (m) => Number(m).toFixed(6));
    // Encode magnitude m in a layout; returns text and the exact magnitude it denotes.
    const layout = (m, form) => {
      if (form === "number" || form === "numeric-text") return { txt: fmt(m), mag: Number(fmt(m)) };
      const d = Math.floor(m);
      const min = (m - d) * 60;
      switch (form) {
        case "dms":
        case "dms-deg":
        case "dms-prime": {
          let mi = Math.floor(min);
          let sec = Math.min(59.99, Math.round((min - mi) * 60 * 100) / 100);
          if (d === 90 || d === 180) mi = sec = 0;
          const txt = form === "dms" ? `${d}° ${mi}' ${sec.toFixed(2)}"` : form === "dms-deg" ? `${d} deg ${mi}' ${sec.toFixed(2)}"` : `${d}° ${mi}′ ${sec}″`;
          return { txt, mag: d + mi / 60 + sec / 3600 };
        }
        case "dm": {
          const mm = Math.min(59.9999, Math.round(min * 1e4) / 1e4);
          return { txt: `${d}° ${mm.toFixed(4)}'`, mag: d + mm / 60 };
        }
        case "d":
          return { txt: `${m.toFixed(5)}°`, mag: Number(m.toFixed(5)) };
        default:
          return { txt: `${m.toFixed(6)} deg`, mag: Number(m.toFixed(6)) };
      }
    };
    const L = { lat: ["N", "S", "North", "South"], lon: ["E", "W", "East", "West"] };
    const refText = (axis, neg, style) => {
      const s = L[axis][(style === "long" || style === "mixed" ? 2 : 0) + (neg ? 1 : 0)];
      return style === "lower" ? s.toLowerCase() : style === "pad" ? " " + s + " " : style === "mixed" ? s.toUpperCase() : s;
    };
    const refStyle = fc.constantFrom("short", "long", "lower", "pad", "mixed");
    // -> { value: what ExifTool reports, ref, signed: value denoted before ref/geo processing }
    const encode = (c, axis, style) => {
      let { txt, mag: m } = layout(c.m, c.form);
      let how = c.how;
      if (how === "letter" && (c.form === "number" || c.form === "numeric-text")) how = "sign";
      let ref;
      let signed = m;
      if (how === "ref") ref = refText(axis, c.neg, style);
      else if (c.neg) {
        signed = -m;
        if (how === "sign") txt = "-" + txt;
      }
      if (how === "letter") txt += " " + (c.lc ? L[axis][c.neg ? 1 : 0].toLowerCase() : L[axis][c.neg ? 1 : 0]);
      return { value: c.form === "number" ? Number(txt) : txt, ref, signed, final: c.neg ? -m : m };
    };
    const key = (G, k) => (G ? (k.startsWith("Geo") ? "ExifTool:" : "EXIF:") + k : k);
    const close = (a, b) => typeof a === "number" && Math.abs(a - b) <= 6e-7;
    const read = async (iz, G, tags) => {
      const f = fakes[`${iz}${G}`];
      const o = {};
      for (const [k, v] of Object.entries(tags)) if (v !== undefined) o[key(G, k)] = v;
      const file = f.tagsFile(o);
      const r = await u.settles(f.et.read(file), "read");
      if (!r.ok) ctx.fail(`read of ${u.show(o)} rejected: ${r.error}`);
      return r.value;
    };
    const expectPos = (t, G, lat, lon, tags) => {
      const what = `read of ${u.show(tags)}${G ? " with -G" : ""}`;
      u.ok(close(t.GPSLatitude, lat), () => `${what}: GPSLatitude ${u.show(t.GPSLatitude)}, expected ${lat}`);
      u.ok(close(t.GPSLongitude, lon), () => `${what}: GPSLongitude ${u.show(t.GPSLongitude)}, expected ${lon}`);
      u.ok(Math.abs(t.GPSLatitude) <= 90 && Math.abs(t.GPSLongitude) <= 180, `${what}: out of range`);
      if (Math.abs(lat) > 1e-6) u.eq(t.GPSLatitudeRef, lat < 0 ? "S" : "N", `${what}: GPSLatitudeRef`);
      if (Math.abs(lon) > 1e-6) u.eq(t.GPSLongitudeRef, lon < 0 ? "W" : "E", `${what}: GPSLongitudeRef`);
      u.ok(t.GPSLatitudeRef === (t.GPSLatitude < 0 ? "S" : "N") && t.GPSLongitudeRef === (t.GPSLongitude < 0 ? "W" : "E"), `${what}: refs agree with signs`);
      if (G)
        for (const k of ["GPSLatitude", "GPSLongitude", "GPSLatitudeRef", "GPSLongitudeRef"])
          if (tags[k] != null) u.eq(t[key(G, k)], t[k], `${what}: ${key(G, k)}`);
      for (const d of [t.GPSLatitude, t.GPSLongitude]) u.ok(Math.abs(d * 1e6 - Math.round(d * 1e6)) < 1e-3, `${what}: ${d} rounded to 6 decimals`);
    };
    const nonzero = (a, b) => Math.abs(a) > 1e-5 || Math.abs(b) > 1e-5;
    const modes = { iz: fc.boolean(), G: fc.integer({ min: 0, max: 3 }).map((i) => i === 0), style: refStyle };

    await ctx.prop("encodings", {
      runs: [6000, 120000],
      arb: fc.record({ lat: coord(90), lon: coord(180), alt: fc.option(fc.integer({ min: -400, max: 8000 }), { nil: undefined }), ...modes }),
      async check({ lat, lon, alt, iz, G, style }, t) {
        const a = encode(lat, "lat", style);
        const b = encode(lon, "lon", style);
        t.nontrivial(typeof a.value === "string" || typeof b.value === "string" || a.ref != null || b.ref != null);
        t.label("form:" + lat.form);
        t.label("sign by " + lat.how);
        if (lat.m < 1) t.label("latitude within 1 degree of the equator");
        const tags = { GPSLatitude: a.value, GPSLongitude: b.value, GPSLatitudeRef: a.ref, GPSLongitudeRef: b.ref, GPSAltitude: alt };
        if (iz && !nonzero(a.final, b.final)) return t.label("near zero/zero (skipped)");
        const r = await read(iz, G, tags);
        expectPos(r, G, a.final, b.final, tags);
        u.eq(r[key(G, "GPSAltitude")], alt, "GPSAltitude is kept");
      },
    });

    await ctx.prop("position-fallback", {
      runs: [3000, 60000],
      arb: fc.record({ lat: coord(90), lon: coord(180), have: fc.constantFrom("none", "lat", "lon", "junk"), sep: fc.constantFrom(", ", " ", ","), ...modes }),
      async check({ lat, lon, have, sep, iz, G, style }, t) {
        t.nontrivial();
        const form = ["number", "numeric-text"].includes(lat.form) ? "number" : lat.form;
        const a = encode({ ...lat, form, how: form === "number" ? "sign" : "letter" }, "lat", style);
        const b = encode({ ...lon, form, how: form === "number" ? "sign" : "letter" }, "lon", style);
        if (/e-/.test(String(a.value) + b.value)) return t.label("exponent form (skipped)");
        const pos = String(a.value) + sep + String(b.value);
        const tags = { GPSPosition: pos };
        if (have === "lat") tags.GPSLatitude = a.final;
        if (have === "lon") tags.GPSLongitude = b.final;
        if (have === "junk") tags.GPSLatitude = "undecipherable";
        t.label("position:" + form + " have:" + have);
        if (iz && !nonzero(a.final, b.final)) return t.label("near zero/zero (skipped)");
        const r = await read(iz, G, tags);
        expectPos(r, G, a.final, b.final, tags);
        u.eq(r[key(G, "GPSPosition")], pos, "GPSPosition is kept");
      },
    });

    await ctx.prop("refs-and-geolocation", {
      runs: [6000, 120000],
      arb: fc.record({
        lat: coord(90),
        lon: coord(180),
        refs: fc.tuple(fc.constantFrom("none", "pos", "neg", "junk"), fc.constantFrom("none", "pos", "neg", "junk")),
        geo: fc.tuple(fc.constantFrom("near", "mirror", "far", "across", "zero"), fc.constantFrom("near", "mirror", "far", "across", "zero"), fc.integer({ min: -9000, max: 9000 }), fc.integer({ min: -9000, max: 9000 })),
        hasGeo: fc.boolean(),
        ...modes,
      }),
      async check({ lat, lon, refs, geo, hasGeo, iz, G, style }, t) {
        t.nontrivial(hasGeo || refs.some((r) => r !== "none"));
        const model = (c, axis, max, ref, kind, jitter) => {
          const m = Number(fmt(c.m));
          let v = c.neg ? -m : m;
          const value = v;
          const refTxt = ref === "none" ? undefined : ref === "junk" ? "Q" : refText(axis, ref === "neg", style);
          if (ref === "neg") v = -m;
          let gv;
          if (hasGeo) {
            const j = jitter / 10000;
            gv = kind === "near" ? v + j : kind === "mirror" ? -v + j : kind === "far" ? (v > 0 ? v - 40 : v + 40) : kind === "across" ? -Math.sign(v || 1) * Math.abs(j) * 0.5 : 0;
            gv = Math.round(Math.max(-max, Math.min(max, gv)) * 1e4) / 1e4;
            const dm = Math.abs(Math.abs(gv) - Math.abs(v));
            const dd = Math.abs(gv - v);
            if (Math.abs(dm - 1) < 1e-3 || Math.abs(dd - 1) < 1e-3) return null;
            if (dm < 1 && dd >= 1) {
              v = -v;
              t.label("sign corrected by GeolocationPosition");
            } else if (gv * v < 0 && dd < 1) t.label("nearest city across the equator/meridian");
          }
          return { value, refTxt, gv, v };
        };
        const a = model(lat, "lat", 90, refs[0], geo[0], geo[2]);
        const b = model(lon, "lon", 180, refs[1], geo[1], geo[3]);
        if (a == null || b == null) return t.label("at the proximity threshold (skipped)");
        if (iz && !nonzero(a.value, b.value)) return t.label("near zero/zero (skipped)");
        const tags = { GPSLatitude: a.value, GPSLongitude: b.value, GPSLatitudeRef: a.refTxt, GPSLongitudeRef: b.refTxt };
        if (hasGeo) {
          const n = (x) => x.toFixed(4);
          tags.GeolocationPosition = `${n(a.gv)}, ${n(b.gv)}`;
          tags.GeolocationCity = "Somewhere";
        }
        const r = await read(iz, G, tags);
        expectPos(r, G, a.v, b.v, tags);
        if (hasGeo) u.eq(r[key(G, "GeolocationCity")], "Somewhere", "GeolocationCity is kept");
        u.eq(r.warnings.some((w) => /Invalid GPS\w+Ref/.test(w)), refs.includes("junk"), "a warning reports an invalid ref");
        // feeding the result back in is a fixed point
        const again = { GPSLatitude: r.GPSLatitude, GPSLongitude: r.GPSLongitude, GPSLatitudeRef: r.GPSLatitudeRef, GPSLongitudeRef: r.GPSLongitudeRef };
        if (iz && r.GPSLatitude === 0 && r.GPSLongitude === 0) return;
        const r2 = await read(iz, false, again);
        u.eq(u.pick(r2, Object.keys(again)), again, "normalising twice");
        u.eq(r2.warnings, [], "normalised coordinates need no warnings");
      },
    });

    await ctx.prop("untrusted-gps-is-dropped", {
      runs: [2000, 30000],
      arb: fc.record({
        lat: coord(90),
        lon: coord(180),
        bad: fc.constantFrom("zero", "lat", "lon", "both"),
        over: fc.integer({ min: 1, max: 3000000 }).map((i) => i / 1e4),
        neg: fc.boolean(),
        G: modes.G,
        iz: fc.boolean(),
        text: fc.boolean(),
      }),
      async check({ lat, lon, bad, over, neg, G, iz, text }, t) {
        t.nontrivial();
        t.label("invalid:" + bad);
        const s = neg ? -1 : 1;
        let la = Number(fmt(lat.m));
        let lo = Number(fmt(lon.m));
        if (bad === "zero") la = lo = 0;
        if (bad === "lat" || bad === "both") la = s * (90 + over);
        if (bad === "lon" || bad === "both") lo = s * (180 + over);
        const str = (x) => (text && !/e-/.test(String(x)) ? String(x) : x);
        const tags = {
          GPSLatitude: str(la), GPSLongitude: str(lo), GPSLatitudeRef: "N", GPSAltitude: 12, GPSDateStamp: "2020:01:02", GPSPosition: `${la} ${lo}`,
          GeolocationCity: "Null Island", GeolocationTimeZone: "Africa/Accra", Make: "Acme",
        };
        const r = await read(iz, G, tags);
        u.eq(r[key(G, "Make")], "Acme", "unrelated tags are kept");
        const left = Object.keys(r).filter((k) => /^(\w+:)?(GPS|Geolocation)/.test(k));
        if (bad === "zero" && !iz) {
          u.eq([r.GPSLatitude, r.GPSLongitude], [0, 0], "0,0 is kept when ignoreZeroZeroLatLon is false");
        } else {
          u.eq(left, [], `GPS tags left after invalid coordinates ${la},${lo}`);
          u.eq(r.zone, undefined, "no zone is inferred from untrusted GPS");
          u.ok(r.warnings.length > 0, "a warning says why GPS tags are missing");
        }
      },
    });

    await ctx.prop("incomplete-or-unreadable", {
      runs: [2000, 30000],
      arb: fc.record({
        axis: fc.constantFrom("GPSLatitude", "GPSLongitude"),
        v: fc.oneof(fc.double({ min: -80, max: 80, noNaN: true }).map((d) => Math.round(d * 1e6) / 1e6 + 0), fc.string({ unit: "grapheme", maxLength: 12 })),
        pos: fc.option(fc.string({ maxLength: 14 }), { nil: undefined }),
        G: modes.G,
      }),
      async check({ axis, v, pos, G }, t) {
        t.nontrivial();
        // One axis only and a random GPSPosition text: never an exception, never a made-up position.
        const tags = { [axis]: v, GPSPosition: pos, Make: "Acme" };
        const r = await read(true, G, tags);
        u.eq(r[key(G, "Make")], "Acme", "unrelated tags are kept");
        const both = typeof r.GPSLatitude === "number" && typeof r.GPSLongitude === "number";
        if (both) {
          t.label("random position parsed");
          u.ok(Math.abs(r.GPSLatitude) <= 90 && Math.abs(r.GPSLongitude) <= 180, `position in range: ${u.show(r)}`);
        } else if (typeof v === "number" && !(pos && /\d/.test(pos))) {
          u.eq(r[key(G, axis)], v, `lone ${axis} is returned unchanged`);
        }
      },
    });
    for (const f of Object.values(fakes)) await f.end();
  },
};
