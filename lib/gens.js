"use strict";
// Shared generators. Everything random comes from fast-check.
const fc = require("fast-check");

const pad = (n, w) => String(n).padStart(w, "0");
const daysIn = (y, m) => new Date(Date.UTC(2000, 0, 1)) && [31, (y % 4 === 0 && y % 100 !== 0) || y % 400 === 0 ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1];

// Valid proleptic-Gregorian calendar date, biased to month ends and leap days.
const year = fc.oneof(
  { weight: 6, arbitrary: fc.integer({ min: 1970, max: 2060 }) },
  { weight: 2, arbitrary: fc.integer({ min: 1000, max: 9999 }) },
  { weight: 1, arbitrary: fc.constantFrom(1600, 1800, 1900, 1999, 2000, 2024, 2100, 2400) },
);
const ymd = fc
  .tuple(year, fc.integer({ min: 1, max: 12 }), fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 1, max: 31 }) }, { weight: 1, arbitrary: fc.constant(31) }))
  .map(([y, m, d]) => ({ year: y, month: m, day: Math.min(d, daysIn(y, m)) }));
const hms = fc.record({
  hour: fc.integer({ min: 0, max: 23 }),
  minute: fc.integer({ min: 0, max: 59 }),
  second: fc.integer({ min: 0, max: 59 }),
});
const dt = fc.tuple(ymd, hms).map(([a, b]) => ({ ...a, ...b }));
const fraction = fc.oneof(
  { weight: 2, arbitrary: fc.constant(null) },
  { weight: 3, arbitrary: fc.integer({ min: 0, max: 999 }).map((i) => pad(i, 3)) },
  { weight: 1, arbitrary: fc.integer({ min: 0, max: 99 }).map((i) => pad(i, 2)) },
  { weight: 1, arbitrary: fc.integer({ min: 0, max: 9 }).map((i) => String(i)) },
  { weight: 1, arbitrary: fc.integer({ min: 0, max: 999999 }).map((i) => pad(i, 6)) },
);
const fracMs = (f) => (f == null ? undefined : parseInt((f + "000").slice(0, 3), 10));

// The offsets in current civil use that the library documents as recognised,
// written out independently of the code under test (minutes east of UTC).
const OFFSETS = [
  -660, -600, -570, -540, -510, -480, -420, -360, -300, -240, -210, -180, -150, -120, -60, 0, 60, 120, 180, 210, 240,
  270, 300, 330, 345, 360, 390, 420, 480, 510, 525, 540, 570, 585, 600, 630, 660, 720, 765, 780, 825, 840,
];
const ARCHAIC = [-630, -270, -44, -(25 + 21 / 60), 20, 30, 84, 90, 150, 291, 340, 440, 450];

const offsetMin = fc.constantFrom(...OFFSETS);
const zoneName = (o) => {
  if (o === 0) return "UTC";
  const a = Math.abs(o);
  return "UTC" + (o < 0 ? "-" : "+") + Math.floor(a / 60) + (a % 60 ? ":" + pad(a % 60, 2) : "");
};
const offStr = (o, colon = true) => {
  const a = Math.abs(o);
  return (o < 0 ? "-" : "+") + pad(Math.floor(a / 60), 2) + (colon ? ":" : "") + pad(a % 60, 2);
};
// Ways of writing an offset at the end of a timestamp.
const OFFSET_STYLES = ["+HH:MM", "+HHMM", "UTC+HH:MM", "UTC+H", "+HH", "+H", "\u2212HH:MM", "Z"];
function writeOffset(o, style) {
  const s = o < 0 ? "-" : "+";
  const h = Math.floor(Math.abs(o) / 60);
  const m = Math.abs(o) % 60;
  const hasM = m !== 0;
  switch (style) {
    case "+HHMM":
      return offStr(o, false);
    case "UTC+HH:MM":
      return "UTC" + offStr(o);
    case "UTC+H":
      return "UTC" + s + h + (hasM ? ":" + pad(m, 2) : "");
    case "+HH":
      return s + pad(h, 2) + (hasM ? ":" + pad(m, 2) : "");
    case "+H":
      return s + h + (hasM ? ":" + pad(m, 2) : "");
    case "\u2212HH:MM":
      return offStr(o).replace("-", "\u2212");
    case "Z":
      return o === 0 ? "Z" : offStr(o);
    default:
      return offStr(o);
  }
}

const IANA = [
  "America/Los_Angeles", "America/New_York", "America/Sao_Paulo", "America/St_Johns", "Europe/London", "Europe/Paris",
  "Europe/Moscow", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Tokyo", "Asia/Shanghai", "Australia/Sydney",
  "Australia/Adelaide", "Pacific/Auckland", "Pacific/Chatham", "Pacific/Honolulu", "Africa/Johannesburg",
  "America/Argentina/Buenos_Aires", "America/Indiana/Knox",
];
const iana = fc.constantFrom(...IANA);

const instant = (f, offsetMinutes) => {
  const d = new Date(0);
  d.setUTCFullYear(f.year, f.month - 1, f.day);
  d.setUTCHours(f.hour, f.minute, f.second, f.millisecond ?? 0);
  return d.getTime() - offsetMinutes * 60000;
};

// Wall-clock fields inside (gap) or doubled by (overlap) a zone's DST changes.
function transitions(DateTime, zone, fromYear = 1971, toYear = 2036) {
  const gaps = [];
  const overlaps = [];
  for (let y = fromYear; y <= toYear; y++) {
    let prev = DateTime.fromObject({ year: y, month: 1, day: 1 }, { zone: "UTC" });
    for (let d = 0; d < 366; d++) {
      const next = prev.plus({ hours: 24 });
      const a = prev.setZone(zone).offset;
      const b = next.setZone(zone).offset;
      if (a !== b) {
        let lo = prev.toMillis();
        let hi = next.toMillis();
        while (hi - lo > 1000) {
          const mid = Math.floor((lo + hi) / 2000) * 1000;
          if (mid === lo) break;
          if (DateTime.fromMillis(mid, { zone }).offset === a) lo = mid;
          else hi = mid;
        }
        // hi: first instant with the new offset
        const wallOld = hi + a * 60000;
        (b > a ? gaps : overlaps).push({ start: Math.min(wallOld, hi + b * 60000), len: Math.abs(b - a) * 60 });
      }
      prev = next;
    }
  }
  return { gaps, overlaps };
}
const wallFields = (ms) => {
  const d = new Date(ms);
  return { year: d.getUTCFullYear(), month: d.getUTCMonth() + 1, day: d.getUTCDate(), hour: d.getUTCHours(), minute: d.getUTCMinutes(), second: d.getUTCSeconds() };
};
// Fields in a window around the zone's transitions (inside gaps about half the time).
function nearTransition(DateTime, zone) {
  const { gaps, overlaps } = transitions(DateTime, zone);
  const all = [...gaps, ...gaps, ...overlaps];
  if (all.length === 0) return dt;
  return fc.tuple(fc.constantFrom(...all), fc.integer({ min: -1800, max: 5400 })).map(([w, s]) => wallFields(w.start + Math.min(s, w.len + 1800) * 1000));
}

module.exports = {
  transitions, nearTransition, wallFields,
  fc, pad, daysIn, year, ymd, hms, dt, fraction, fracMs, OFFSETS, ARCHAIC, offsetMin, zoneName, offStr, OFFSET_STYLES,
  writeOffset, IANA, iana, instant,
};
