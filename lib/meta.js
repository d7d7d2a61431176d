"use strict";
// Generators of metadata as `exiftool -json` reports it.
const g = require("./gens");
const { fc } = g;

const CAPTURED = ["SubSecDateTimeOriginal", "SubSecCreateDate", "DateTimeOriginal", "CreateDate", "MediaCreateDate", "CreationDate", "DateTimeCreated"];
const DATETIME_TAGS = [...CAPTURED, "ModifyDate", "SubSecModifyDate", "FileModifyDate", "MediaModifyDate", "MetadataDate", "ProfileDateTime", "DigitalCreationDateTime"];
const UTC_TAGS = ["GPSDateTime", "DateTimeUTC"];

// A wall-clock time away from midnight, so that IANA zones never skip it.
const quietTime = fc.tuple(g.ymd, fc.integer({ min: 8, max: 20 }), fc.integer({ min: 0, max: 59 }), fc.integer({ min: 0, max: 59 })).map(([d, hour, minute, second]) => ({ ...d, year: 1990 + (d.year % 45), day: Math.min(d.day, 28), hour, minute, second }));
const textOf = (f, frac, off) => `${g.pad(f.year, 4)}:${g.pad(f.month, 2)}:${g.pad(f.day, 2)} ${g.pad(f.hour, 2)}:${g.pad(f.minute, 2)}:${g.pad(f.second, 2)}${frac ? "." + frac : ""}${off == null ? "" : off === 0 ? "Z" : g.offStr(off)}`;
const dateText = (f) => `${g.pad(f.year, 4)}:${g.pad(f.month, 2)}:${g.pad(f.day, 2)}`;
const timeText = (f) => `${g.pad(f.hour, 2)}:${g.pad(f.minute, 2)}:${g.pad(f.second, 2)}`;

module.exports = { CAPTURED, DATETIME_TAGS, UTC_TAGS, quietTime, textOf, dateText, timeText };
