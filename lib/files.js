"use strict";
// Small image files built byte by byte.
const seg = (marker, body) => {
  const h = Buffer.alloc(4);
  h[0] = 0xff;
  h[1] = marker;
  h.writeUInt16BE(body.length + 2, 2);
  return Buffer.concat([h, body]);
};
/**
 * A TIFF stream. ifds: { ifd0, ifd1?, sub? }, each a list of [tag, type, value]
 * with type 2 (ascii), 3 (short), 4 (long) or 7 (bytes); a value that is
 * { data } is a pointer to that buffer, { ifd } a pointer to that IFD.
 */
function tiff(ifds, big = false) {
  const w16 = (b, v, o) => (big ? b.writeUInt16BE(v, o) : b.writeUInt16LE(v, o));
  const w32 = (b, v, o) => (big ? b.writeUInt32BE(v, o) : b.writeUInt32LE(v, o));
  const names = Object.keys(ifds).filter((k) => ifds[k]);
  const at = {};
  let off = 8;
  for (const k of names) {
    at[k] = off;
    off += 2 + ifds[k].length * 12 + 4;
  }
  const blobs = [];
  const place = (buf) => {
    const p = off;
    const padded = buf.length % 2 ? Buffer.concat([buf, Buffer.alloc(1)]) : buf;
    blobs.push(padded);
    off += padded.length;
    return p;
  };
  const head = Buffer.alloc(8);
  head.write(big ? "MM" : "II", 0, "latin1");
  w16(head, 42, 2);
  w32(head, 8, 4);
  const parts = [head];
  for (const k of names) {
    const entries = [...ifds[k]].sort((a, b) => a[0] - b[0]);
    const b = Buffer.alloc(2 + entries.length * 12 + 4);
    w16(b, entries.length, 0);
    entries.forEach(([tag, type, value], i) => {
      const p = 2 + i * 12;
      w16(b, tag, p);
      w16(b, type, p + 2);
      if (type === 2 || type === 7) {
        const v = type === 2 ? Buffer.from([...Buffer.from(value), 0]) : value;
        w32(b, v.length, p + 4);
        if (v.length <= 4) v.copy(b, p + 8);
        else w32(b, place(v), p + 8);
      } else {
        w32(b, 1, p + 4);
        if (value && value.data) w32(b, place(value.data), p + 8);
        else if (value && value.ifd) w32(b, at[value.ifd], p + 8);
        else if (type === 3) w16(b, value, p + 8);
        else w32(b, value, p + 8);
      }
    });
    if (k === "ifd0" && ifds.ifd1) w32(b, at.ifd1, b.length - 4);
    parts.push(b);
  }
  return Buffer.concat([...parts, ...blobs]);
}
const app1 = (t) => seg(0xe1, Buffer.concat([Buffer.from("Exif\0\0", "latin1"), t]));
/** jpeg with extra segments put right after SOI */
const jpegWith = (jpeg, ...segs) => Buffer.concat([jpeg.subarray(0, 2), ...segs, jpeg.subarray(2)]);
module.exports = { seg, tiff, app1, jpegWith };
