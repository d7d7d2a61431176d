#!/usr/bin/env node
"use strict";
// A stand-in for `exiftool -stay_open True -@ -`: it speaks the same protocol,
// records every command it receives, and answers from control files. It never
// touches any file except its log and the control files in the scratch folder.
//
// Control file for a command: "<last path-like argument>.ctl", or "listx.ctl" (JSON):
//   { stdout, stderr, delayMs, act, attempts: [ {..}, .. ] }
//   stdoutB64: raw bytes instead of stdout
//   cuts: byte offsets at which the whole answer (with {ready}) is split into
//         separately flushed chunks
//   straySoon: { text, stderr, ms }: unsolicited output, once idle again
//   act: ok | exit (die before answering) | exitMid (partial answer, die)
//        | hang | garbage | stderrOnly
const fs = require("node:fs");
const path = require("node:path");
const LOG = process.env.FAKE_LOG;
const CTL_DIR = process.env.FAKE_CTL_DIR;
const START = JSON.parse(process.env.FAKE_START || "{}");

function writeAll(fd, s) {
  let buf = Buffer.isBuffer(s) ? s : Buffer.from(s, "utf8");
  while (buf.length > 0) {
    try {
      const n = fs.writeSync(fd, buf);
      buf = buf.subarray(n);
    } catch (e) {
      if (e.code === "EAGAIN") continue;
      if (e.code === "EPIPE") process.exit(0);
      throw e;
    }
  }
}
const log = (o) => {
  if (LOG) fs.appendFileSync(LOG, JSON.stringify({ pid: process.pid, ...o }) + "\n");
};
log({ start: true, argv: process.argv.slice(2), env: process.env.FAKE_LOG_ENV ? process.env : undefined });
process.on("exit", () => log({ end: true }));
if (START.ignoreTerm) process.on("SIGTERM", () => {});

let buf = "";
let args = [];
const queue = [];
let busy = false;
let stayOpen = false;

function ctlFor(a) {
  if (CTL_DIR && a.includes("-listx")) a = [path.join(CTL_DIR, "listx")];
  for (let i = a.length - 1; i >= 0; i--) {
    if (CTL_DIR && a[i].startsWith(CTL_DIR + path.sep)) {
      const f = a[i] + ".ctl";
      try {
        const c = JSON.parse(fs.readFileSync(f, "utf8"));
        if (!c.attempts) return c;
        const nf = a[i] + ".n";
        let n = 0;
        try {
          n = parseInt(fs.readFileSync(nf, "utf8"), 10);
        } catch {}
        fs.writeFileSync(nf, String(n + 1));
        return { ...c, ...c.attempts[Math.min(n, c.attempts.length - 1)] };
      } catch (e) {
        if (!["ENOENT", "ENAMETOOLONG", "ENOTDIR"].includes(e.code)) throw e;
        return {};
      }
    }
  }
  return {};
}

function defaultOut(a) {
  if (a.includes("-ver")) return "13.59\n";
  if (a.includes("-json")) return JSON.stringify([{ SourceFile: a.filter((x) => x.startsWith("/")).pop() }]);
  if (a.includes("-W") || a.includes("-W!")) return "    1 output files created\n";
  if (a.includes("-out")) return "    1 image files created\n";
  return "    1 image files updated\n";
}

function run(a) {
  busy = true;
  log({ cmd: a });
  if (a.length === 1 && a[0] === "-ver" && START.muteVer) return; // never starts up
  if (a.length === 1 && a[0] === "-ver" && !START.slowVer) {
    writeAll(1, "13.59\n{ready}\n");
    busy = false;
    return next();
  }
  const c = ctlFor(a);
  const go = () => {
    const act = c.act || "ok";
    if (act === "hang") return; // never answers
    if (act === "exit") process.exit(c.code ?? 1);
    if (c.stderr) writeAll(2, c.stderr);
    const out = c.stdout ?? defaultOut(a);
    if (act === "exitMid") {
      writeAll(1, out.slice(0, Math.floor(out.length / 2)));
      process.exit(c.code ?? 1);
    }
    if (act === "exitAfter") {
      writeAll(1, out + (out.endsWith("\n") ? "" : "\n") + "{ready}\n");
      process.exit(c.code ?? 0);
    }
    const all = c.stdoutB64 != null ? Buffer.concat([Buffer.from(c.stdoutB64, "base64"), Buffer.from("{ready}\n")]) : Buffer.from(out + (out.endsWith("\n") ? "" : "\n") + "{ready}\n", "utf8");
    const cuts = [...new Set((c.cuts || []).map((x) => x % all.length))].filter((x) => x > 0).sort((a, b) => a - b);
    const parts = [0, ...cuts].map((x, i, a) => all.subarray(x, i + 1 < a.length ? a[i + 1] : all.length));
    const emit = (i) => {
      if (START.logDone && i + 1 === parts.length) log({ done: true });
      writeAll(1, parts[i]);
      if (i + 1 < parts.length) return void setTimeout(emit, c.chunkMs ?? 1, i + 1);
      busy = false;
      if (c.straySoon) setTimeout(() => !busy && writeAll(c.straySoon.stderr ? 2 : 1, c.straySoon.text), c.straySoon.ms);
      next();
    };
    emit(0);
  };
  if (c.delayMs > 0) setTimeout(go, c.delayMs);
  else go();
}
function next() {
  if (!busy && queue.length) {
    const q = queue.shift();
    if (q === "EXIT") {
      if (START.ignoreExit) return next();
      process.exit(0);
    }
    run(q);
  }
}
process.stdin.setEncoding("utf8");
process.stdin.on("data", (d) => {
  buf += d;
  let i;
  while ((i = buf.indexOf("\n")) >= 0) {
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    if (stayOpen) {
      stayOpen = false;
      if (/^(0|false)$/i.test(line)) queue.push("EXIT");
      continue;
    }
    if (line === "-stay_open") {
      stayOpen = true;
      continue;
    }
    if (line === "-execute") {
      queue.push(args);
      args = [];
      continue;
    }
    args.push(line);
  }
  next();
});
process.stdin.on("end", () => {
  if (!START.ignoreExit) process.exit(0);
});
