"use strict";
// Runs in a thread beside a search worker. If the library keeps the main
// thread busy without end, the worker can no longer say so itself.
const fs = require("node:fs");
const { workerData } = require("node:worker_threads");
const beat = new Int32Array(workerData.beat);
const cpu = () => {
  const c = process.cpuUsage();
  return (c.user + c.system) / 1e6;
};
let last = Atomics.load(beat, 0);
let since = cpu();
setInterval(() => {
  const now = Atomics.load(beat, 0);
  if (now !== last) {
    last = now;
    since = cpu();
  } else if (cpu() - since > workerData.limit) {
    fs.writeFileSync(workerData.file, String(Math.round(cpu() - since)));
    process.kill(process.pid, "SIGKILL");
  }
}, 500);
