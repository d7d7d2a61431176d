"use strict";
const util = require("node:util");
module.exports = (ctx) => {
  const show = (x) => util.inspect(x, { depth: 8, breakLength: 160, compact: true, maxStringLength: 600, maxArrayLength: 60 });
  const u = {
    show,
    eq(actual, expected, what) {
      if (!util.isDeepStrictEqual(actual, expected)) ctx.fail(`${what}: got ${show(actual)}, expected ${show(expected)}`);
    },
    ok(cond, what) {
      if (!cond) ctx.fail(typeof what === "function" ? what() : what);
    },
    pick(o, keys) {
      return Object.fromEntries(keys.map((k) => [k, o[k]]));
    },
    // A promise that must settle; the generous bound only catches a real hang.
    async settles(p, what, ms = 120000) {
      let timer;
      const hang = new Promise((resolve) => {
        timer = setTimeout(() => resolve("hang"), ms);
      });
      try {
        const r = await Promise.race([
          Promise.resolve(p).then(
            (value) => ({ ok: true, value }),
            (error) => ({ ok: false, error }),
          ),
          hang,
        ]);
        if (r === "hang") ctx.fail(`${what} did not settle within ${ms} ms`);
        return r;
      } finally {
        clearTimeout(timer);
      }
    },
  };
  const fs = require("node:fs");
  const path = require("node:path");
  const cp = require("node:child_process");
  let seq = 0;
  /**
   * An ExifTool instance over lib/fake-exiftool.js. Commands it received are in
   * fake.commands(); fake.file(ctl) makes a path whose command is answered by ctl.
   */
  u.fake = (options = {}, start = {}) => {
    const dir = path.join(ctx.scratch, "fake" + ++seq);
    fs.mkdirSync(dir);
    const log = path.join(dir, "log");
    fs.writeFileSync(log, "");
    const env = { PATH: process.env.PATH, LANG: "C", FAKE_LOG: log, FAKE_CTL_DIR: dir, FAKE_START: JSON.stringify(start) };
    const children = [];
    const et = new ctx.lib.ExifTool({
      maxProcs: 1,
      maxTasksPerProcess: 1000000,
      maxProcAgeMillis: 0,
      taskRetries: 0,
      checkPerl: false,
      onIdleIntervalMillis: 0,
      healthCheckIntervalMillis: 0,
      streamFlushMillis: 2,
      taskTimeoutMillis: 120000,
      spawnTimeoutMillis: 120000,
      processFactory: () => {
        const c = cp.spawn(process.execPath, [path.join(__dirname, "fake-exiftool.js")], { stdio: "pipe", env });
        children.push(c);
        return c;
      },
      ...options,
    });
    let pos = 0;
    let n = 0;
    const f = {
      et,
      dir,
      env,
      children,
      /** Records appended to the log since the last call. */
      records() {
        const all = fs.readFileSync(log, "utf8");
        const fresh = all.slice(pos);
        pos = all.length;
        return fresh.split("\n").filter(Boolean).map((l) => JSON.parse(l));
      },
      /** Commands (argument arrays) since the last call, without version probes. */
      commands() {
        return f.records().filter((r) => r.cmd && !(r.cmd.length === 1 && r.cmd[0] === "-ver")).map((r) => r.cmd);
      },
      file(ctl, name) {
        const p = path.join(dir, name ?? "f" + ++n);
        if (ctl) fs.writeFileSync(p + ".ctl", JSON.stringify(ctl));
        return p;
      },
      /** A fixed path whose next answer is the JSON for these tags. */
      tagsFile(tags, extra = {}) {
        const p = path.join(dir, "img.jpg");
        fs.writeFileSync(p + ".ctl", JSON.stringify({ stdout: JSON.stringify([{ SourceFile: p, ...tags }]), ...extra }));
        return p;
      },
      async end() {
        await et.end().catch(() => {});
        for (const c of children) try { c.kill("SIGKILL"); } catch {}
        fs.rmSync(dir, { recursive: true, force: true });
      },
    };
    return f;
  };
  /** An ExifTool instance over the real, vendored exiftool. */
  u.real = (options = {}) => new ctx.lib.ExifTool({ maxProcs: 1, maxTasksPerProcess: 1000000, maxProcAgeMillis: 0, taskRetries: 0, taskTimeoutMillis: 120000, spawnTimeoutMillis: 120000, onIdleIntervalMillis: 0, healthCheckIntervalMillis: 0, ...options });
  // A 1x1 grey JPEG, an RGBA PNG, and an empty XMP sidecar.
  u.JPEG = Buffer.from(
    "/9j/4AAQSkZJRgABAQEASABIAAD/2wBDAAMCAgICAgMCAgIDAwMDBAYEBAQEBAgGBgUGCQgKCgkICQkKDA8MCgsOCwkJDRENDg8QEBEQCgwSExIQEw8QEBD/wAALCAABAAEBAREA/8QAFAABAAAAAAAAAAAAAAAAAAAAA//EABQQAQAAAAAAAAAAAAAAAAAAAAD/2gAIAQEAAD8AfwD/2Q==",
    "base64",
  );
  u.PNG = Buffer.from("iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg==", "base64");
  u.XMP = Buffer.from('<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>\n<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"></rdf:RDF></x:xmpmeta>\n<?xpacket end="w"?>', "utf8");
  return u;
};
