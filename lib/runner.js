"use strict";
// usage: node lib/runner.js <ID> [quick|thorough]
//        node lib/runner.js <ID> replay <file>
// Builds /repo's working tree, forks shards that search generated inputs,
// merges their counts, writes evidence/<ID>.json and prints the verdict.
const fs = require("node:fs");
const path = require("node:path");
const crypto = require("node:crypto");
const { fork } = require("node:child_process");
const { NODE_LIBS, scratchRoot, build } = require("./build");

const VERIF = path.resolve(__dirname, "..");

function loadKnown(id) {
  const f = path.join(VERIF, "known_findings.json");
  if (!fs.existsSync(f)) return [];
  return JSON.parse(fs.readFileSync(f, "utf8")).filter(
    (k) => k.property === id && k.status === "open",
  );
}

async function main() {
  const [id, mode0, replayFile] = process.argv.slice(2);
  const spec = require(path.join(VERIF, "checks", id + ".js"));
  const mode = mode0 || process.env.VERIF_TIER || "quick";
  const tier = mode === "thorough" ? "thorough" : "quick";
  const seed = parseInt(process.env.VERIF_SEED || "1", 10) || 1;
  const t0 = Date.now();
  const scratch = scratchRoot();
  const entry = build(scratch);

  let replay = null;
  if (mode === "replay") replay = JSON.parse(fs.readFileSync(replayFile, "utf8"));
  const evSeed = replay ? replay.verifSeed : seed;

  const envs = spec.shardEnvs ? spec.shardEnvs(tier) : Array.from({ length: spec.shards || 4 }, () => ({}));
  const shardIdx = replay ? [replay.shard] : envs.map((_, i) => i);
  const known = loadKnown(id);

  const search = (i, replay, sdir) =>
        new Promise((resolve) => {
          fs.mkdirSync(sdir);
          const child = fork(path.join(__dirname, "shard.js"), [], {
            env: {
              ...process.env,
              TZ: "UTC",
              LANG: "C.UTF-8",
              TMPDIR: sdir,
              ...envs[i],
              NODE_PATH: NODE_LIBS,
              VERIF_JOB: JSON.stringify({
                id, tier, seed: evSeed, entry, scratch: sdir, shard: i, shards: envs.length,
                replay, known: known.map((k) => k.key),
              }),
            },
            stdio: ["ignore", "inherit", "inherit", "ipc"],
          });
          let res = null;
          let interim = [];
          // Answer within the time a check gets, with what was found by then.
          const watchdog = setTimeout(() => {
            if (interim.length) res = { subs: {}, failures: interim, knownHits: [] };
            child.kill("SIGKILL");
          }, tier === "quick" ? 780000 : 2 ** 31 - 1);
          watchdog.unref();
          child.on("message", (m) => (m.interim ? (interim = m.interim) : (res = m)));
          child.on("exit", (code, sig) => {
            clearTimeout(watchdog);
            if (res == null) {
              const saved = (ext) => (fs.existsSync(sdir + ext) ? fs.readFileSync(sdir + ext, "utf8") : "");
              const hang = saved(".hang");
              const first = saved(".first") && JSON.parse(saved(".first"));
              const now = saved(".state").trim() && JSON.parse(saved(".state"));
              // A failure was being shrunk, or the library never returned or took the process down.
              if (first && first.subcheck === now.subcheck) res = { failures: [...interim, first] };
              else if (now && (hang || ["SIGABRT", "SIGSEGV"].includes(sig))) res = { failures: [...interim, { ...now, undescribed: true, counterexample: "", error: hang ? `the library did not return: ${hang} s of processor time in one step` : `the process died (${sig})` }] };
              else res = { crashed: `shard ${i} ended without a result (code=${code} signal=${sig})` };
              if (!res.crashed) Object.assign(res, { subs: {}, knownHits: [] });
            }
            resolve(res);
          });
        });
  const results = await Promise.all(shardIdx.map((i) => search(i, replay, path.join(scratch, "shard" + i))));
  for (const f of results.flatMap((r) => r.failures ?? [])) {
    if (!f.undescribed) continue;
    delete f.undescribed;
    const d = await search(f.shard, { ...f, describe: true }, path.join(scratch, "describe" + f.shard));
    f.counterexample = d.described ?? "(not available)";
  }

  const crashed = results.filter((r) => r.crashed);
  if (crashed.length && !results.some((r) => r.failures?.length)) {
    for (const c of crashed) console.error("CHECK-ERROR", id, c.crashed);
    process.exitCode = 2;
    return;
  }
  const subs = {};
  const hashes = new Set();
  let evaluations = 0;
  const failures = [];
  const knownHits = new Set();
  for (const r of results.filter((x) => !x.crashed)) {
    for (const [name, s] of Object.entries(r.subs)) {
      const o = (subs[name] ??= { cases: 0, nontrivial: 0, labels: {}, samples: [] });
      o.cases += s.cases;
      o.nontrivial += s.nontrivial;
      for (const [k, v] of Object.entries(s.labels)) o.labels[k] = (o.labels[k] || 0) + v;
      if (o.samples.length < 3) o.samples.push(...s.samples.slice(0, 3 - o.samples.length));
      for (const h of s.hashes) hashes.add(name + h);
      evaluations += s.cases;
    }
    failures.push(...r.failures);
    for (const k of r.knownHits) knownHits.add(k);
  }
  failures.sort((a, b) => (a.order - b.order) || (a.shard - b.shard));

  const wall = (Date.now() - t0) / 1000;
  if (!replay) {
    const samples = [];
    for (const [name, s] of Object.entries(subs)) for (const x of s.samples) samples.push({ subcheck: name, case: x });
    const ev = {
      property: id,
      tier,
      seed,
      level: spec.level || "exploration",
      coverage: {
        evaluations,
        distinct_nontrivial: hashes.size,
        rule: spec.rule,
        samples,
        subchecks: Object.fromEntries(
          Object.entries(subs).map(([n, s]) => [n, { cases: s.cases, nontrivial_cases: s.nontrivial, labels: s.labels }]),
        ),
        shards: envs.length,
        exhaustive: false,
      },
      assumptions: spec.assumptions || [],
      wall_s: wall,
      violations: failures.length,
    };
    fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(VERIF, "evidence", id + ".json"), JSON.stringify(ev, null, 1) + "\n");
  }
  for (const k of known)
    console.log(`KNOWN-FINDING: property=${id} ${k.what}` + (knownHits.has(k.key) ? "" : " (not re-triggered by this run's inputs)"));
  if (failures.length) {
    const dir = path.join(VERIF, "replays");
    fs.mkdirSync(dir, { recursive: true });
    const seen = new Set();
    for (const f of failures) {
      if (seen.has(f.subcheck)) continue;
      seen.add(f.subcheck);
      const h = crypto.createHash("sha1").update(f.subcheck + f.counterexample).digest("hex").slice(0, 8);
      const file = replay ? path.resolve(replayFile) : path.join(dir, `${id}-${f.subcheck.replace(/\W+/g, "_")}-${h}.json`);
      if (!replay)
        fs.writeFileSync(
          file,
          JSON.stringify({ property: id, verifSeed: evSeed, ...f, howto: `bash /verif/run.sh ${id} replay ${file}` }, null, 1) + "\n",
        );
      console.log(`subcheck ${f.subcheck}: ${f.error}`);
      console.log(`counterexample: ${f.counterexample.slice(0, 2000)}`);
      console.log(`VIOLATION property=${id} replay=${file}`);
    }
    process.exitCode = 1;
    return;
  }
  console.log(`OK property=${id} tier=${tier} seed=${evSeed} evaluations=${evaluations} distinct_nontrivial=${hashes.size} wall_s=${wall.toFixed(1)}`);
}

main().catch((e) => {
  console.error("CHECK-ERROR", e);
  process.exit(2);
});
