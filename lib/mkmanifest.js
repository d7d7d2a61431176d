"use strict";
// Regenerates MANIFEST.json from properties.jsonl and checks/*.js.
const fs = require("node:fs");
const path = require("node:path");
const V = path.resolve(__dirname, "..");
const props = fs.readFileSync(path.join(V, "properties.jsonl"), "utf8").split("\n").filter(Boolean).map((l) => JSON.parse(l));
const checks = [];
const na = [];
for (const p of props) {
  const f = path.join(V, "checks", p.id + ".js");
  if (!fs.existsSync(f)) {
    na.push({ property: p.id, reason: "no check built yet" });
    continue;
  }
  const s = require(f);
  checks.push({
    property: p.id,
    quick_cmd: `bash run.sh ${p.id} quick`,
    thorough_cmd: `bash run.sh ${p.id} thorough`,
    technique: s.technique || "property-based testing with fast-check generators, explicit oracle and shrinking",
    level: s.level || "exploration",
    level_note: s.note || "Searches generated inputs; holds on everything generated, not a proof. " + (s.assumptions || []).join("; "),
  });
}
fs.writeFileSync(
  path.join(V, "MANIFEST.json"),
  JSON.stringify({ version: 1, setup_cmd: "bash setup.sh", checks, not_applicable: na, notes: "No hooks in /repo are needed: every check drives the public API. See DESIGN.md." }, null, 1) + "\n",
);
