"use strict";
// Transpiles /repo's current working tree (src/**/*.ts without specs) into a
// scratch package that this process owns, and removes it on exit. Nothing is
// ever written under /repo.
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");

const REPO = process.env.VERIF_REPO || "/repo"; // VERIF_REPO: development only
const NODE_LIBS = "/opt/veriftools/node/node_modules";

function scratchRoot() {
  // One scratch directory per check process; everything destructive stays here.
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "etv-verif-"));
  const cleanup = () => {
    try {
      fs.rmSync(dir, { recursive: true, force: true, maxRetries: 3 });
    } catch {}
  };
  process.on("exit", cleanup);
  for (const sig of ["SIGINT", "SIGTERM", "SIGHUP"])
    process.on(sig, () => process.exit(130));
  return dir;
}

function* walk(dir) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) yield* walk(p);
    else yield p;
  }
}

function build(scratch) {
  const ts = require(path.join(NODE_LIBS, "typescript"));
  const src = path.join(REPO, "src");
  const pkg = path.join(scratch, "pkg");
  const out = path.join(pkg, "dist");
  fs.mkdirSync(out, { recursive: true });
  fs.symlinkSync(path.join(REPO, "node_modules"), path.join(pkg, "node_modules"));
  fs.copyFileSync(path.join(REPO, "package.json"), path.join(pkg, "package.json"));
  for (const f of walk(src)) {
    const rel = path.relative(src, f);
    if (rel.endsWith(".spec.ts") || rel.startsWith("update" + path.sep)) continue;
    const dest = path.join(out, rel.replace(/\.ts$/, ".js"));
    fs.mkdirSync(path.dirname(dest), { recursive: true });
    if (!rel.endsWith(".ts")) {
      fs.copyFileSync(f, dest);
      continue;
    }
    if (rel.endsWith(".d.ts")) continue;
    const r = ts.transpileModule(fs.readFileSync(f, "utf8"), {
      fileName: f,
      reportDiagnostics: true,
      compilerOptions: {
        target: ts.ScriptTarget.ES2022,
        module: ts.ModuleKind.CommonJS,
        esModuleInterop: true,
        isolatedModules: true,
        resolveJsonModule: true,
      },
    });
    const bad = (r.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
    if (bad.length)
      throw new Error("cannot transpile " + rel + ": " + ts.flattenDiagnosticMessageText(bad[0].messageText, "\n"));
    fs.writeFileSync(dest, r.outputText);
  }
  return path.join(out, "ExifTool.js");
}

module.exports = { REPO, NODE_LIBS, scratchRoot, build };
