// node build.mjs REPO OUTDIR: bundles the front end of the current tree for page.mjs
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { compile } from "./minisvelte.mjs";
const NM = process.env.VERIF_NODE_MODULES || "/opt/veriftools/node/node_modules";
const require = createRequire(NM + "/");
const esbuild = require("esbuild");
const here = path.dirname(fileURLToPath(import.meta.url));
const [repo, out] = process.argv.slice(2);
const src = path.join(repo, "client/src");

const STUBS = { svelte: "svelte", "svelte/store": "svelte_store", "svelte-chota": "svelte_chota", chota: "chota", apexcharts: "apexcharts", mermaid: "mermaid", "class-transformer": "class_transformer", "reflect-metadata": "reflect_metadata", "sql-formatter": "sql_formatter" };

const plugin = {
  name: "verif",
  setup(b) {
    b.onResolve({ filter: /^verif:rt$/ }, () => ({ path: path.join(here, "rt.js") }));
    b.onResolve({ filter: /^[a-z@][\w@/.-]*$/ }, (a) => {
      if (a.kind === "entry-point") return;
      if (STUBS[a.path]) return { path: path.join(here, "stubs", STUBS[a.path] + ".js") };
      if (a.path.startsWith("@/")) return b.resolve("./" + a.path.slice(2), { resolveDir: src, kind: a.kind });
    });
    // "./stores/gr_param.js" may stand for gr_param.ts
    b.onResolve({ filter: /\.js$/ }, (a) => {
      if (a.kind === "entry-point" || a.pluginData === "again") return;
      if (!a.path.startsWith(".") && !a.path.startsWith("@/")) return;
      const base = a.path.startsWith("@/") ? path.join(src, a.path.slice(2)) : path.join(a.resolveDir, a.path);
      if (fs.existsSync(base)) return { path: base };
      const ts = base.replace(/\.js$/, ".ts");
      if (fs.existsSync(ts)) return { path: ts };
    });
    b.onLoad({ filter: /\.svelte$/ }, async (a) => ({
      contents: await compile(fs.readFileSync(a.path, "utf8"), a.path), loader: "js", resolveDir: path.dirname(a.path),
    }));
    b.onLoad({ filter: /\.css$/ }, () => ({ contents: "", loader: "js" }));
  },
};

for (const entry of ["main", "mermaid"]) {
  await esbuild.build({
    entryPoints: [path.join(src, entry + ".ts")], outfile: path.join(out, entry + ".js"), bundle: true, format: "iife", platform: "neutral",
    target: "esnext", charset: "utf8", plugins: [plugin], logLevel: "error", absWorkingDir: here, keepNames: false,
    loader: { ".svg": "text", ".sql": "text" },
    tsconfigRaw: { compilerOptions: { experimentalDecorators: true, useDefineForClassFields: true } },
  });
}
