// node bundle.mjs REPO HERE OUT: bundles HERE/test.mjs with the client's modules
import { createRequire } from "node:module";
import path from "node:path";
const [repo, here, out] = process.argv.slice(2);
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const src = path.join(repo, "client/src");
await esbuild.build({
  entryPoints: [path.join(here, "test.mjs")], outfile: path.join(out, "out.mjs"), bundle: true, format: "esm", platform: "node", logLevel: "error",
  tsconfigRaw: { compilerOptions: { experimentalDecorators: true } },
  plugins: [{ name: "client", setup(b) {
    b.onResolve({ filter: /^(class-transformer|reflect-metadata|apexcharts|sql-formatter)$/ }, (a) => ({ path: a.path, namespace: "stub" }));
    b.onLoad({ filter: /.*/, namespace: "stub" }, () => ({ contents: `
      export const Type = () => () => {};
      export const plainToInstance = (c, v) => Array.isArray(v) ? v.map((x) => Object.assign(new c(), x)) : Object.assign(new c(), v);
      export const format = (s) => s;
      export default class Chart { constructor(elm, option) { elm.option = option; } render() {} destroy() {} }` }));
    b.onResolve({ filter: /^@\// }, (a) => b.resolve("./" + a.path.slice(2), { resolveDir: src, kind: a.kind }));
  } }],
});
