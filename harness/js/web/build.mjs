// Bundles the web sources with stand-ins for the libraries which aren't here.
//
//   node build.mjs ESBUILD WEB_DIR MANIFEST.json WASM_EXEC OUT_DIR
import { createRequire } from 'node:module'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const [esbuildPath, web, manifest, wasmExec, out] = process.argv.slice(2)
const esbuild = createRequire(import.meta.url)(esbuildPath)
const here = path.dirname(fileURLToPath(import.meta.url))

const standIns = {
  name: 'stand-ins',
  setup(b) {
    b.onResolve({ filter: /^react$/ }, () => ({ path: path.join(here, 'react.mjs') }))
    b.onResolve({ filter: /^comlink$/ }, () => ({ path: path.join(here, 'comlink.mjs') }))
    b.onResolve({ filter: /manifest\.json$/ }, () => ({ path: manifest }))
    b.onResolve({ filter: /wasm_exec(\.js)?$/ }, () => ({ path: wasmExec }))
  },
}

const src = path.join(web, 'src/hangulize')
const common = { bundle: true, platform: 'neutral', logLevel: 'error', plugins: [standIns], target: 'es2022' }
await esbuild.build({ ...common, entryPoints: [path.join(src, 'useHangulize.ts')], format: 'esm', outfile: path.join(out, 'hook.mjs') })
for (const w of ['hangulize.worker', 'translit.worker']) {
  await esbuild.build({
    ...common,
    entryPoints: [path.join(src, w + '.ts')],
    format: 'iife',
    outfile: path.join(out, w + '.js'),
    define: { 'import.meta.url': 'globalThis.__base' },
  })
}
