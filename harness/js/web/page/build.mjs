// Bundles the page with stand-ins for the libraries which aren't here.
//
//   node build.mjs ESBUILD UNDERSCORE WEB_DIR MANIFEST.json OUT.js
import { createRequire } from 'node:module'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const [esbuildPath, underscore, web, manifest, out] = process.argv.slice(2)
const esbuild = createRequire(import.meta.url)(esbuildPath)
const here = path.dirname(fileURLToPath(import.meta.url))
const to = (f) => () => ({ path: path.resolve(here, f) })
const standIns = {
  name: 'stand-ins',
  setup(b) {
    b.onResolve({ filter: /^react(-dom)?(\/.*)?$/ }, to('react.mjs'))
    b.onResolve({ filter: /^react-router(-dom)?$/ }, to('router.mjs'))
    b.onResolve({ filter: /^semantic-ui-react$/ }, to('semantic.mjs'))
    b.onResolve({ filter: /^lodash(-es)?$/ }, to('lodash.mjs'))
    b.onResolve({ filter: /^lodash(-es)?\/\w+$/ }, (a) => ({ path: a.path.split('/')[1], namespace: 'lodash' }))
    b.onLoad({ filter: /.*/, namespace: 'lodash' }, (a) => ({ contents: `import L from 'lodash'; export default L.${a.path}`, resolveDir: here }))
    b.onResolve({ filter: /^underscore$/ }, () => ({ path: underscore }))
    b.onResolve({ filter: /^fuse\.js$/ }, to('fuse.mjs'))
    b.onResolve({ filter: /^hangul-js$/ }, to('hangul.mjs'))
    b.onResolve({ filter: /^comlink$/ }, to('../comlink.mjs'))
    b.onResolve({ filter: /manifest\.json$/ }, () => ({ path: manifest }))
    b.onResolve({ filter: /\.(less|css|svg|png)$/ }, (a) => ({ path: a.path, namespace: 'looks' }))
    b.onLoad({ filter: /.*/, namespace: 'looks' }, () => ({ contents: '', loader: 'empty' }))
  },
}
await esbuild.build({
  entryPoints: [path.join(web, 'src/index.tsx')], bundle: true, platform: 'neutral', logLevel: 'error', plugins: [standIns], target: 'es2022',
  format: 'iife', outfile: out, jsx: 'automatic',
  define: { 'import.meta.url': '"http://app/page.js"', 'process.env.PUBLIC_URL': '""', 'process.env.NODE_ENV': '"production"' },
})
