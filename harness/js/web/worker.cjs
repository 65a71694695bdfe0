// Runs a bundled web worker in a thread of its own, with real message passing.
const { parentPort, workerData } = require('node:worker_threads')
const fs = require('node:fs')
const vm = require('node:vm')
const path = require('node:path')
const link = require('./link.cjs')

globalThis.self = globalThis
globalThis.__base = 'http://app/' + path.basename(workerData.bundle)
globalThis.fetch = async (url) => {
  const name = path.basename(new URL(String(url)).pathname)
  parentPort.postMessage({ fetched: name })
  const bytes = await fs.promises.readFile(path.join(workerData.wasm, name))
  return { ok: true, status: 200, arrayBuffer: async () => bytes }
}
WebAssembly.instantiateStreaming = async (source, imports) =>
  WebAssembly.instantiate(await (await source).arrayBuffer(), imports)
globalThis.__comlink = { proxy: link.proxy, wrap: () => { throw new Error('wrap in a worker') }, expose: (api) => link.expose(api, parentPort) }
vm.runInThisContext(fs.readFileSync(workerData.bundle, 'utf8'), { filename: workerData.bundle })
