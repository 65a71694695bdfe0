// Runs the whole web app but its looks: useHangulize over the real workers and
// WebAssembly programs.
//
//   node app.mjs OUT_DIR WASM_DIR INPUT.json OUTPUT.json
import fs from 'node:fs'
import path from 'node:path'
import { createRequire } from 'node:module'
import { fileURLToPath, pathToFileURL } from 'node:url'
import { Worker as Thread } from 'node:worker_threads'

const here = path.dirname(fileURLToPath(import.meta.url))
const link = createRequire(import.meta.url)('./link.cjs')
const [dir, wasm, inputPath, outputPath] = process.argv.slice(2)
const input = JSON.parse(fs.readFileSync(inputPath, 'utf8'))
const out = { hook: [], calls: [], rules: [], fetched: [], errors: [], unhandled: [], threads: 0 }
process.on('unhandledRejection', (e) => out.unhandled.push(String((e && e.stack) || e)))
const consoleErrors = []
console.error = (...a) => consoleErrors.push(a.map(String).join(' '))
const finish = () => {
  out.console = consoleErrors
  fs.writeFileSync(outputPath, JSON.stringify(out))
  process.exit(0)
}

const threads = []
globalThis.Worker = class {
  constructor(url) {
    const name = path.basename(new URL(String(url), 'http://app/').pathname).replace(/\.[jt]s$/, '')
    this.thread = new Thread(path.join(here, 'worker.cjs'), { workerData: { bundle: path.join(dir, name + '.js'), wasm }, env: {} })
    this.thread.unref()
    out.threads++
    threads.push(this)
    this.thread.on('message', (m) => m && m.fetched && out.fetched.push(name + ':' + m.fetched))
    this.thread.on('error', (e) => out.errors.push(name + ': ' + String((e && e.stack) || e)))
    this.thread.on('exit', (code) => out.errors.push(name + ': exit ' + code))
  }
  terminate() {
    this.thread.terminate()
  }
}
// The page exposes the Translit endpoint to nobody.
globalThis.__comlink = { ...link, expose() {}, wrap: (w) => link.wrap(w.thread || w) }
const alive = setInterval(() => {}, 1000)

const mod = await import(pathToFileURL(path.join(dir, 'hook.mjs')).href)
const sleep = (ms) => new Promise((r) => setTimeout(r, ms))
const within = (p, ms, what) => Promise.race([p, sleep(ms).then(() => { throw new Error('timeout: ' + what) })])

// 1. The hook: sets of inputs in quick succession, then rest.
let set = null
let wake = () => {}
let scheduled = false
const root = new globalThis.__React.Root(
  () => {
    const [h, s] = mod.useHangulize()
    set = s
    return h
  },
  () => {
    if (scheduled) return
    scheduled = true
    setImmediate(() => {
      scheduled = false
      root.render()
      setImmediate(() => {
        root.flushEffects()
        wake()
      })
    })
  }
)
root.render()
root.flushEffects()
const until = async (cond, ms) => {
  const end = Date.now() + ms
  while (!cond()) {
    if (Date.now() > end) return false
    await Promise.race([new Promise((r) => (wake = r)), sleep(20)])
  }
  return true
}
out.ready = await until(() => root.value.version === input.version, 120000)
out.version = root.value.version
out.specs = Object.keys(root.value.specs).sort()
if (!out.ready) finish()
for (const g of input.groups) {
  const shown = []
  let stop = false
  for (const [lang, word, wait] of g.inputs) {
    set(lang, word)
    if (wait) await sleep(wait)
  }
  // At rest: idle, and nothing changes any more for a while.
  const [lang, word] = g.inputs[g.inputs.length - 1]
  const ok = await until(() => !scheduled && root.value.state === mod.HangulizeState.IDLE && root.value.result === g.want, 20000)
  const early = root.value.result
  await sleep(g.linger || 0)
  const state = root.value.state
  out.hook.push({ ok, state, result: root.value.result, idle: state === mod.HangulizeState.IDLE, early })
  if (!ok) finish()
}

// 2. The endpoints.
const main = link.wrap(threads.find((t) => t.thread && t === threads[0]).thread)
const fresh = (name) => link.wrap(new globalThis.Worker(new URL('http://app/' + name)).thread)
const settled = async (p, what) => {
  try {
    return { value: await within(p, 120000, what) }
  } catch (e) {
    return { error: String((e && e.message) || e), isError: e instanceof Error }
  }
}
await Promise.all(
  input.calls.map(async (c, i) => {
    const traces = []
    const args = [c.lang, c.word]
    if (c.trace) args.push(link.proxy((t) => { traces.push(t) }))
    out.calls[i] = { ...(await settled(main.hangulize(...args), 'call ' + i)), traces }
  })
)
// 3. The rules of the Translit worker.
for (const load of input.loads) {
  const w = fresh('translit.worker')
  const before = await settled(w.transliterate(load, 'a'), 'before')
  const loaded = await settled(w.load(load), 'load')
  const again = await settled(w.load(load), 'again')
  const after = await settled(w.transliterate(load, input.probe[load] || 'a'), 'after')
  out.rules.push({ load, before, loaded, again, after })
}
{
  const w = fresh('translit.worker')
  const unknown = await settled(w.load('nothing'), 'unknown')
  const then = await settled(w.load(input.loads[0]), 'then')
  const after = await settled(w.transliterate(input.loads[0], input.probe[input.loads[0]]), 'after')
  out.unknown = { unknown, then, after }
}
// 4. A worker which is asked before its program is loaded.
out.early = []
await Promise.all(
  ['hangulize', 'getVersion', 'getSpecs', 'useTranslit'].map(async (first) => {
    const w = fresh('hangulize.worker')
    const ask = {
      hangulize: () => w.hangulize(input.early.lang, input.early.word),
      getVersion: () => w.getVersion(),
      getSpecs: () => w.getSpecs(),
      useTranslit: () => w.useTranslit(input.early.method, link.proxy(async (word) => word)),
    }
    const r = { first, answers: {} }
    const names = [first, ...Object.keys(ask).filter((n) => n !== first)]
    await Promise.all(names.map(async (n) => { r.answers[n] = await settled(ask[n](), first + ' early, then ' + n) }))
    r.specs = Object.keys(r.answers.getSpecs.value || {}).sort()
    r.answers.getSpecs.value = null
    r.reading = await settled(w.hangulize(input.early.needy, input.early.text), 'with a Translit of its own')
    out.early.push(r)
  })
)
clearInterval(alive)
finish()
