// Drives useHangulize with every worker answer, timer, render and effect at a
// moment chosen at random, in virtual time.
//
//   node hook.mjs BUNDLE INPUT.json OUTPUT.json
import fs from 'node:fs'
import { pathToFileURL } from 'node:url'

const [bundle, inputPath, outputPath] = process.argv.slice(2)
const input = JSON.parse(fs.readFileSync(inputPath, 'utf8'))

const realSetImmediate = setImmediate
const settle = async () => {
  for (let i = 0; i < 3; i++) await new Promise((r) => realSetImmediate(r))
}

// Virtual timers.
let now = 0
let timers = []
let timerID = 0
globalThis.setTimeout = (fn, ms = 0, ...args) => {
  timers.push({ id: ++timerID, at: now + Math.max(0, ms), fn: () => fn(...args) })
  return timerID
}
globalThis.clearTimeout = (id) => {
  timers = timers.filter((t) => t.id !== id)
}
globalThis.setInterval = () => {
  throw new Error('no intervals')
}
globalThis.requestAnimationFrame = (fn) => setTimeout(() => fn(now), 16)
globalThis.cancelAnimationFrame = clearTimeout
Date.now = () => now
performance.now = () => now
console.error = () => {}

let run = null // the current run
globalThis.Worker = class {
  constructor(url) {
    this.url = String(url)
    run.workers.push(this)
  }
  terminate() {}
}

// later makes a promise which the schedule settles.
function later(run, kind, value, fail) {
  return new Promise((resolve, reject) => {
    run.jobs.push({ kind, settle: () => (fail ? reject(new Error('failed: ' + kind)) : resolve(value)) })
  })
}

globalThis.__comlink = {
  expose() {},
  proxy: (v) => v,
  wrap(worker) {
    const r = run
    const isMain = /hangulize\.worker/.test(worker.url)
    return new Proxy(
      {},
      {
        get(_, name) {
          if (name === 'then') return undefined
          return (...args) => {
            r.calls.push([isMain ? 'main' : 'translit', String(name), ...args.map((a) => (typeof a === 'function' ? 'fn' : a))])
            if (!isMain) return later(r, name, 'T')
            switch (name) {
              case 'hangulize':
                return later(r, 'hangulize', r.resultOf(args[0], args[1]), r.failing(args[0], args[1]))
              case 'getVersion':
                return later(r, name, 'worker-version')
              case 'getSpecs':
                return later(r, name, r.specs)
              default:
                return later(r, name, undefined)
            }
          }
        },
      }
    )
  },
}

const mod = await import(pathToFileURL(bundle).href)

function rng(seed) {
  let s = seed >>> 0
  return (n) => {
    s = (Math.imul(s, 1664525) + 1013904223) >>> 0
    return Math.floor((s / 4294967296) * n)
  }
}

async function schedule(seed) {
  const rnd = rng(seed * 7919 + 13)
  for (let i = 0; i < 5; i++) rnd(2)
  now = 0
  timers = []
  const known = Object.keys(input.manifest.specs)
  const r = {
    workers: [], jobs: [], calls: [], specs: {},
    resultOf: (lang, word) => (/^empty/.test(word) ? '' : `<${lang}:${word}>`),
    failing: (lang, word) => /^fail/.test(word),
  }
  // The worker knows the languages of the manifest and another one.
  for (const l of known) r.specs[l] = { ...input.manifest.specs[l] }
  r.specs.late = { lang: { id: 'late' }, test: [] }
  run = r
  const log = []
  const problems = []
  let dirty = true
  let set = null
  const inputs = []
  const root = new globalThis.__React.Root(
    () => {
      const [h, s] = mod.useHangulize()
      set = s
      return h
    },
    () => {
      dirty = true
    }
  )
  const commit = () => {
    dirty = false
    const h = root.render()
    log.push(['render', h.state, h.result, inputs.length])
    if (h.result !== '') {
      // The same input may come again: the earliest one which is not before
      // that of the previous result counts.
      const of = inputs.flatMap(([l, w], i) => (r.resultOf(l, w) === h.result ? [i] : []))
      const i = of.find((i) => i >= r.shown)
      if (of.length === 0) problems.push('a result of no input is shown: ' + h.result)
      else if (i === undefined) problems.push(`the result of input ${of} is shown after that of input ${r.shown}`)
      else r.shown = i
    }
  }
  r.shown = -1
  commit()
  if (rnd(4) > 0) root.flushEffects()
  const steps = 1 + rnd(input.steps)
  let count = 0
  const act = (finish) => {
    const choices = []
    if (dirty) choices.push('render', 'render', 'render')
    if (root.effects.length) choices.push('effects', 'effects', 'effects')
    if (timers.length) choices.push('timer')
    for (let i = 0; i < Math.min(3, r.jobs.length); i++) choices.push('job')
    if (!finish) choices.push('input')
    if (choices.length === 0) return false
    const c = choices[rnd(choices.length)]
    switch (c) {
      case 'render':
        commit()
        break
      case 'effects':
        root.flushEffects()
        break
      case 'timer': {
        timers.sort((a, b) => a.at - b.at || a.id - b.id)
        const t = timers.shift()
        now = Math.max(now, t.at)
        log.push(['timer', now])
        t.fn()
        break
      }
      case 'job': {
        const j = r.jobs.splice(rnd(r.jobs.length), 1)[0]
        log.push(['job', j.kind])
        now += rnd(3) === 0 ? rnd(700) : 0
        // Due timers fire before.
        j.settle()
        break
      }
      case 'input': {
        count++
        const kind = rnd(10)
        let lang = known[rnd(known.length)]
        let word = 'w' + count
        if (kind === 0) word = rnd(2) ? '' : '  '
        if (kind === 1) lang = 'none'
        if (kind === 2) word = 'fail' + count
        if (kind === 3) lang = 'late'
        if (kind === 4) word = 'empty' + count
        if (inputs.length > 0 && rnd(4) === 0) {
          // An earlier word in another language, another word in the same
          // language, or an earlier input again.
          const [l, w] = inputs[rnd(3) ? inputs.length - 1 : rnd(inputs.length)]
          const again = rnd(3)
          if (again !== 0) word = w
          if (again !== 1) lang = l
        }
        inputs.push([lang, word])
        log.push(['input', lang, word])
        set(lang, word)
        break
      }
    }
    return true
  }
  for (let i = 0; i < steps && problems.length === 0; i++) {
    act(false)
    if (rnd(3) > 0) await settle()
  }
  for (let i = 0; problems.length === 0; i++) {
    await settle()
    if (!act(true)) {
      await settle()
      if (!dirty && root.effects.length === 0 && timers.length === 0 && r.jobs.length === 0) break
    }
    if (i > 20000) {
      problems.push('it never comes to rest')
      break
    }
  }
  if (problems.length === 0) {
    const h = root.value
    const last = inputs[inputs.length - 1]
    let want = ''
    if (last && last[1].trim() && r.specs[last[0]] !== undefined && !r.failing(...last)) want = r.resultOf(...last)
    if (h.result !== want) problems.push(`at rest, the result is ${JSON.stringify(h.result)} instead of ${JSON.stringify(want)}`)
    if (h.state !== mod.HangulizeState.IDLE) problems.push('at rest, the state is ' + h.state)
    if (h.version !== 'worker-version') problems.push('the version is ' + h.version)
    if (!Object.keys(h.specs).includes('late')) problems.push("the worker's specs aren't used")
    // The Translits of the manifest are given to the worker, each with a loaded worker of its kind.
    const used = r.calls.filter((c) => c[0] === 'main' && c[1] === 'useTranslit').map((c) => c[2]).sort()
    if (JSON.stringify(used) !== JSON.stringify([...input.manifest.translits].sort())) problems.push('Translits used: ' + used)
    const loads = r.calls.filter((c) => c[0] === 'translit' && c[1] === 'load').map((c) => mod.__normalize ? mod.__normalize(c[2]) : c[2].replace(/\[.*/, '')).sort()
    const kinds = [...new Set(input.manifest.translits.map((t) => t.replace(/\[.*/, '')))].sort()
    if (JSON.stringify(loads) !== JSON.stringify(kinds)) problems.push('Translit workers loaded: ' + loads)
  }
  return { seed, problems, inputs: inputs.length, renders: root.renders, jobs: r.calls.filter((c) => c[1] === 'hangulize').length, shape: log.map((e) => e[0][0] + (e[0] === 'render' ? e[1] : '')).join(''), log: problems.length ? log : undefined, lastValid: inputs.length > 0 }
}

const out = { runs: [], unhandled: [] }
process.on('unhandledRejection', (e) => out.unhandled.push(String(e && e.stack)))
for (const seed of input.seeds) {
  out.runs.push(await schedule(seed))
  if (out.runs.filter((x) => x.problems.length).length > 2 || out.unhandled.length) break
}
fs.writeFileSync(outputPath, JSON.stringify(out))
process.exit(0)
