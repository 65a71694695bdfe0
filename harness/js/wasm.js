// Runs calls against a WebAssembly build under node.
//
//   node wasm.js WASM_EXEC PROGRAM.wasm INPUT.json OUTPUT.json
//
// The input tells the calls and how JavaScript Translits behave. The output
// tells what JavaScript saw.
'use strict'
const fs = require('fs')
globalThis.require = require
globalThis.fs = fs
globalThis.path = require('path')
globalThis.TextEncoder ??= require('util').TextEncoder
globalThis.TextDecoder ??= require('util').TextDecoder
globalThis.performance ??= require('perf_hooks').performance
globalThis.crypto ??= require('crypto').webcrypto

const [execPath, programPath, inputPath, outputPath] = process.argv.slice(2)
require(execPath)

const input = JSON.parse(fs.readFileSync(inputPath, 'utf8'))
const out = { exited: null, unhandled: [], calls: [], order: [], done: false }

let written = false
function write() {
  if (written) return
  written = true
  fs.writeFileSync(outputPath, JSON.stringify(out))
}
process.on('unhandledRejection', (e) => out.unhandled.push(String(e)))
process.on('uncaughtException', (e) => {
  out.unhandled.push(String(e))
  write()
  process.exit(0)
})
process.on('beforeExit', write)

// A small generator, determined by the input.
let state = (input.seed || 1) >>> 0
function rnd(n) {
  state = (Math.imul(state, 1664525) + 1013904223) >>> 0
  return Math.floor((state / 4294967296) * n)
}

function pause() {
  switch (rnd(5)) {
    case 0:
      return Promise.resolve()
    case 1:
      return new Promise((r) => setImmediate(r))
    case 2:
      return new Promise((r) => setTimeout(r, rnd(4)))
    case 3:
      return Promise.resolve().then(() => {}).then(() => {})
    default:
      return new Promise((r) => process.nextTick(r))
  }
}

function translitFor(scheme, spec) {
  const results = spec.results
  return (word) => {
    const r = Object.prototype.hasOwnProperty.call(results, word) ? results[word] : null
    out.order.push(scheme + '>' + word)
    if (r === null) {
      out.unhandled.push('a Translit got an unknown word: ' + JSON.stringify([scheme, word]))
      return Promise.resolve('?')
    }
    const finish = () => {
      switch (r.fail) {
        case 'error':
          throw new Error('boom')
        case 'type':
          throw new TypeError('boom')
        case 'string':
          throw 'boom'
        case 'undefined':
          throw undefined
        case 'null':
          throw null
        case 'number':
          throw 42
        case 'object':
          throw { code: 7 }
        default:
          return r.value
      }
    }
    switch (r.how) {
      case 'sync': // rejected or resolved at once
        return new Promise((res) => res(finish()))
      case 'throw': // thrown by the function itself
        finish()
        return Promise.resolve(r.value)
      case 'nested': // uses the same API meanwhile
        return globalThis.hangulize('ita', 'Roma').then((v) => {
          if (v !== '로마') out.unhandled.push('nested call: ' + v)
          return finish()
        })
      default:
        return pause().then(finish)
    }
  }
}

async function oneCall(i) {
  const c = input.calls[i]
  const o = { index: i, state: 'pending', traces: [] }
  out.calls[i] = o
  const args = [c.lang, c.word]
  if (c.trace) {
    let n = 0
    args.push((t) => {
      o.traces.push({ step: t.step, word: t.word, why: t.why, rule: t.rule === null ? null : { id: t.rule.id, from: t.rule.from, to: t.rule.to } })
      n++
      if (c.trace === 'throw' && n === (c.at || 1)) throw new Error('trace boom')
      if (c.trace === 'reenter' && n === 2) {
        globalThis.hangulize('ita', 'Milano').then((v) => {
          if (v !== '밀라노') out.unhandled.push('reentrant call: ' + v)
        })
      }
    })
  } else if (c.undef) {
    args.push(undefined)
  }
  try {
    const p = globalThis.hangulize(...args)
    o.promise = p instanceof Promise
    o.value = await p
    o.type = typeof o.value
    o.state = 'resolved'
  } catch (e) {
    o.state = 'rejected'
    o.isError = e instanceof Error
    o.error = String(e)
  }
  out.order.push('=' + i)
}

;(async () => {
  const go = new Go()
  go.exit = (code) => {
    out.exited = code
    write()
    process.exit(0)
  }
  const wasm = await WebAssembly.instantiate(fs.readFileSync(programPath), go.importObject)
  go.run(wasm.instance)

  if (input.mode === 'translit') {
    out.results = input.calls.map((c) => {
      const v = globalThis.translit(c.scheme, c.word)
      return v instanceof Error ? { error: v.message } : { value: v, type: typeof v }
    })
    out.version = globalThis.translit.version
    out.done = true
    write()
    process.exit(0)
  }

  if (input.mode === 'leak') {
    // The values of JavaScript which the program holds, after each call. Those
    // which are garbage go when Go collects, so there are calls which make
    // much of it.
    const live = () => go._values.length - go._idPool.length
    for (const scheme of Object.keys(input.translits || {})) {
      globalThis.hangulize.useTranslit(scheme, (w) => (/boom/.test(w) ? Promise.reject(new Error('boom')) : Promise.resolve(w + 'x')))
    }
    out.live = []
    out.settled = 0
    for (let i = 0; i < input.calls.length; i++) {
      const c = input.calls[i]
      const args = c.trace ? [c.lang, c.word, () => {}] : [c.lang, c.word]
      if (c.trace) {
        // A scheme which is in use already.
        globalThis.hangulize.useTranslit('furigana', (w) => Promise.resolve(w + i))
      }
      await globalThis.hangulize(...args).then(() => out.settled++, () => out.settled++)
      await new Promise((r) => setImmediate(r))
      if (i % 100 === 99) {
        for (let k = 0; k < 12; k++) {
          await globalThis.hangulize('ita', 'roma milano '.repeat(60))
          await new Promise((r) => setImmediate(r))
        }
      }
      out.live.push(live())
    }
    out.done = true
    write()
    process.exit(0)
  }

  out.version = globalThis.hangulize.version
  if (input.specs) out.specs = globalThis.hangulize.specs
  out.used = []
  const late = input.late || {}
  const use = (scheme) => {
    const fn = translitFor(scheme, input.translits[scheme])
    out.used.push([scheme, globalThis.hangulize.useTranslit(scheme, fn), globalThis.hangulize.useTranslit(scheme, () => Promise.resolve('SECOND'))])
  }
  for (const scheme of Object.keys(input.translits || {})) if (!late[scheme]) use(scheme)
  if (input.mode === 'sequence') {
    for (let i = 0; i < input.calls.length; i++) {
      for (const scheme of Object.keys(input.translits || {})) if (i > 0 && late[scheme] === i) use(scheme)
      await oneCall(i)
    }
  } else {
    // Overlapping calls start at random moments.
    const running = []
    for (let i = 0; i < input.calls.length; i++) {
      running.push(oneCall(i))
      if (rnd(input.burst || 3) === 0) await pause()
    }
    await Promise.all(running)
  }
  out.done = true
  // Give stray callbacks a chance to show up.
  await new Promise((r) => setTimeout(r, 20))
  write()
  process.exit(0)
})().catch((e) => {
  out.unhandled.push('driver: ' + String(e && e.stack))
  write()
  process.exit(0)
})
