// A small comlink: calls over message ports, functions as ports of their own.
const { MessageChannel, MessagePort } = require('node:worker_threads')

const marked = new WeakSet()
const proxy = (v) => (marked.add(v), v)

function pack(v, transfer) {
  if (typeof v === 'function') {
    if (!marked.has(v)) throw new DOMException('a function cannot be cloned', 'DataCloneError')
    const { port1, port2 } = new MessageChannel()
    expose(v, port1)
    transfer.push(port2)
    return { port: port2 }
  }
  return { value: v }
}
const unpack = (p) => (p.port ? wrap(p.port) : p.value)

function expose(api, port) {
  port.on('message', async (m) => {
    if (!m || !m.args) return
    let answer
    try {
      const f = m.name === '' ? api : api[m.name]
      if (typeof f !== 'function') throw new TypeError(m.name + ' is not a function')
      const value = await f.apply(api, m.args.map(unpack))
      answer = { id: m.id, value }
    } catch (e) {
      answer = { id: m.id, error: e instanceof Error ? { message: e.message, name: e.name } : { raw: e } }
    }
    try {
      port.postMessage(answer)
    } catch (e) {
      port.postMessage({ id: m.id, error: { message: String(e), name: 'DataCloneError' } })
    }
  })
}

let id = 0
function wrap(port) {
  const waiting = new Map()
  port.on('message', (m) => {
    if (!m || !waiting.has(m.id)) return
    const { resolve, reject } = waiting.get(m.id)
    waiting.delete(m.id)
    if (!m.error) resolve(m.value)
    else if ('raw' in m.error) reject(m.error.raw)
    else reject(Object.assign(new Error(m.error.message), { name: m.error.name }))
  })
  if (port instanceof MessagePort) port.unref()
  const call = (name, args) =>
    new Promise((resolve, reject) => {
      const transfer = []
      const packed = args.map((a) => pack(a, transfer))
      id++
      waiting.set(id, { resolve, reject })
      port.postMessage({ id, name, args: packed }, transfer)
    })
  const f = (...args) => call('', args)
  return new Proxy(f, {
    get: (_, name) => (name === 'then' ? undefined : (...args) => call(String(name), args)),
    apply: (_, __, args) => call('', args),
  })
}
module.exports = { proxy, expose, wrap }
