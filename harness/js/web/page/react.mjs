// A small React with components: state updates are batched and become visible
// with the next render, layout effects run with the commit, the other effects
// when the driver says so, at the latest before the next render.
export const Fragment = Symbol('Fragment')
export const StrictMode = Fragment
export const Suspense = Fragment
export const Profiler = Fragment

const same = (a, b) => !!a && !!b && a.length === b.length && a.every((x, i) => Object.is(x, b[i]))

const make = (type, props, key, ref) => ({ $el: true, type, props, key: key === undefined || key === null ? null : String(key), ref: ref === undefined ? null : ref })
export function jsx(type, config, key) {
  const { ref, key: k, ...props } = config || {}
  return make(type, props, key === undefined ? k : key, ref)
}
export const jsxs = jsx
export const jsxDEV = jsx
export function createElement(type, config, ...children) {
  const el = jsx(type, config)
  if (children.length === 1) el.props.children = children[0]
  if (children.length > 1) el.props.children = children
  return el
}
export function cloneElement(el, config, ...children) {
  const { ref, key, ...props } = config || {}
  const c = make(el.type, { ...el.props, ...props }, key === undefined ? el.key : key, ref === undefined ? el.ref : ref)
  if (children.length) c.props.children = children.length === 1 ? children[0] : children
  return c
}
export const isValidElement = (x) => !!x && x.$el === true
const flat = (c) => (Array.isArray(c) ? c.flatMap(flat) : c === null || c === undefined || typeof c === 'boolean' ? [] : [c])
export const Children = {
  toArray: flat,
  map: (c, f) => flat(c).map(f),
  forEach: (c, f) => flat(c).forEach(f),
  count: (c) => flat(c).length,
  only: (c) => c,
}
export const forwardRef = (render) => ({ $forward: render })
export const memo = (type, equal) => ({ $memo: type, equal })
export const lazy = () => { throw new Error('the stand-in knows no lazy') }
export function createContext(value) {
  const c = { $context: true, value }
  c.Provider = { $provider: c }
  c.Consumer = ({ children }) => children(useContext(c))
  return c
}
export const createRef = () => ({ current: null })

const shallow = (a, b) => {
  const k = Object.keys(a)
  return k.length === Object.keys(b).length && k.every((x) => Object.is(a[x], b[x]))
}

let now = null // the component in work
const page = {
  root: null, dirty: new Set(), effects: [], layout: [], detached: [], renders: 0, commits: 0,
  isDirty: () => page.dirty.size > 0,
}
globalThis.__page = page

class Node {
  constructor(inst) {
    this.inst = inst
    this.nodeType = 1
  }
  get props() { return this.inst.el.props }
  get type() { return this.inst.el.type }
  get tagName() { return String(this.type).toUpperCase() }
  get className() { return this.props.className || '' }
  get classes() { return this.className.split(/\s+/).filter(Boolean) }
  get classList() { return { contains: (x) => this.classes.includes(x) } }
  get childNodes() { return hosts(this.inst.children) }
  get children() { return this.childNodes.filter((n) => n.nodeType === 1) }
  get firstChild() { return this.childNodes[0] || null }
  get lastChild() { return this.childNodes.at(-1) || null }
  get firstElementChild() { return this.children[0] || null }
  get lastElementChild() { return this.children.at(-1) || null }
  get parentNode() {
    for (let i = this.inst.parent; i; i = i.parent) if (i.node && i.node.nodeType === 1) return i.node
    return null
  }
  get parentElement() { return this.parentNode }
  get textContent() { return this.childNodes.map((n) => n.textContent).join('') }
  get innerText() { return this.textContent }
  get offsetHeight() { return globalThis.__height(this) }
  get clientHeight() { return this.offsetHeight }
  get scrollHeight() { return this.offsetHeight }
  getBoundingClientRect() { return { height: this.offsetHeight, top: 0, bottom: this.offsetHeight, left: 0, right: 0, width: 0 } }
  querySelector(sel) { return this.all().find((n) => (sel[0] === '.' ? n.classes.includes(sel.slice(1)) : n.type === sel)) || null }
  all() { return this.children.flatMap((n) => [n, ...n.all()]) }
  focus() {}
  blur() {}
}
class Text {
  constructor(inst) {
    this.inst = inst
    this.nodeType = 3
  }
  get textContent() { return this.inst.el.text }
}
const hosts = (list) => list.flatMap((i) => (i.node ? [i.node] : hosts(i.children)))

const wrapText = (c) => (typeof c === 'string' || typeof c === 'number' ? { text: String(c), type: '#text', key: null, props: {} } : c)
function items(c, prefix = '', out = []) {
  const list = Array.isArray(c) ? c : [c]
  list.forEach((x, i) => {
    if (Array.isArray(x)) return items(x, prefix + i + '/', out)
    if (x && x[Symbol.iterator] && typeof x === 'object') return items([...x], prefix + i + '/', out)
    if (x === null || x === undefined || typeof x === 'boolean') return
    if (typeof x === 'object' && !x.$el) throw new Error('Objects are not valid as a React child')
    if (typeof x === 'function') return
    const el = wrapText(x)
    out.push([prefix + (el.key !== null ? '$' + el.key : i), el])
  })
  return out
}

function unmount(inst) {
  inst.alive = false
  page.dirty.delete(inst)
  for (const c of inst.children) unmount(c)
  for (const h of inst.hooks) if (h.effect && typeof h.cleanup === 'function') { page.detached.push(h.cleanup); h.cleanup = null }
  if (inst.node && inst.el.ref) setRef(inst.el.ref, null)
}
const setRef = (ref, v) => { if (typeof ref === 'function') ref(v); else if (ref) ref.current = v }

function reconcile(inst, children) {
  const old = new Map(inst.children.map((c) => [c.slot, c]))
  inst.children = items(children).map(([slot, el]) => {
    let c = old.get(slot)
    if (c && c.el.type === el.type) {
      old.delete(slot)
      return update(c, el)
    }
    c = { slot, el: null, parent: inst, depth: inst.depth + 1, children: [], hooks: [], alive: true, node: null, prev: null }
    return update(c, el)
  })
  for (const c of old.values()) unmount(c)
}

function update(inst, el) {
  if (inst.el === el && !page.dirty.has(inst) && !inst.stale) return inst
  const before = inst.el
  inst.el = el
  const t = el.type
  if (t === '#text') {
    inst.node = inst.node || new Text(inst)
    return inst
  }
  if (typeof t === 'string') {
    inst.node = inst.node || new Node(inst)
    if (!before || before.ref !== el.ref) page.layout.push({ ref: () => { if (before && before.ref) setRef(before.ref, null); setRef(el.ref, inst.node) } })
    reconcile(inst, el.props.children)
    return inst
  }
  if (t === Fragment) {
    reconcile(inst, el.props.children)
    return inst
  }
  if (t && t.$provider) {
    if (!before || !Object.is(before.props.value, el.props.value)) markReaders(inst, t.$provider)
    reconcile(inst, el.props.children)
    return inst
  }
  let type = t
  if (t && t.$memo) {
    if (before && !page.dirty.has(inst) && (t.equal || shallow)(before.props, el.props)) return inst
    type = t.$memo
  }
  return component(inst, type)
}
// markReaders makes the readers of a context below render again.
function markReaders(inst, ctx) {
  for (const c of inst.children) {
    if (c.hooks.some((h) => h.context === ctx)) page.dirty.add(c)
    markReaders(c, ctx)
  }
}
function component(inst, type) {
  page.dirty.delete(inst)
  if (typeof type === 'object' && type.$memo) type = type.$memo
  const render = type && type.$forward ? (p) => type.$forward(p, inst.el.ref) : type
  if (typeof render !== 'function') throw new Error('not a component: ' + String(type))
  if (render.prototype && render.prototype.render) throw new Error('the stand-in knows no classes')
  let out
  for (let n = 0; ; n++) {
    if (n > 25) throw new Error('Too many re-renders')
    for (const h of inst.hooks) {
      if (h.updates && h.updates.length) {
        for (const u of h.updates) h.value = u(h.value)
        h.updates = []
      }
    }
    inst.index = 0
    inst.fresh = []
    inst.rerender = false
    const before = now
    now = inst
    try {
      out = render(inst.el.props)
    } finally {
      now = before
    }
    page.renders++
    if (!inst.rerender) break
  }
  const fresh = inst.fresh
  reconcile(inst, out)
  for (const e of fresh) (e.layout ? page.layout : page.effects).push(e)
  return inst
}
function run(list) {
  for (const e of list) if (e.hook && typeof e.hook.cleanup === 'function') { e.hook.cleanup(); e.hook.cleanup = null }
  for (const e of list) {
    if (e.ref) e.ref()
    else if (e.inst.alive) e.hook.cleanup = e.fn()
  }
}
page.flushEffects = () => {
  const list = page.effects
  page.effects = []
  const gone = page.detached
  page.detached = []
  for (const f of gone) f()
  run(list)
}
// render renders what is to be rendered, and commits it.
page.render = () => {
  page.flushEffects()
  for (let n = 0; page.dirty.size; n++) {
    if (n > 60) throw new Error('Maximum update depth exceeded')
    const list = [...page.dirty].sort((a, b) => a.depth - b.depth)
    for (const inst of list) {
      if (!inst.alive || !page.dirty.has(inst)) { page.dirty.delete(inst); continue }
      if (typeof inst.el.type === 'string' || inst.el.type === Fragment) { page.dirty.delete(inst); reconcile(inst, inst.el.props.children) } else component(inst, inst.el.type)
    }
    const layout = page.layout
    page.layout = []
    page.commits++
    run(layout.filter((e) => e.ref))
    run(layout.filter((e) => !e.ref))
  }
}
export function createRoot() {
  return {
    render(el) {
      if (!page.root) page.root = { slot: 'root', el: null, parent: null, depth: 0, children: [], hooks: [], alive: true, node: null }
      page.root.el = make(Fragment, { children: el }, null, null)
      page.dirty.add(page.root)
    },
    unmount() { unmount(page.root) },
  }
}
page.nodes = () => (page.root ? hosts(page.root.children).filter((n) => n.nodeType === 1).flatMap((n) => [n, ...n.all()]) : [])

function hook(init) {
  if (!now) throw new Error('Invalid hook call')
  const i = now.index++
  if (i >= now.hooks.length) now.hooks.push(init())
  return now.hooks[i]
}
function touch(inst) {
  if (inst === now) inst.rerender = true
  else if (inst.alive) page.dirty.add(inst)
}
export function useReducer(reducer, arg, init) {
  const inst = now
  const h = hook(() => {
    const h = { value: init ? init(arg) : arg, updates: [] }
    h.dispatch = (a) => { h.updates.push((v) => h.reducer(v, a)); touch(inst) }
    return h
  })
  h.reducer = reducer
  return [h.value, h.dispatch]
}
export function useState(init) {
  const inst = now
  const h = hook(() => {
    const h = { value: typeof init === 'function' ? init() : init, updates: [] }
    h.set = (v) => {
      const u = typeof v === 'function' ? v : () => v
      if (h.updates.length === 0 && Object.is(u(h.value), h.value)) return
      h.updates.push(u)
      touch(inst)
    }
    return h
  })
  return [h.value, h.set]
}
function effect(fn, deps, layout) {
  const h = hook(() => ({ effect: true, deps: null, cleanup: null }))
  if (!deps || !same(h.deps, deps)) now.fresh.push({ hook: h, fn, layout, inst: now })
  h.deps = deps
}
export const useEffect = (fn, deps) => effect(fn, deps, false)
export const useLayoutEffect = (fn, deps) => effect(fn, deps, true)
export const useInsertionEffect = useLayoutEffect
export const useImperativeHandle = (ref, fn, deps) => useLayoutEffect(() => { setRef(ref, fn()); return () => setRef(ref, null) }, deps)
export function useMemo(fn, deps) {
  const h = hook(() => ({ deps: null, v: undefined }))
  if (!h.deps || !same(h.deps, deps)) h.v = fn()
  h.deps = deps
  return h.v
}
export const useCallback = (fn, deps) => useMemo(() => fn, deps)
export const useRef = (init) => hook(() => ({ ref: { current: init } })).ref
export function useContext(ctx) {
  const h = hook(() => ({ context: ctx }))
  h.context = ctx
  for (let i = now.parent; i; i = i.parent) if (i.el && i.el.type && i.el.type.$provider === ctx) return i.el.props.value
  return ctx.value
}
export function useSyncExternalStore(subscribe, get) {
  const [v, set] = useState(get)
  useEffect(() => { set(() => get()); return subscribe(() => set(() => get())) }, [subscribe])
  return v
}
export const startTransition = (f) => f()
export const useTransition = () => [false, startTransition]
export const useDeferredValue = (v) => v
export const useDebugValue = () => {}
export const useId = () => hook(() => ({ id: ':' + Math.random() })).id
export const flushSync = (f) => { const r = f(); page.render(); return r }
export const version = '18.2.0'
const all = {
  Fragment, StrictMode, Suspense, Profiler, createElement, cloneElement, isValidElement, Children, forwardRef, memo, lazy, createContext, createRef, createRoot, flushSync, version,
  useState, useReducer, useEffect, useLayoutEffect, useInsertionEffect, useImperativeHandle, useMemo, useCallback, useRef, useContext, useSyncExternalStore, startTransition, useTransition, useDeferredValue, useDebugValue, useId,
}
export default all
