// A small runtime for React hooks: state updates are batched and become visible
// with the next render, effects run after the render, and before the next one.
let current = null

const same = (a, b) => a !== undefined && b !== undefined && a.length === b.length && a.every((x, i) => Object.is(x, b[i]))

export class Root {
  constructor(fn, onDirty) {
    this.fn = fn
    this.hooks = []
    this.dirty = true
    this.onDirty = onDirty || (() => {})
    this.effects = []
    this.renders = 0
  }
  hook(init) {
    const i = this.index++
    if (i >= this.hooks.length) this.hooks.push(init())
    return this.hooks[i]
  }
  render() {
    this.flushEffects()
    for (let n = 0; n < 50; n++) {
      this.dirty = false
      for (const h of this.hooks) {
        if (h.updates) {
          for (const u of h.updates) h.value = typeof u === 'function' ? u(h.value) : u
          h.updates = []
        }
      }
      this.index = 0
      const before = current
      current = this
      try {
        this.value = this.fn()
      } finally {
        current = before
      }
      this.renders++
      const layout = this.effects.filter((e) => e.layout)
      this.effects = this.effects.filter((e) => !e.layout)
      this.runEffects(layout)
      if (!this.dirty || layout.length === 0) break
    }
    return this.value
  }
  runEffects(list) {
    for (const e of list) if (typeof e.hook.cleanup === 'function') { e.hook.cleanup(); e.hook.cleanup = null }
    for (const e of list) e.hook.cleanup = e.fn()
  }
  flushEffects() {
    const list = this.effects
    this.effects = []
    this.runEffects(list)
  }
  touch() {
    this.dirty = true
    this.onDirty()
  }
}

export function useReducer(reducer, arg, init) {
  const root = current
  const h = root.hook(() => {
    const h = { value: init ? init(arg) : arg, updates: [] }
    h.dispatch = (a) => {
      h.updates.push((v) => h.reducer(v, a))
      root.touch()
    }
    return h
  })
  h.reducer = reducer
  return [h.value, h.dispatch]
}
export function useState(init) {
  const root = current
  const h = root.hook(() => {
    const h = { value: typeof init === 'function' ? init() : init, updates: [] }
    h.set = (v) => {
      if (h.updates.length === 0 && typeof v !== 'function' && Object.is(v, h.value)) return
      h.updates.push(v)
      root.touch()
    }
    return h
  })
  return [h.value, h.set]
}
function effect(fn, deps, layout) {
  const h = current.hook(() => ({ deps: undefined, cleanup: null }))
  if (deps === undefined || !same(h.deps, deps)) current.effects.push({ hook: h, fn, layout })
  h.deps = deps
}
export const useEffect = (fn, deps) => effect(fn, deps, false)
export const useLayoutEffect = (fn, deps) => effect(fn, deps, true)
export const useInsertionEffect = useLayoutEffect
export function useMemo(fn, deps) {
  const h = current.hook(() => ({ deps: null, v: undefined }))
  if (h.deps === null || !same(h.deps, deps)) h.v = fn()
  h.deps = deps
  return h.v
}
export const useCallback = (fn, deps) => useMemo(() => fn, deps)
export function useRef(init) {
  return current.hook(() => ({ ref: { current: init } })).ref
}
export const startTransition = (f) => f()
export const useTransition = () => [false, startTransition]
export const useDeferredValue = (v) => v
export const useDebugValue = () => {}
export const useId = () => current.hook(() => ({ id: ':' + current.hooks.length })).id
export const flushSync = (f) => f()
export default {
  useState, useReducer, useEffect, useLayoutEffect, useInsertionEffect, useMemo, useCallback, useRef, startTransition, useTransition, useDeferredValue, useDebugValue, useId,
}
globalThis.__React = { Root }
