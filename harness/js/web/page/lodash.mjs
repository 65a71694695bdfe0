// A stand-in for lodash: underscore, which shares most of it, and the rest.
import U from 'underscore'

const power = (n, p) => Number(Math.round(n + 'e' + p) + 'e' + -p)
const digits = (f) => (n, p = 0) => (p ? Number(f(n + 'e' + p) + 'e' + -p) : f(n))
const L = Object.assign((x) => U(x), U, {
  floor: digits(Math.floor), ceil: digits(Math.ceil), round: (n, p = 0) => power(n, p),
  clamp: (x, lo, hi) => (hi === undefined ? Math.min(x, lo) : Math.min(Math.max(x, lo), hi)),
  sample: (c) => { const v = Array.isArray(c) ? c : Object.values(c || {}); return v[Math.floor(Math.random() * v.length)] },
  sampleSize: (c, n = 1) => {
    const v = [...(Array.isArray(c) ? c : Object.values(c || {}))]
    for (let i = v.length - 1; i > 0; i--) { const k = Math.floor(Math.random() * (i + 1)); [v[i], v[k]] = [v[k], v[i]] }
    return v.slice(0, Math.max(0, n))
  },
  shuffle: (c) => L.sampleSize(c, Infinity),
  orderBy: (c, by) => U.sortBy(c, Array.isArray(by) ? by[0] : by),
  take: (a, n = 1) => a.slice(0, n), drop: (a, n = 1) => a.slice(n),
  trim: (s) => String(s ?? '').trim(), isNil: (x) => x === null || x === undefined, get: (o, p, d) => { const v = String(p).split('.').reduce((x, k) => (x === null || x === undefined ? undefined : x[k]), o); return v === undefined ? d : v },
  flatMap: (c, f) => Object.values(c).flatMap((x) => f(x)), mapValues: (o, f) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, f(v, k)])),
  toPairs: Object.entries, fromPairs: Object.fromEntries, entries: Object.entries, head: (a) => a[0], uniqBy: (a, f) => { const s = new Set(); return a.filter((x) => { const k = f(x); return s.has(k) ? false : !!s.add(k) }) },
})
export default L
export const {
  floor, ceil, round, clamp, sample, sampleSize, shuffle, orderBy, take, drop, trim, isNil, get, flatMap, mapValues, toPairs, fromPairs, uniqBy, head,
  sortBy, map, filter, find, each, forEach, keys, values, uniq, range, isEmpty, isEqual, debounce, throttle, min, max, includes, some, every, groupBy, pick, omit, noop, identity, last, first, times, reduce,
} = L
