// A stand-in for react-router-dom 6.6 over the driver's window.
import { createContext, createElement, forwardRef, useCallback, useContext, useEffect, useLayoutEffect, useMemo, useRef, useState } from 'react'

const Ctx = createContext(null)
const parse = (to) => {
  let hash = ''
  let search = ''
  let pathname = to
  const h = pathname.indexOf('#')
  if (h >= 0) { hash = pathname.slice(h); pathname = pathname.slice(0, h) }
  const s = pathname.indexOf('?')
  if (s >= 0) { search = pathname.slice(s); pathname = pathname.slice(0, s) }
  return { pathname, search: search === '?' ? '' : search, hash: hash === '#' ? '' : hash }
}
const full = (to, from) => {
  const t = typeof to === 'string' ? parse(to) : { pathname: '', search: '', hash: '', ...to }
  const search = t.search && t.search[0] !== '?' ? '?' + t.search : t.search || ''
  let pathname = t.pathname || from.pathname
  if (pathname[0] !== '/') pathname = new URL(pathname, 'http://app' + from.pathname).pathname
  return { pathname, search, hash: t.hash || '' }
}
export const createPath = (l) => (l.pathname || '/') + (l.search || '') + (l.hash || '')
const current = () => ({ pathname: window.location.pathname, search: window.location.search, hash: window.location.hash })

export function BrowserRouter({ children }) {
  const [location, setLocation] = useState(current)
  const history = useMemo(() => ({
    go(to, replace, from) {
      const l = full(to, from)
      if (replace) window.history.replaceState(null, '', createPath(l))
      else window.history.pushState(null, '', createPath(l))
      setLocation(l)
    },
  }), [])
  useLayoutEffect(() => {
    const pop = () => setLocation(current())
    window.addEventListener('popstate', pop)
    return () => window.removeEventListener('popstate', pop)
  }, [])
  const value = useMemo(() => ({ location, history }), [location])
  return createElement(Ctx.Provider, { value }, children)
}
export const useLocation = () => useContext(Ctx).location
export function useNavigate() {
  const { location, history } = useContext(Ctx)
  const active = useRef(false)
  useEffect(() => { active.current = true })
  return useCallback((to, options = {}) => {
    if (!active.current) return
    if (typeof to === 'number') return window.history.go(to)
    history.go(to, !!options.replace, location)
  }, [location.pathname])
}
export const createSearchParams = (init = '') =>
  new URLSearchParams(
    typeof init === 'string' || Array.isArray(init) || init instanceof URLSearchParams
      ? init
      : Object.entries(init).flatMap(([k, v]) => (Array.isArray(v) ? v.map((x) => [k, x]) : [[k, v]]))
  )
export function useSearchParams(defaultInit) {
  const defaults = useRef(createSearchParams(defaultInit))
  const hasSet = useRef(false)
  const location = useLocation()
  const searchParams = useMemo(() => {
    const p = createSearchParams(location.search)
    if (!hasSet.current) for (const k of defaults.current.keys()) if (!p.has(k)) defaults.current.getAll(k).forEach((v) => p.append(k, v))
    return p
  }, [location.search])
  const navigate = useNavigate()
  const setSearchParams = useCallback((next, options) => {
    const p = createSearchParams(typeof next === 'function' ? next(searchParams) : next)
    hasSet.current = true
    navigate('?' + p, options)
  }, [navigate, searchParams])
  return [searchParams, setSearchParams]
}
export const useHref = (to) => createPath(full(to, useLocation()))
export const Link = forwardRef(function Link({ to, replace, onClick, reloadDocument, state, preventScrollReset, relative, children, ...rest }, ref) {
  const location = useLocation()
  const navigate = useNavigate()
  return createElement('a', {
    ...rest,
    href: createPath(full(to, location)),
    ref,
    onClick(e) {
      if (onClick) onClick(e)
      if (e.defaultPrevented || reloadDocument || (rest.target && rest.target !== '_self')) return
      e.preventDefault()
      const l = full(to, location)
      navigate(to, { replace: replace !== undefined ? replace : createPath(location) === createPath(l) })
    },
  }, children)
})
export const NavLink = Link
export const Routes = ({ children }) => children
export const Route = ({ element }) => element
export const useParams = () => ({})
export function Navigate({ to, replace }) {
  const navigate = useNavigate()
  useEffect(() => navigate(to, { replace }), [])
  return null
}
