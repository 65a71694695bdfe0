// A stand-in for comlink: the driver decides what is behind it.
export const wrap = (endpoint) => globalThis.__comlink.wrap(endpoint)
export const expose = (api) => globalThis.__comlink.expose(api)
export const proxy = (value) => globalThis.__comlink.proxy(value)
export const releaseProxy = Symbol('releaseProxy')
