// A stand-in for fuse.js: an item is found if one of its keys contains the query.
const at = (item, key) => (typeof key === 'object' && !Array.isArray(key) ? (key.getFn ? key.getFn(item) : at(item, key.name)) : (Array.isArray(key) ? key : String(key).split('.')).reduce((o, k) => (o === null || o === undefined ? undefined : o[k]), item))
export default class Fuse {
  constructor(list, options = {}) {
    this.list = [...list]
    this.options = options
  }
  setCollection(list) { this.list = [...list] }
  add(x) { this.list.push(x) }
  search(query, opt = {}) {
    const q = query.toLowerCase()
    const keys = this.options.keys || []
    const out = []
    this.list.forEach((item, refIndex) => {
      const texts = (keys.length ? keys.map((k) => at(item, k)) : [item]).flat().filter((x) => typeof x === 'string')
      if (q && texts.some((x) => x.toLowerCase().includes(q))) out.push({ item, refIndex, score: 0.001 })
    })
    return opt.limit ? out.slice(0, opt.limit) : out
  }
}
