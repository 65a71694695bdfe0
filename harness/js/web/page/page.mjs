// Drives the page: a user types, chooses languages, follows examples and goes
// back and forth, while worker answers, timers, renders and effects come at
// moments chosen at random, in virtual time.
//
//   node page.mjs BUNDLE.js INPUT.json OUTPUT.json
import fs from 'node:fs'
import vm from 'node:vm'

const [bundle, inputPath, outputPath] = process.argv.slice(2)
const input = JSON.parse(fs.readFileSync(inputPath, 'utf8'))
const script = new vm.Script(fs.readFileSync(bundle, 'utf8'), { filename: bundle })

const realSetImmediate = setImmediate
const settle = async () => {
  for (let i = 0; i < 3; i++) await new Promise((r) => realSetImmediate(r))
}
const set = (name, value) => Object.defineProperty(globalThis, name, { value, configurable: true, writable: true })

let now = 0
let timers = []
let timerID = 0
set('setTimeout', (fn, ms = 0, ...args) => {
  timers.push({ id: ++timerID, at: now + Math.max(0, ms || 0), fn: () => fn(...args) })
  return timerID
})
set('clearTimeout', (id) => { timers = timers.filter((t) => t.id !== id) })
set('requestAnimationFrame', (fn) => setTimeout(() => fn(now), 16))
set('cancelAnimationFrame', (id) => clearTimeout(id))
Date.now = () => now
performance.now = () => now
const errors = []
console.error = (...a) => errors.push(a.map(String).join(' '))
console.warn = () => {}
console.log = () => {}

let run = null
set('Worker', class {
  constructor(url) { this.url = String(url) }
  terminate() {}
  postMessage() {}
})
const later = (r, kind, value, fail) =>
  new Promise((resolve, reject) => { r.jobs.push({ kind, settle: () => (fail ? reject(new Error('failed: ' + kind)) : resolve(value)) }) })
set('__comlink', {
  expose() {},
  proxy: (v) => v,
  wrap(worker) {
    const r = run
    const isMain = /hangulize\.worker/.test(worker.url)
    return new Proxy({}, {
      get(_, name) {
        if (name === 'then') return undefined
        return (...args) => {
          if (!isMain) return later(r, name, 'T')
          switch (name) {
            case 'hangulize': return later(r, name, r.resultOf(args[0], args[1]), r.failing(args[1]))
            case 'getVersion': return later(r, name, 'worker-version')
            case 'getSpecs': return later(r, name, r.specs)
            default: return later(r, name, undefined)
          }
        }
      },
    })
  },
})

function rng(seed) {
  let s = seed >>> 0
  return (n) => {
    s = (Math.imul(s, 1664525) + 1013904223) >>> 0
    return Math.floor((s / 4294967296) * n)
  }
}

// The window: an address, a history, listeners and a size.
function makeWindow(url) {
  const entries = [new URL(url, 'http://app/').href]
  let at = 0
  const listeners = {}
  const w = {
    at: () => at, entries, width: 10,
    url: () => new URL(entries[at]),
    fire(type) { for (const f of [...(listeners[type] || [])]) f({ type, preventDefault() {} }) },
    addEventListener(type, f) { (listeners[type] = listeners[type] || new Set()).add(f) },
    removeEventListener(type, f) { if (listeners[type]) listeners[type].delete(f) },
    listening: (type) => (listeners[type] ? listeners[type].size : 0),
    history: {
      get length() { return entries.length },
      state: null,
      pushState(_, __, to) { entries.splice(at + 1); entries.push(new URL(to, entries[at]).href); at++ },
      replaceState(_, __, to) { entries[at] = new URL(to, entries[at]).href },
      go(n) { if (n && at + n >= 0 && at + n < entries.length) { at += n; w.fire('popstate') } },
      back() { w.history.go(-1) },
      forward() { w.history.go(1) },
    },
    location: {
      get href() { return entries[at] },
      get pathname() { return new URL(entries[at]).pathname },
      get search() { return new URL(entries[at]).search },
      get hash() { return new URL(entries[at]).hash },
      get origin() { return 'http://app' },
    },
    matchMedia: () => ({ matches: false, addEventListener() {}, removeEventListener() {}, addListener() {} }),
  }
  return w
}

// The text fits up to the size best.
const hash = (s) => [...s].reduce((h, c) => (Math.imul(h, 31) + c.codePointAt(0)) >>> 0, 7)
const best = (text, width) => (text === '…' ? 4 : (hash(text) + width) % 5)
const sizeOf = (n) => { const m = n && /(?:^|\s)size-([1-5])(?:\s|$)/.exec(n.className); return m ? Number(m[1]) - 1 : -1 }
const sizedAbove = (n) => { for (; n; n = n.parentNode) if (sizeOf(n) >= 0) return n; return null }

async function schedule(seed) {
  const rnd = rng(seed * 7919 + 29)
  for (let i = 0; i < 5; i++) rnd(2)
  const any = (a) => a[rnd(a.length)]
  now = 0
  timers = []
  errors.length = 0
  set('__vrandom', null)
  Math.random = () => rnd(1 << 30) / (1 << 30)
  const known = Object.keys(input.manifest.specs)
  const r = {
    jobs: [], specs: {},
    resultOf: (lang, word) => (/^empty/.test(word) ? '' : /^blank/.test(word) ? '  ' : /^ pad/.test(word) ? ` ‹${lang}:${word}›\n` : `‹${lang}:${word}›`),
    failing: (word) => /^fail/.test(word),
  }
  for (const l of known) r.specs[l] = { ...input.manifest.specs[l] }
  // The worker may know another language, and call one otherwise.
  if (rnd(3) > 0) {
    const l = any(known)
    r.specs[l] = { ...r.specs[l], lang: { ...r.specs[l].lang, english: 'Renamed', korean: any(['새말', '가새말', '힣말']) } }
  }
  if (rnd(3) > 0) r.specs.late = { lang: { id: 'late', code2: 'lt', code3: 'lte', english: 'Late', korean: '늦은말', script: 'Latn', translit: [] }, test: [{ word: 'soon', result: 'x' }] }
  r.langs = input.manifest.specs // those the page knows
  run = r
  const log = []
  const problems = []
  const problem = (what) => { if (problems.length < 5) problems.push(what) }

  // The address at the start.
  const words = ['roma', 'c a', 'a&b', 'a+b', 'a=b#c', '100%', '東京', "l'eau", 'Ĉu vi pretas?', '한글']
  const enc = (s) => (rnd(2) ? encodeURIComponent(s) : encodeURIComponent(s).replace(/%20/g, '+'))
  const lang0 = any(known)
  const word0 = any(words)
  const start = any([
    '', '', `?lang=${lang0}`, `?lang=${lang0}`, `?word=${enc(word0)}`, `?lang=${lang0}&word=${enc(word0)}`, `?word=${enc(word0)}&lang=${lang0}`,
    `?lang=&word=${enc(word0)}`, '?lang=', '?lang=&word=', `?lang=${lang0}&word=`, `?x=1&lang=${lang0}&word=${enc(word0)}`, `?word=`,
  ])
  const has = { lang: new URLSearchParams(start).get('lang') || null, word: new URLSearchParams(start).get('word') }
  const win = makeWindow('/' + start)
  set('window', win)
  set('location', win.location)
  set('history', win.history)
  set('addEventListener', win.addEventListener)
  set('removeEventListener', win.removeEventListener)
  set('document', { title: '', getElementById: () => ({}), querySelector: () => ({}), addEventListener() {}, removeEventListener() {}, documentElement: {}, body: {} })
  const heights = { fits: any([128, 100, 1]), not: any([129, 200, 900]) }
  set('__height', (node) => {
    const sized = sizedAbove(node)
    if (!sized) return 0
    return sizeOf(sized) <= best(sized.textContent, win.width) ? heights.fits : heights.not
  })
  set('getComputedStyle', (node) => ({ maxHeight: sizeOf(sizedAbove(node)) === 0 ? 'none' : '128px' }))
  win.getComputedStyle = globalThis.getComputedStyle

  script.runInThisContext()
  const page = globalThis.__page
  const address = () => { const p = win.url().searchParams; return { lang: p.get('lang'), word: p.get('word') } }

  // What the page shows.
  const see = () => {
    const all = page.nodes()
    const v = { input: null, dropdown: null, result: null, examples: [], shuffle: null, version: null }
    const inside = (n, c) => { for (; n; n = n.parentNode) if (n.classes.includes(c)) return true; return false }
    for (const n of all) {
      if (!v.dropdown && n.props.options && n.props.onChange) v.dropdown = n
      else if (!v.input && n.props.onChange && n.props.value !== undefined && !n.props.options) v.input = n
      if (!v.result && n.classes.includes('result')) v.result = n
      if (inside(n, 'examples')) {
        if (n.type === 'a' && n.props.href !== undefined) v.examples.push(n)
        else if (n.props.onClick && n.type !== 'a' && !v.shuffle) v.shuffle = n
      }
      if (n.classes.includes('version')) v.version = n.textContent
    }
    v.text = v.result ? v.result.textContent : ''
    v.dim = !!v.result && v.result.classes.includes('loading')
    v.spin = all.some((n) => n.props.loading === true)
    return v
  }

  const inputs = [] // the addresses in the order of their appearance
  let shown = -1
  const noteAddress = () => {
    const a = address()
    const last = inputs[inputs.length - 1]
    if (a.lang && (!last || last.lang !== a.lang || last.word !== (a.word || ''))) inputs.push({ lang: a.lang, word: a.word || '' })
  }
  const valid = (a) => !!(a.word || '').trim() && r.specs[a.lang] !== undefined
  const wantOf = (a) => (!valid(a) || r.failing(a.word) ? '' : r.resultOf(a.lang, a.word).trim())
  let count = 0
  let commits = 0
  let entries = 1
  const commit = () => {
    page.render()
    noteAddress()
    commits++
    const v = see()
    log.push(['render', v.text, v.dim])
    if (v.text !== '' && v.text !== '…') {
      const of = inputs.map((a, k) => (valid(a) && wantOf(a) === v.text ? k : -1)).filter((k) => k >= 0)
      const i = of.find((k) => k >= shown)
      if (of.length === 0) problem('a text which is the result of no address is shown: ' + v.text)
      else if (i === undefined) problem(`the result of the address ${of.at(-1)} is shown after that of ${shown}`)
      else shown = i
    }
    if (v.input && !String(v.input.props.value).trim() && (v.text || v.spin)) problem(`for a blank word ${JSON.stringify(v.text)} is shown`)
    if (v.text === '…' && !v.dim) problem('the result is expected, but not shown as being loaded')
    if (v.dim && !v.spin) problem('the result is shown as being loaded, the input is not')
    if (v.result && v.text && sizeOf(v.result) >= 0) {
      const b = best(v.text, win.width)
      if (sizeOf(v.result) !== b) problem(`the result has size ${sizeOf(v.result) + 1} where ${b + 1} is the largest which fits`)
      r.sized.add(`${b}/${sizeOf(v.result)}`)
    } else if (v.result && v.text) problem('the result has no size')
  }
  r.sized = new Set()
  const event = (v) => ({ target: { value: v }, currentTarget: { value: v }, button: 0, defaultPrevented: false, preventDefault() { this.defaultPrevented = true }, stopPropagation() {}, persist() {} })
  // A user's action is rendered at once, with its effects.
  const user = (f) => {
    for (let i = 0; i < 10 && (page.effects.length || page.detached.length || page.isDirty()); i++) {
      page.flushEffects()
      if (page.isDirty()) commit()
    }
    f(see())
    entries = win.entries.length
    if (page.isDirty()) { commit(); page.flushEffects() }
    noteAddress()
    if (r.shuffled) {
      // Five of many are others then.
      const l = address().lang
      if (r.shuffled.length === 5 && r.specs[l] && r.specs[l].test.length > 8) {
        kinds.shuffledMany = (kinds.shuffledMany || 0) + 1
        if (see().examples.some((n, i) => n.textContent !== r.shuffled[i])) kinds.shuffledOther = (kinds.shuffledOther || 0) + 1
      }
      r.shuffled = null
    }
  }
  const click = (node) => {
    const e = event()
    for (let n = node; n; n = n.parentNode) if (n.props.onClick) n.props.onClick(e, n.props)
    return e
  }
  const calm = () => {
    if (page.isDirty() || page.effects.length) return
    const a = address()
    const v = see()
    if (!v.input || !v.dropdown) return problem('there is no input, or no choice of a language')
    if (!a.lang || r.specs[a.lang] === undefined) return problem('the address has no language: ' + win.url().search)
    if (v.input.props.value !== (a.word || '')) problem(`the input shows ${JSON.stringify(v.input.props.value)} at ${win.url().search}`)
    if (v.dropdown.props.value !== a.lang) problem(`the language ${v.dropdown.props.value} is shown at ${win.url().search}`)
    if (document.title !== '한글라이즈' + (a.word ? ': ' + a.word : '')) problem(`the title is ${JSON.stringify(document.title)} at ${win.url().search}`)
    if (win.entries.length !== entries) problem(`the history has ${win.entries.length} entries instead of ${entries}`)
    const blank = inputs.some((x) => /^blank/.test(x.word))
    if (v.spin && !v.text && !blank) problem('something is being loaded, but neither an ellipsis nor a result is shown')
    if (valid(a) && wantOf(a) && !v.text && !v.spin && !blank) problem('nothing shows that a result is expected')
    if (!valid(a) && (v.text || v.dim || v.spin)) problem('something is shown or loaded for nothing')
    if (has.lang && inputs.length && inputs[0].lang !== has.lang) problem('the language of the first address is lost')
    if (has.word !== null && inputs.length && inputs[0].word !== has.word) problem('the word of the first address is lost')
    const tests = r.specs[a.lang].test
    const texts = v.examples.map((n) => n.textContent)
    if (texts.length !== Math.min(5, tests.length)) problem(`${texts.length} examples are shown for ${a.lang}`)
    const left = tests.map((t) => t.word)
    for (const t of texts) {
      const i = left.indexOf(t)
      if (i < 0) problem(`the example ${JSON.stringify(t)} is none of ${a.lang}, or shown twice`)
      else left.splice(i, 1)
    }
    if (valid(a) && !r.failing(a.word) && timers.length === 0 && r.jobs.length > 0 && v.text !== wantOf(a) && !v.dim && !v.spin) problem('the result of another address is shown long, and not as being loaded')
    return true
  }
  const act = (finish) => {
    const choices = []
    if (page.isDirty()) choices.push('render', 'render', 'render')
    if (page.effects.length) choices.push('effects', 'effects', 'effects')
    if (timers.length) choices.push('timer')
    for (let i = 0; i < Math.min(3, r.jobs.length); i++) choices.push('job')
    if (!finish && commits > 0) choices.push('user')
    if (choices.length === 0) return false
    const c = any(choices)
    switch (c) {
      case 'render': commit(); break
      case 'effects': page.flushEffects(); log.push(['effects']); noteAddress(); break
      case 'timer': {
        timers.sort((a, b) => a.at - b.at || a.id - b.id)
        const t = timers.shift()
        now = Math.max(now, t.at)
        log.push(['timer', now])
        t.fn()
        break
      }
      case 'job': {
        const j = r.jobs.splice(rnd(r.jobs.length), 1)[0]
        log.push(['job', j.kind])
        if (j.kind === 'getSpecs') r.langs = null
        j.settle()
        break
      }
      case 'user': user(action); break
    }
    return true
  }
  const kinds = {}
  const action = (v) => {
    if (!v.input || !v.dropdown) return
    count++
    const before = address()
    const length = win.entries.length
    const at = win.at()
    const others = [...win.url().searchParams].filter(([k]) => k !== 'lang' && k !== 'word').join(';')
    const expect = (lang, word, entries) => {
      const a = address()
      if (a.lang !== lang || a.word !== word) problem(`the address is ${win.url().search} instead of lang ${lang}, word ${JSON.stringify(word)}`)
      if (entries !== undefined && (win.entries.length !== entries || win.at() !== at + entries - length)) problem('the history has another length: ' + win.entries.length + ' instead of ' + entries)
      const o = [...win.url().searchParams].filter(([k]) => k !== 'lang' && k !== 'word').join(';')
      if (entries === length && o !== others && others === r.others) problem('the other parameters of the address are lost')
    }
    if (r.others === undefined) r.others = others
    const kind = any(['type', 'type', 'type', 'choose', 'choose', 'search', 'example', 'example', 'shuffle', 'back', 'resize', 'resize'])
    kinds[kind] = (kinds[kind] || 0) + 1
    switch (kind) {
      case 'type': {
        const w = any(['w' + count, 'w' + count, 'w' + count + 'x'.repeat(rnd(40)), '', '  ', ' pad' + count + ' ', 'fail' + count, 'empty' + count, 'blank' + count, 'a+b' + count, 'c&lang=x' + count, '100%' + count, '한' + count, 'e\u0301\u1112\u1161' + count, 'Ａﬁ\u00a0' + count, before.word || '', (before.word || '') + ' ', (before.word || '').toUpperCase()])
        log.push(['type', w])
        v.input.props.onChange(event(w), { ...v.input.props, value: w })
        expect(before.lang, w, length)
        break
      }
      case 'choose':
      case 'search': {
        let options = v.dropdown.props.options
        if (kind === 'search') {
          if (!r.langs) return
          const l = any(Object.keys(r.langs))
          const q = any(queries(r.langs[l].lang, rnd))
          if (!options.some((o) => o.value === l)) return
          options = found(v.dropdown, q)
          const o = options.find((o) => o.value === l)
          log.push(['search', q, l])
          if (!o) return problem(`the language ${l} isn't found by ${JSON.stringify(q)}`)
          options = [o]
        }
        let o = any(options)
        if (rnd(3) === 0 && before.lang && r.specs[before.lang]) {
          // Another scheme of the same language.
          const same = options.filter((x) => x.value !== before.lang && r.specs[x.value] && r.specs[x.value].lang.code3 === r.specs[before.lang].lang.code3)
          if (same.length) o = any(same)
        }
        log.push(['choose', o.value])
        v.dropdown.props.onChange(event(o.value), { ...v.dropdown.props, value: o.value })
        expect(o.value, before.word || '', length)
        break
      }
      case 'example': {
        if (!v.examples.length) return
        const x = any(v.examples)
        const text = x.textContent
        const other = before.lang !== null && before.word !== text
        log.push(['example', text])
        const e = click(x)
        if (!e.defaultPrevented) { win.history.pushState(null, '', x.props.href); win.fire('popstate') }
        const a = address()
        if (a.lang !== before.lang || a.word !== text) problem(`the example ${JSON.stringify(text)} of ${before.lang} leads to ${win.url().search}`)
        else if (other && (win.at() !== at + 1 || win.entries.length !== at + 2)) problem('an example leaves no entry in the history')
        break
      }
      case 'shuffle':
        if (!v.shuffle) return v.examples.length ? problem('the examples cannot be shuffled') : undefined
        { log.push(['shuffle']); click(v.shuffle); r.shuffled = v.examples.map((n) => n.textContent); if (win.entries.length !== length) problem('to shuffle the examples changes the address') }
        break
      case 'back': {
        const n = any([-1, -1, 1])
        log.push(['go', n])
        win.history.go(n)
        break
      }
      case 'resize':
        win.width = 10 + rnd(10)
        log.push(['resize', win.width])
        win.fire('resize')
        // The next render shows it in its new size.
        if (!page.isDirty()) {
          const s = see()
          if (s.result && s.text && sizeOf(s.result) !== best(s.text, win.width)) problem(`after a resize the result has size ${sizeOf(s.result) + 1} where ${best(s.text, win.width) + 1} is the largest which fits`)
        }
        break
    }
  }

  try {
    commit()
    const steps = 1 + rnd(input.steps)
    for (let i = 0; i < steps && problems.length === 0; i++) {
      act(false)
      if (rnd(3) > 0) { await settle(); r.langs = r.langs || r.specs; calmOnce() }
    }
    for (let i = 0; problems.length === 0; i++) {
      await settle()
      calmOnce()
      if (!act(true)) {
        await settle()
        if (!page.isDirty() && page.effects.length === 0 && timers.length === 0 && r.jobs.length === 0) break
      }
      if (i > 3000) problem('the page never comes to rest')
    }
    if (problems.length === 0) {
      if (!calm()) problem('the page is not calm at rest')
      const a = address()
      const v = see()
      if (v.text !== wantOf(a)) problem(`at rest, ${JSON.stringify(v.text)} is shown instead of ${JSON.stringify(wantOf(a))} at ${win.url().search}`)
      if (v.dim || v.spin) problem('at rest, something is still being loaded at ' + win.url().search)
      if (win.listening('resize') > 6) problem(`${win.listening('resize')} listeners wait for a resize`)
      if (!v.version || !v.version.includes('worker-version')) problem('the version is ' + v.version)
      const values = v.dropdown.props.options.map((o) => o.value)
      if (JSON.stringify([...values].sort()) !== JSON.stringify(Object.keys(r.specs).sort())) problem('the languages to choose are ' + values)
      const hangul = v.dropdown.props.options.map((o) => o.text).filter((t) => /^[가-힣]+$/.test(t))
      for (let i = 1; i < hangul.length; i++) if (hangul[i - 1] > hangul[i]) problem(`the languages are not in order: ${hangul[i - 1]}, ${hangul[i]}`)
      for (const o of v.dropdown.props.options) if (r.specs[o.value] && o.text !== r.specs[o.value].lang.korean) problem(`the language ${o.value} is called ${o.text}`)
      if (has.word === null && inputs.length && r.specs[inputs[0].lang].test.length && count === 0 && !r.specs[inputs[0].lang].test.some((t) => t.word === a.word)) problem('no example is chosen for an address without a word: ' + win.url().search)
      if (input.all) {
        for (const l of Object.keys(r.specs)) {
          for (const q of queries(r.specs[l].lang, null)) {
            if (!found(v.dropdown, q).some((o) => o.value === l)) problem(`the language ${l} isn't found by ${JSON.stringify(q)}`)
            kinds.searched = (kinds.searched || 0) + 1
          }
        }
      }
    }
  } catch (e) {
    problem('the page crashes: ' + String((e && e.stack) || e).slice(0, 600))
  }
  function calmOnce() {
    if (problems.length === 0 && commits > 0 && inputs.length) { if (calm()) r.calm = (r.calm || 0) + 1 }
  }
  return {
    seed, start, problems, actions: count, renders: page.renders, calm: r.calm || 0, kinds, sizes: [...r.sized],
    shape: log.map((e) => e[0][0]).join(''), log: problems.length ? log : undefined,
  }
}

// found are the options which a Dropdown offers for a query: those which its
// function chooses, or else those with the query in their text.
const found = (dropdown, q) => {
  const { search, options } = dropdown.props
  if (typeof search === 'function') return search(options, q)
  return search ? options.filter((o) => String(o.text).toLowerCase().includes(q.toLowerCase())) : []
}

// queries are what a user may type to find a language.
const lead = [...'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ']
const tails = [...' ㄱㄲ?ㄴ??ㄷㄹ???????ㅁㅂ?ㅅㅆㅇㅈㅊㅋㅌㅍㅎ']
function queries(lang, rnd) {
  const initials = [...lang.korean].map((c) => { const n = c.charCodeAt(0) - 0xac00; return n >= 0 && n < 11172 ? lead[Math.floor(n / 588)] : c }).join('')
  const n = 1 + (rnd ? rnd(lang.korean.length) : 1)
  const q = [lang.code2, lang.code3, lang.english, lang.english.toLowerCase(), lang.korean, initials, lang.korean.slice(0, n)]
  // While "이탈" is typed, it is "ㅇ", "이", "잍", "이타" and "이탈".
  for (const k of rnd ? [n] : [1, 2]) {
    const last = lang.korean.charCodeAt(k - 1) - 0xac00
    const t = tails.indexOf(initials[k] || ' ')
    if (last >= 0 && last < 11172 && last % 28 === 0 && t > 0) q.push(lang.korean.slice(0, k - 1) + String.fromCharCode(0xac00 + last + t))
  }
  return q.filter(Boolean)
}

const out = { runs: [], unhandled: [] }
process.on('unhandledRejection', (e) => out.unhandled.push(String(e && e.stack)))
for (const seed of input.seeds) {
  out.runs.push(await schedule(seed))
  if (out.runs.filter((x) => x.problems.length).length > 2 || out.unhandled.length) break
}
const total = (k) => out.runs.reduce((n, x) => n + (x.kinds[k] || 0), 0)
if (total('shuffledMany') > 20 && total('shuffledOther') * 2 < total('shuffledMany')) out.runs.at(-1).problems.push(`${total('shuffledMany')} times the examples were shuffled, and ${total('shuffledOther')} times there were others`)
fs.writeFileSync(outputPath, JSON.stringify(out))
process.exit(0)
