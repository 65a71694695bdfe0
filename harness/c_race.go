package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
)

func init() {
	checks["C02"] = checkConcurrency
	children["concurrent"] = concurrentChild
}

// raceReport is what a scenario observed.
type raceReport struct {
	Fails     []map[string]any
	Ops       map[string]int64
	Results   map[string]string // sequential results of another process are compared
	Histories int
	Overlaps  int64 // pairs of operations of a history that overlapped
}

type racer struct {
	mu   sync.Mutex
	rep  raceReport
	r    *rand.Rand
	seed int64
	n    int // operations per goroutine
}

func (x *racer) fail(what string, detail map[string]any) {
	x.mu.Lock()
	if len(x.rep.Fails) < 5 {
		detail["what"] = what
		x.rep.Fails = append(x.rep.Fails, detail)
	}
	x.mu.Unlock()
}

func (x *racer) count(name string, n int) {
	x.mu.Lock()
	x.rep.Ops[name] += int64(n)
	x.mu.Unlock()
}

func (x *racer) result(key, val string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if old, ok := x.rep.Results[key]; ok && old != val {
		if len(x.rep.Fails) < 5 {
			x.rep.Fails = append(x.rep.Fails, map[string]any{"what": "concurrent calls for the same word return different results", "key": key, "one": old, "other": val})
		}
	}
	x.rep.Results[key] = val
}

// pause disturbs the schedule.
func pause(r *rand.Rand) {
	switch r.Intn(12) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
	case 4:
		for i := r.Intn(2000); i > 0; i-- {
			runtime.KeepAlive(i)
		}
	}
}

// together starts n goroutines at the same moment and waits for them.
func (x *racer) together(n int, f func(g int, r *rand.Rand)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(x.r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if p := Try(func() { f(g, r) }); p != nil {
				x.fail("a concurrent call panics", map[string]any{"panic": p.Error()})
			}
		}()
	}
	close(start)
	wg.Wait()
}

// raceInput is the input of a scenario, by language.
var raceInput map[string]raceLang

type raceLang struct {
	Source string
	Words  []string
}

// raceLight leaves the languages out whose Translit takes seconds to load.
var raceLight bool

func inputPath() string { return filepath.Join(work(), "race-input.json") }

// raceLangs are the bundled languages, without their models.
func raceLangs() []*Lang {
	var out []*Lang
	for _, n := range sortedKeys(raceInput) {
		if raceLight && strings.HasPrefix(n, "jpn") {
			continue
		}
		out = append(out, &Lang{Name: n, Source: raceInput[n].Source})
	}
	return out
}

func raceLangNamed(name string) *Lang {
	x, ok := raceInput[name]
	if !ok || raceLight && strings.HasPrefix(name, "jpn") {
		return nil
	}
	return &Lang{Name: name, Source: x.Source}
}

// raceWords are the words which scenarios use: few per language.
func raceWords(l *Lang) []string {
	if raceInput != nil {
		return raceInput[l.Name].Words
	}
	r := (&Ctx{ID: "C02", Seed: 1}).Rng("words/" + l.Name)
	var out []string
	for i := 0; i < 6 && len(l.Seeds) > 0; i++ {
		out = append(out, pick(r, l.Seeds))
	}
	for i := 0; i < 4; i++ {
		out = append(out, l.NativeWord(r)+pick(r, []string{"", " ", "1", "!"})+l.NativeWord(r))
	}
	return out
}

func (x *racer) transcribed(lang, word, got string, err error) {
	if err != nil {
		x.fail("a transcription fails", map[string]any{"lang": lang, "word": word, "error": err.Error()})
		return
	}
	x.result(lang+"\t"+word, got)
}

var scenarios = map[string]func(x *racer){
	// The very first calls of the process, at once.
	"cold": func(x *racer) {
		translit.Install()
		langs := raceLangs()
		x.together(16, func(g int, r *rand.Rand) {
			for i := 0; i < x.n; i++ {
				l := langs[(r.Intn(3)+i*7+int(x.seed))%len(langs)]
				w := pick(r, raceWords(l))
				got, err := hangulize.Hangulize(l.Name, w)
				x.transcribed(l.Name, w, got, err)
				x.count("Hangulize", 1)
			}
		})
	},
	// The first use of the standard Translits.
	"translits": func(x *racer) {
		var ts []hangulize.Translit
		for _, t := range translit.Translits() {
			if !raceLight || t.Scheme() != "furigana" {
				ts = append(ts, t)
			}
		}
		if !raceLight {
			ts = append(ts[:1:1], ts...) // the first use of furigana is what matters
		}
		words := map[int][]string{}
		for i, t := range ts {
			name := map[string]string{"furigana": "jpn", "pinyin": "chi"}[t.Scheme()]
			if name == "" {
				name = "rus"
			}
			if l := raceLangNamed(name); l != nil {
				words[i] = append(raceWords(l), "shch", "zhukov", "すゞめ", "東京都")
			}
		}
		x.together(16, func(g int, r *rand.Rand) {
			for i := 0; i < x.n; i++ {
				k := r.Intn(len(ts))
				if i == 0 {
					k = int(x.seed) % len(ts)
					if !raceLight {
						k = 0
					}
				}
				w := pick(r, words[k])
				got, err := ts[k].Transliterate(w)
				x.transcribed("translit "+ts[k].Scheme(), w, got, err)
				x.count("Transliterate", 1)
			}
		})
	},
	// The cache of specs under loading, unloading and use.
	"cache": func(x *racer) {
		translit.Install()
		langs := raceLangs()
		var pool []*Lang
		for i := 0; i < 4; i++ {
			pool = append(pool, langs[x.r.Intn(len(langs))])
		}
		small := pool
		x.together(12, func(g int, r *rand.Rand) {
			for i := 0; i < x.n; i++ {
				l := small[r.Intn(len(small))]
				switch r.Intn(6) {
				case 0:
					hangulize.UnloadSpec(l.Name)
					x.count("UnloadSpec", 1)
				case 1:
					s, err := hangulize.LoadSpec(l.Name)
					if err != nil || s == nil || s.Source != l.Source {
						x.fail("LoadSpec gives a wrong spec", map[string]any{"lang": l.Name, "error": fmt.Sprint(err)})
					}
					x.count("LoadSpec", 1)
				case 2:
					if n := len(hangulize.ListLangs()); n != len(raceInput) {
						x.fail("ListLangs gives a wrong list", map[string]any{"len": n})
					}
					x.count("ListLangs", 1)
				case 3:
					if s, err := hangulize.LoadSpec("no" + l.Name); s != nil || !errors.Is(err, hangulize.ErrSpecNotFound) {
						x.fail("an unknown language is loaded", map[string]any{"error": fmt.Sprint(err)})
					}
					if r.Intn(2) == 0 {
						hangulize.UnloadSpec("no" + l.Name)
					}
				default:
					w := pick(r, raceWords(l))
					got, err := hangulize.Hangulize(l.Name, w)
					x.transcribed(l.Name, w, got, err)
					x.count("Hangulize", 1)
				}
				pause(r)
			}
		})
	},
	// One Hangulizer shared by all.
	"shared": func(x *racer) {
		langs := raceLangs()
		for round := 0; round < 4; round++ {
			l := langs[x.r.Intn(len(langs))]
			if round == 0 {
				if j := raceLangNamed(pick(x.r, []string{"jpn", "chi", "rus", "jpn-ck"})); j != nil {
					l = j
				}
			}
			spec, err := hangulize.LoadSpec(l.Name)
			if err != nil {
				x.fail("a bundled language is not loaded", map[string]any{"lang": l.Name, "error": err.Error()})
				return
			}
			h := hangulize.New(spec)
			translit.Install(h)
			x.together(12, func(g int, r *rand.Rand) {
				for i := 0; i < x.n; i++ {
					switch {
					case g == 0 && i%4 == 0:
						h.UseTranslit(&sleepy{scheme: "other", r: r.Int63()})
						h.UnuseTranslit("other")
						x.count("UseTranslit", 1)
					case g == 1 && i%4 == 0:
						for range h.Translits() {
						}
						x.count("Translits", 1)
					case g == 2 && i%8 == 0:
						if h.Spec() != spec {
							x.fail("Spec gives another spec", map[string]any{})
						}
					default:
						w := pick(r, raceWords(l))
						got, err := h.Hangulize(w)
						x.transcribed(l.Name, w, got, err)
						x.count("Hangulize", 1)
					}
				}
			})
		}
	},
	// Hangulizers of their own over the same spec, with traces.
	"traced": func(x *racer) {
		langs := raceLangs()
		l := langs[x.r.Intn(len(langs))]
		x.together(10, func(g int, r *rand.Rand) {
			for i := 0; i < x.n/2; i++ {
				h, err := l.hangulizer()
				if err != nil {
					x.fail("a bundled language is not loaded", map[string]any{"lang": l.Name, "error": err.Error()})
					return
				}
				w := pick(r, raceWords(l))
				o := observe(h, w)
				if o.Panic != "" {
					x.fail("a transcription panics", map[string]any{"panic": o.Panic})
				}
				x.result("traced "+l.Name+"\t"+w, fmt.Sprintf("%q", o))
				x.count("traced Hangulize", 1)
				if r.Intn(4) == 0 {
					s, err := hangulize.ParseSpec(strings.NewReader(l.Source))
					if err != nil {
						x.fail("a bundled spec is not parsed", map[string]any{"error": err.Error()})
					} else if s.String() == "" {
						x.fail("a spec has no name", map[string]any{})
					}
					for _, rule := range s.Rewrite[:min(len(s.Rewrite), 3)] {
						_ = rule.String()
						_ = rule.From.Letters()
						rule.Replace(w)
					}
					x.count("ParseSpec", 1)
				}
			}
		})
	},
	// Generated specs are parsed and used at once.
	"parse": func(x *racer) {
		type gen struct {
			text  string
			words []string
		}
		var gens []gen
		for i := 0; i < 6; i++ {
			g := randSpec(x.r, 4, 4)
			var ws []string
			for k := 0; k < 5; k++ {
				w := ""
				for m := 0; m < 6; m++ {
					w += pick(x.r, append(g.G.Letters, " ", "1"))
				}
				ws = append(ws, w)
			}
			gens = append(gens, gen{g.Text(), ws})
		}
		x.together(12, func(g int, r *rand.Rand) {
			for i := 0; i < x.n; i++ {
				k := r.Intn(len(gens))
				s, err := hangulize.ParseSpec(strings.NewReader(gens[k].text))
				if err != nil {
					continue
				}
				w := pick(r, gens[k].words)
				out := ""
				if p := Try(func() {
					got, err := hangulize.New(s).Hangulize(w)
					out = fmt.Sprintf("%q %v", got, err)
				}); p != nil {
					out = "panic: " + strings.SplitN(p.Error(), "\n", 2)[0]
				}
				x.result("gen "+gens[k].text+"\t"+w, out)
				x.count("ParseSpec", 1)
			}
		})
	},
	// The registries, with linearizability of their histories.
	"registry": func(x *racer) {
		spec, err := hangulize.ParseSpec(strings.NewReader(specWithTranslits([]string{"s0", "s1"})))
		if err != nil {
			x.fail("a spec is not parsed", map[string]any{"error": err.Error()})
			return
		}
		for round := 0; round < 10+x.n/2; round++ {
			h := hangulize.New(spec)
			useDefault := round%2 == 0
			var clock int64
			var mu sync.Mutex
			events := map[string][]event{}
			record := func(scheme string, e event) {
				mu.Lock()
				events[scheme] = append(events[scheme], e)
				mu.Unlock()
			}
			use, unuse, all := h.UseTranslit, h.UnuseTranslit, h.Translits
			if useDefault {
				use, unuse, all = hangulize.UseTranslit, hangulize.UnuseTranslit, hangulize.Translits
			}
			var ids int64
			x.together(6, func(g int, r *rand.Rand) {
				for i := 0; i < 8; i++ {
					s := fmt.Sprintf("s%d", r.Intn(2))
					pause(r)
					switch r.Intn(5) {
					case 0, 1:
						t := &sleepy{scheme: s, id: atomic.AddInt64(&ids, 1), r: r.Int63(), reenter: r.Intn(2) == 0}
						e := event{kind: 'u', id: t.id, start: atomic.AddInt64(&clock, 1)}
						e.ok = use(t)
						e.end = atomic.AddInt64(&clock, 1)
						record(s, e)
					case 2:
						e := event{kind: 'r', start: atomic.AddInt64(&clock, 1)}
						e.ok = unuse(s)
						e.end = atomic.AddInt64(&clock, 1)
						record(s, e)
					case 3:
						a := atomic.AddInt64(&clock, 1)
						m := all()
						b := atomic.AddInt64(&clock, 1)
						for _, s := range []string{"s0", "s1"} {
							e := event{kind: 'g', start: a, end: b}
							if t, ok := m[s].(*sleepy); ok {
								e.id = t.id
							}
							record(s, e)
						}
						m["s0"] = &sleepy{scheme: "s0"} // it is ours
					default:
						got, err := "", error(nil)
						if useDefault {
							// A language of the package needs a Translit which is missing.
							got, err = hangulize.Hangulize("jpn", "カナ")
							if !errors.Is(err, hangulize.ErrTranslitNotImported) {
								x.fail("a missing Translit is not reported", map[string]any{"result": got, "error": fmt.Sprint(err)})
							}
						} else if got, err = h.Hangulize("ab"); err != nil && !errors.Is(err, hangulize.ErrTranslitNotImported) {
							x.fail("a transcription fails", map[string]any{"result": got, "error": err.Error()})
						}
					}
				}
			})
			for s, es := range events {
				x.rep.Histories++
				for i := range es {
					for j := range es[:i] {
						if es[i].start < es[j].end && es[j].start < es[i].end {
							x.rep.Overlaps++
						}
					}
				}
				x.count("registry operations", len(es))
				if !linearizable(es, registryStep) {
					x.fail("the history of a registry has no sequential explanation", map[string]any{"scheme": s, "default": useDefault, "history": fmt.Sprint(es)})
				}
			}
			if useDefault {
				hangulize.UnuseTranslit("s0")
				hangulize.UnuseTranslit("s1")
			}
		}
	},
	// The spec cache, with linearizability of its histories.
	"cachehistory": func(x *racer) {
		langs := raceLangs()
		sort.Slice(langs, func(i, j int) bool { return len(langs[i].Source) < len(langs[j].Source) })
		for round := 0; round < 4+x.n/8; round++ {
			names := []string{langs[x.r.Intn(8)].Name, langs[8+x.r.Intn(4)].Name}
			for _, n := range names {
				hangulize.UnloadSpec(n)
			}
			var clock int64
			var mu sync.Mutex
			events := map[string][]event{}
			ids := map[*hangulize.Spec]int64{}
			x.together(6, func(g int, r *rand.Rand) {
				for i := 0; i < 8; i++ {
					n := names[r.Intn(2)]
					pause(r)
					e := event{start: atomic.AddInt64(&clock, 1)}
					if r.Intn(3) == 0 {
						e.kind = 'x'
						hangulize.UnloadSpec(n)
						e.end = atomic.AddInt64(&clock, 1)
					} else {
						e.kind = 'l'
						s, err := hangulize.LoadSpec(n)
						e.end = atomic.AddInt64(&clock, 1)
						if err != nil || s == nil {
							x.fail("a bundled language is not loaded", map[string]any{"lang": n})
							return
						}
						mu.Lock()
						if ids[s] == 0 {
							ids[s] = int64(len(ids) + 1)
						}
						e.id = ids[s]
						mu.Unlock()
					}
					mu.Lock()
					events[n] = append(events[n], e)
					mu.Unlock()
				}
			})
			for n, es := range events {
				x.rep.Histories++
				for i := range es {
					for j := range es[:i] {
						if es[i].start < es[j].end && es[j].start < es[i].end {
							x.rep.Overlaps++
						}
					}
				}
				x.count("cache operations", len(es))
				if !linearizable(es, cacheStep) {
					x.fail("the history of the spec cache has no sequential explanation", map[string]any{"lang": n, "history": fmt.Sprint(es)})
				}
			}
		}
	},
	// Calls from within callbacks must not block.
	"reentrant": func(x *racer) {
		translit.Install()
		spec, err := hangulize.ParseSpec(strings.NewReader(specWithTranslits([]string{"re"})))
		if err != nil {
			x.fail("a spec is not parsed", map[string]any{"error": err.Error()})
			return
		}
		h := hangulize.New(spec)
		h.UseTranslit(&sleepy{scheme: "re", reenter: true, h: h})
		langs := raceLangs()
		x.together(10, func(g int, r *rand.Rand) {
			for i := 0; i < x.n/2; i++ {
				switch r.Intn(4) {
				case 0:
					s := fmt.Sprintf("t%d", g)
					h.UseTranslit(&sleepy{scheme: s, r: r.Int63()})
					h.UnuseTranslit(s)
				case 1:
					l := langs[r.Intn(len(langs))]
					hh, err := l.hangulizer()
					if err != nil {
						continue
					}
					w := pick(r, raceWords(l))
					hh.Trace(func(t hangulize.Trace) {
						if t.Step == "Input" {
							hangulize.LoadSpec(l.Name)
							hangulize.ListLangs()
							hangulize.Hangulize("ita", "ciao")
							hh.Translits()
						}
					})
					got, err := hh.Hangulize(w)
					x.transcribed(l.Name, w, got, err)
				case 2:
					hangulize.UnloadSpec("ita")
				default:
					got, err := h.Hangulize("ab")
					x.transcribed("reentrant", "ab", got, err)
				}
				x.count("reentrant calls", 1)
				pause(r)
			}
		})
	},
	// Everything at once.
	"mix": func(x *racer) {
		translit.Install()
		langs := raceLangs()
		jpn := raceLangNamed("jpn")
		x.together(20, func(g int, r *rand.Rand) {
			for i := 0; i < x.n; i++ {
				l := langs[r.Intn(len(langs))]
				if g%3 == 0 && jpn != nil {
					l = jpn
				}
				w := pick(r, raceWords(l))
				switch r.Intn(8) {
				case 0:
					hangulize.UnloadSpec(l.Name)
				case 1:
					hangulize.UseTranslit(&sleepy{scheme: "mix", r: r.Int63()})
				case 2:
					hangulize.UnuseTranslit("mix")
				case 3:
					hangulize.Translits()
				case 4:
					h, err := l.hangulizer()
					if err == nil {
						got, err := h.Hangulize(w)
						x.transcribed(l.Name, w, got, err)
					}
				default:
					got, err := hangulize.Hangulize(l.Name, w)
					x.transcribed(l.Name, w, got, err)
				}
				x.count("mixed calls", 1)
			}
		})
	},
}

// sleepy is a Translit which takes a while, and may call the package.
type sleepy struct {
	scheme  string
	id      int64
	r       int64
	reenter bool
	h       hangulize.Hangulizer
}

func (s *sleepy) Scheme() string {
	if s.r%3 == 0 {
		runtime.Gosched()
	}
	return s.scheme
}

func (s *sleepy) Transliterate(w string) (string, error) {
	runtime.Gosched()
	if s.reenter {
		hangulize.Translits()
		hangulize.ListLangs()
		hangulize.LoadSpec("ita")
		hangulize.UseTranslit(&sleepy{scheme: "inner"})
		hangulize.UnuseTranslit("inner")
		if s.h != nil {
			s.h.Translits()
			s.h.UseTranslit(&sleepy{scheme: "inner"})
			s.h.UnuseTranslit("inner")
		}
	}
	return w, nil
}

// event is an operation of a history.
type event struct {
	kind       byte
	id         int64
	ok         bool
	start, end int64
}

func (e event) String() string {
	return fmt.Sprintf("%c%d:%v[%d,%d]", e.kind, e.id, e.ok, e.start, e.end)
}

// registryStep: the state is the present Translit, or 0.
func registryStep(state int64, e event) (int64, bool) {
	switch e.kind {
	case 'u':
		if e.ok {
			return e.id, state == 0
		}
		return state, state != 0
	case 'r':
		return 0, e.ok == (state != 0)
	}
	return state, e.id == state
}

// cacheStep: the state is the cached spec, or 0.
func cacheStep(state int64, e event) (int64, bool) {
	if e.kind == 'x' {
		return 0, true
	}
	return e.id, state == 0 || state == e.id
}

// linearizable searches for a sequential order of the events.
func linearizable(es []event, step func(int64, event) (int64, bool)) bool {
	if len(es) > 62 {
		es = es[:62] // not reached
	}
	type key struct {
		done  uint64
		state int64
	}
	dead := map[key]bool{}
	all := uint64(1)<<len(es) - 1
	var search func(done uint64, state int64) bool
	search = func(done uint64, state int64) bool {
		if done == all {
			return true
		}
		k := key{done, state}
		if dead[k] {
			return false
		}
		// An event may come next unless another has ended before it started.
		first := int64(1) << 62
		for i, e := range es {
			if done>>i&1 == 0 && e.end < first {
				first = e.end
			}
		}
		for i, e := range es {
			if done>>i&1 == 0 && e.start <= first {
				if next, ok := step(state, e); ok && search(done|1<<i, next) {
					return true
				}
			}
		}
		dead[k] = true
		return false
	}
	return search(0, 0)
}

// concurrentChild runs a scenario: args are its name, the seed and the number
// of operations. The name "sequential" runs all words alone.
func concurrentChild(args []string) {
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	n, _ := strconv.Atoi(args[2])
	x := &racer{r: rand.New(rand.NewSource(seed)), seed: seed, n: n}
	x.rep.Ops, x.rep.Results = map[string]int64{}, map[string]string{}
	b, err := os.ReadFile(inputPath())
	if err == nil {
		err = json.Unmarshal(b, &raceInput)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	raceLight = args[3] == "light"
	if args[0] == "sequential" {
		translit.Install()
		for _, l := range raceLangs() {
			for _, w := range raceWords(l) {
				got, err := hangulize.Hangulize(l.Name, w)
				x.transcribed(l.Name, w, got, err)
				if h, err := l.hangulizer(); err == nil {
					x.result("traced "+l.Name+"\t"+w, fmt.Sprintf("%q", observe(h, w)))
				}
			}
		}
	} else {
		if p := Try(func() { scenarios[args[0]](x) }); p != nil {
			x.fail("a scenario panics", map[string]any{"panic": p.Error()})
		}
	}
	json.NewEncoder(os.Stdout).Encode(x.rep)
}

func checkConcurrency(c *Ctx) {
	c.Rule = "scenarios (first calls of a process, first use of the Translits, the spec cache, a shared Hangulizer, tracing, parsing, the registries, callbacks which call the package, and a mix) run in processes built with the race detector under different numbers of processors with random pauses. Every race report that involves the code, crash, deadlock, result other than the sequential one and history without a sequential explanation is a violation. A case is a scenario in a process with its own schedule; operations and overlapping pairs are counted in observed."
	c.Assume("the race detector sees the races of the schedules that were run")
	names := sortedKeys(scenarios)
	checkStale(c)
	rounds := c.N(9, 90)
	type job struct {
		name   string
		seed   int64
		procs  int
		weight string
	}
	var jobs []job
	for i := 0; i < rounds; i++ {
		for _, n := range names {
			// The dictionary of Japanese takes seconds to load.
			weight := "light"
			if i%9 == 0 || n == "translits" && i%3 == 0 {
				weight = "full"
			}
			jobs = append(jobs, job{n, c.Seed*1000 + int64(i), []int{8, 2, 4, 1, 16, 3}[i%6], weight})
		}
	}
	input := map[string]raceLang{}
	for _, l := range Langs() {
		input[l.Name] = raceLang{l.Source, raceWords(l)}
	}
	b, err := json.Marshal(input)
	if err == nil {
		err = os.WriteFile(inputPath(), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	seq := map[string]string{}
	res := runProc(childCmd("concurrent", []string{"GORACE=exitcode=0"}, "sequential", "1", "1", "full"), 1500e9)
	var rep raceReport
	if err := json.Unmarshal([]byte(res.Stdout), &rep); err != nil || res.Code != 0 {
		if res.Stuck != "" || strings.Contains(res.Stderr, "/repo/") {
			c.Fail("sequential calls do not come to an end", map[string]any{"stuck": res.Stuck, "stderr": truncate(res.Stderr, 4000)})
			return
		}
		fmt.Fprintln(os.Stderr, "sequential run failed:", err, truncate(res.Stderr, 2000))
		os.Exit(3)
	}
	for _, f := range rep.Fails {
		c.Fail(fmt.Sprint(f["what"]), f)
	}
	seq = rep.Results

	var mu sync.Mutex
	// Each process has several threads.
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for k := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if c.Failed() {
				return
			}
			j := jobs[k]
			logs := filepath.Join(work(), fmt.Sprintf("race-%d", k))
			cmd := childCmd("concurrent", []string{
				"GORACE=exitcode=0 halt_on_error=0 history_size=3 log_path=" + logs, fmt.Sprintf("GOMAXPROCS=%d", j.procs),
			}, j.name, fmt.Sprint(j.seed), fmt.Sprint(c.N(16, 40)), j.weight)
			res := runProc(cmd, 900e9)
			c.Case(fmt.Sprintf("%s/%d", j.name, j.seed))
			where := map[string]any{"scenario": j.name, "scenario_seed": j.seed, "procs": j.procs}
			with := func(k string, v any) map[string]any {
				m := map[string]any{k: v}
				for k, v := range where {
					m[k] = v
				}
				return m
			}
			files, _ := filepath.Glob(logs + ".*")
			for _, f := range files {
				b, _ := os.ReadFile(f)
				for _, rep := range strings.Split(string(b), "==================") {
					if !strings.Contains(rep, "DATA RACE") {
						continue
					}
					c.Count("race_reports", 1)
					if strings.Contains(rep, "/repo/") {
						c.Fail("a data race", with("report", truncate(rep, 3000)))
					}
				}
			}
			if res.Stuck != "" {
				c.Fail("calls do not come to an end: "+res.Stuck, with("stacks", truncate(res.Stderr, 8000)))
				return
			}
			if res.Code != 0 {
				if strings.Contains(res.Stderr, "/repo/") {
					c.Fail("a process crashes under concurrent calls", with("stderr", truncate(res.Stderr, 5000)))
				} else {
					fmt.Fprintln(os.Stderr, "child failed:", res.Code, truncate(res.Stderr, 2000))
					os.Exit(3)
				}
				return
			}
			var rep raceReport
			if err := json.Unmarshal([]byte(res.Stdout), &rep); err != nil {
				fmt.Fprintln(os.Stderr, "child printed:", err, truncate(res.Stdout, 500))
				os.Exit(3)
			}
			for _, f := range rep.Fails {
				c.Fail(fmt.Sprint(f["what"]), with("detail", f))
			}
			for k, v := range rep.Ops {
				c.Count(k, int(v))
			}
			c.Count("linearized histories", rep.Histories)
			c.Count("overlapping pairs in histories", int(rep.Overlaps))
			compared := 0
			for k, v := range rep.Results {
				if want, ok := seq[k]; ok {
					compared++
					if want != v {
						c.Fail("a concurrent call returns other than a sequential one", with("detail", map[string]string{"key": k, "sequential": want, "concurrent": v}))
					}
				}
			}
			c.Count("results compared with sequential ones", compared)
			mu.Lock()
			if k%17 == 0 {
				c.Sample(with("operations", rep.Ops))
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
}
