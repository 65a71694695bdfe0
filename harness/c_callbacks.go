package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"
	"github.com/hangulize/hangulize/pkg/hsl"
	"github.com/hangulize/hangulize/pkg/tracefmt"
	"github.com/hangulize/hangulize/translit"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() { checks["C34"] = checkCallbacks }

// How a callback ends.
const (
	endReturns = iota
	endPanics
	endExits // runtime.Goexit
	ends
)

var endNames = []string{"returns", "panics", "exits"}

// token is a unique panic value.
type token struct{ id int64 }

var tokens int64

// session is a call with a hostile callback.
type session struct {
	r     *rand.Rand
	at    int // the call of the callback which does it
	how   int
	value any
	calls int
	done  bool
	act   func()
}

func newSession(r *rand.Rand, most int) *session {
	s := &session{r: r, at: r.Intn(most), how: r.Intn(ends)}
	switch r.Intn(4) {
	case 0:
		s.value = fmt.Sprint("panic ", r.Int63())
	case 1:
		s.value = errors.New("panic")
	default:
		s.value = &token{atomic.AddInt64(&tokens, 1)}
	}
	return s
}

// hit is called by the callback.
func (s *session) hit() {
	s.calls++
	if s.calls-1 != s.at {
		return
	}
	if s.act != nil {
		act := s.act
		s.act = nil
		act()
	}
	s.done = true
	switch s.how {
	case endPanics:
		panic(s.value)
	case endExits:
		runtime.Goexit()
	}
}

// run makes the call in a goroutine, and tells how it ended.
func (s *session) run(f func()) (how int, value any, ok bool) {
	how = endExits
	ch := make(chan bool)
	go func() {
		defer close(ch)
		normal := false
		defer func() {
			if normal {
				how = endReturns
			} else if v := recover(); v != nil {
				how, value = endPanics, v
			}
		}()
		f()
		normal = true
	}()
	select {
	case <-ch:
		return how, value, true
	case <-time.After(60 * time.Second):
		return 0, nil, false
	}
}

// rudeTranslit is a Translit which calls back.
type rudeTranslit struct {
	scheme         string
	onScheme, onIt func()
}

func (t *rudeTranslit) Scheme() string {
	if t.onScheme != nil {
		t.onScheme()
	}
	return t.scheme
}

func (t *rudeTranslit) Transliterate(w string) (string, error) {
	if t.onIt != nil {
		t.onIt()
	}
	return w, nil
}

type rudeReader struct {
	s   string
	hit func()
}

func (r *rudeReader) Read(p []byte) (int, error) {
	r.hit()
	n := copy(p[:min(len(p), 1+len(p)%7)], r.s)
	r.s = r.s[n:]
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

type rudeWriter struct {
	b   strings.Builder
	hit func()
}

func (w *rudeWriter) Write(p []byte) (int, error) {
	w.hit()
	return w.b.Write(p)
}

const rudeSpec = `lang:
	id = "x"
	codes = "x", "xxx"
	script = "Latn"
	translit = "rude1", "rude2"
vars:
	"v" = "a", "e", "o"
	"w" = "ㅏ", "ㅔ", "ㅗ"
rewrite:
	"ph" -> "f"
	"c{e}" -> "s"
	"^x" -> "z"
transcribe:
	"<v>" -> "<w>"
	"f" -> "ㅍ"
	"s" -> "ㅅ"
	"z" -> "ㅈ"
	"n$" -> "-ㄴ"
	"n" -> "ㄴ"
`

func checkCallbacks(c *Ctx) {
	c.Rule = "a case is a call with a callback (a trace function, a Translit's Scheme or Transliterate, a reader, a writer) which at one of its calls panics, exits its goroutine or returns, after it called the package itself, also with the same Hangulizer, or changed what it got; or with a caller who changes what the package gave out. The calls run on eight goroutines. Observed: the call ends as the callback did, with the same panic value; what was traced before is as usual; nothing blocks; and afterwards the same Hangulizer, others, the registry, the lists, parsing and formatting answer as they did before the first such call, with traces"
	installDefault()
	langs := Langs()
	spec, err := hangulize.ParseSpec(strings.NewReader(rudeSpec))
	if err != nil {
		c.Fail("a spec is rejected", map[string]any{"error": err})
		return
	}
	type probe struct {
		lang, word string
		want       outcome
	}
	var probes []probe
	for _, l := range langs {
		l.prepare()
		r := c.Rng("probe" + l.Name)
		h, err := l.hangulizer()
		if err != nil {
			continue
		}
		words := []string{"", "x 1"}
		for k := 0; k < c.N(12, 60); k++ {
			w := l.NativeWord(r)
			if len(w) > 60 {
				w = w[:60]
			}
			words = append(words, strings.ToValidUTF8(w, ""))
		}
		for _, w := range words {
			probes = append(probes, probe{l.Name, w, observe(h, w)})
		}
	}
	rudeWords := []string{"phano", "cexan", "xaphen xaphen", "n", "", "1 n 2", "phphph"}
	pass := func(h hangulize.Hangulizer) {
		h.UseTranslit(&rudeTranslit{scheme: "rude1"})
		h.UseTranslit(&rudeTranslit{scheme: "rude2"})
	}
	var rudeWant []outcome
	for _, w := range rudeWords {
		h := hangulize.New(spec)
		pass(h)
		rudeWant = append(rudeWant, observe(h, w))
	}
	docText := langs[0].Source
	docWant := ""
	if d, err := hsl.Parse(strings.NewReader(docText)); err == nil {
		docWant = render(d)
	}
	sample := []hangulize.Trace{{Step: "Input", Word: "phano"}, {Step: "Rewrite", Word: "fano", Why: "가"}, {Step: "Localize", Word: "파노"}}
	var sampleWant strings.Builder
	tracefmt.FprintTraces(&sampleWant, sample)
	listWant := fmt.Sprint(hangulize.ListLangs())
	translitsWant := fmt.Sprint(sortedKeys(hangulize.Translits()))
	patWant := func() string {
		p, _ := hre.NewPattern("ac?{~b|<v>}", nil, map[string][]string{"v": {"x", "y"}})
		return fmt.Sprint(p.Letters(), p.Find("acabaxaya", -1))
	}
	pat, _ := hre.NewPattern("ac?{~b|<v>}", nil, map[string][]string{"v": {"x", "y"}})
	patFirst := patWant()
	start := runtime.NumGoroutine()

	// Probes after a session.
	var stuck atomic.Bool
	same := func(r *rand.Rand, after map[string]any, h hangulize.Hangulizer) {
		s := &session{at: -1}
		_, v, ok := s.run(func() {
			for k := 0; k < 3; k++ {
				p := pick(r, probes)
				if h == nil || k > 0 {
					h2, err := LangByName(p.lang).hangulizer()
					if err != nil {
						c.Fail("a language cannot be loaded any more", after)
						return
					}
					if o := observe(h2, p.word); fmt.Sprint(o) != fmt.Sprint(p.want) {
						after["lang"], after["word"], after["result"], after["want"] = p.lang, p.word, fmt.Sprint(o), fmt.Sprint(p.want)
						c.Fail("a later call gives another outcome", after)
						return
					}
				}
				if got, err := hangulize.Hangulize(p.lang, p.word); got != p.want.Word || (err != nil) != (p.want.Err != "") {
					after["lang"], after["word"], after["result"], after["want"] = p.lang, p.word, got, p.want.Word
					c.Fail("a later call gives another result", after)
					return
				}
				c.Count("probes", 1)
			}
			if got := fmt.Sprint(hangulize.ListLangs()); got != listWant {
				after["list"] = got
				c.Fail("the list of languages changed", after)
			}
			if r.Intn(8) == 0 {
				if d, err := hsl.Parse(strings.NewReader(docText)); err != nil || render(d) != docWant {
					c.Fail("a later parse gives another document", after)
				}
				var b strings.Builder
				tracefmt.FprintTraces(&b, sample)
				if b.String() != sampleWant.String() {
					after["text"] = b.String()
					c.Fail("later traces are formatted differently", after)
				}
				if got := patWant(); got != patFirst {
					after["pattern"] = got
					c.Fail("a later pattern behaves differently", after)
				}
			}
		})
		if !ok {
			stuck.Store(true)
			c.Fail("a later call blocks", after)
		} else if v != nil {
			after["panic"] = fmt.Sprint(v)
			c.Fail("a later call panics", after)
		}
	}
	prefix := func(got, want []model.Trace) string {
		if len(got) > len(want) {
			return "more traces than usual"
		}
		return diffTraces(got, want[:len(got)])
	}
	// acts are what a callback may do before it ends.
	acts := func(r *rand.Rand, h hangulize.Hangulizer, i int) (string, func()) {
		odd := fmt.Sprintf("odd%d", i)
		switch r.Intn(10) {
		case 0:
			return "transcribes", func() {
				p := pick(r, probes)
				if got, _ := hangulize.Hangulize(p.lang, p.word); got != p.want.Word {
					c.Fail("a call within a callback gives another result", map[string]any{"lang": p.lang, "word": p.word, "result": got, "want": p.want.Word})
				}
			}
		case 1:
			return "reloads", func() {
				l := pick(r, langs).Name
				hangulize.UnloadSpec(l)
				hangulize.LoadSpec(l)
			}
		case 2:
			return "registers", func() {
				if !hangulize.UseTranslit(&rudeTranslit{scheme: odd}) || !hangulize.UnuseTranslit(odd) {
					c.Fail("the registry refuses within a callback", nil)
				}
			}
		case 3:
			return "registers at the Hangulizer", func() {
				if h != nil && (!h.UseTranslit(&rudeTranslit{scheme: odd}) || !h.UnuseTranslit(odd)) {
					c.Fail("the Hangulizer refuses within a callback", nil)
				}
			}
		case 4:
			return "installs", func() {
				translit.Install()
				if h != nil {
					h.Translits()
				}
				hangulize.Translits()
			}
		case 5:
			return "parses", func() {
				if d, err := hsl.Parse(strings.NewReader(docText)); err != nil || render(d) != docWant {
					c.Fail("a parse within a callback gives another document", nil)
				}
			}
		case 6:
			return "yields", func() {
				for k := 0; k < 5; k++ {
					runtime.Gosched()
				}
			}
		default:
			return "", nil
		}
	}

	var kept sync.Map // language -> a Hangulizer which is used again and again
	n := c.N(24000, 400000)
	one := func(i int) {
		r := c.Rng(fmt.Sprint("session", i))
		kind := []string{"trace", "trace", "trace", "Transliterate", "Scheme", "Scheme at Use", "reader", "writer", "caller", "trace of a Translit", "default registry"}[i%11]
		s := newSession(r, 12)
		info := map[string]any{"callback": kind, "ends": endNames[s.how], "call": s.at}
		var h hangulize.Hangulizer
		var got []model.Trace
		var want *outcome
		var word string
		var after func()
		end := func(f func()) bool {
			how, v, ok := s.run(f)
			switch {
			case !ok:
				stuck.Store(true)
				c.Fail("a call with a hostile callback blocks", info)
			case !s.done:
				c.Count("callbacks not reached", 1)
				if how != endReturns {
					info["panic"] = fmt.Sprint(v)
					c.Fail("a call panics before its callback does", info)
				}
			case how != s.how || (how == endPanics && v != s.value):
				info["got"], info["value"], info["want_value"] = endNames[how], fmt.Sprint(v), fmt.Sprint(s.value)
				c.Fail("a call does not end as its callback did", info)
			default:
				c.Count(kind+" "+endNames[s.how], 1)
				c.Case(fmt.Sprint(kind, i))
				return true
			}
			return false
		}
		var mine *rand.Rand = rand.New(rand.NewSource(r.Int63()))
		switch kind {
		case "trace":
			p := pick(r, probes)
			word, want = p.word, &p.want
			info["lang"], info["word"] = p.lang, word
			s.at = r.Intn(max(len(want.Traces), 1))
			h, err = LangByName(p.lang).hangulizer()
			if i%2 == 0 {
				// One which this goroutine takes for itself.
				if k, ok := kept.LoadAndDelete(p.lang); ok {
					h = k.(hangulize.Hangulizer)
				}
			}
			if h == nil {
				return
			}
			spoil := r.Intn(3) == 0
			var name string
			name, s.act = acts(mine, h, i)
			if s.act == nil && mine.Intn(2) == 0 {
				// The same Hangulizer within its own trace function.
				name, s.act = "calls again", func() {
					mid := 0
					h.Trace(func(hangulize.Trace) { mid++ })
					if res, _ := h.Hangulize(p.word); res != p.want.Word || mid != len(p.want.Traces) {
						c.Fail("a call within a trace function gives another outcome", map[string]any{"lang": p.lang, "word": p.word, "result": res, "traces": mid, "want": fmt.Sprint(p.want)})
					}
				}
			}
			info["does"], info["changes_what_it_gets"] = name, spoil
			h.Trace(func(t hangulize.Trace) {
				got = append(got, convTrace(t))
				if spoil && t.Rule != nil {
					t.Rule.ID = -7
					t.Rule.From, t.Rule.To = nil, nil
				}
				s.hit()
			})
			if !end(func() { h.Hangulize(word) }) {
				return
			}
			if name == "calls again" || s.how == endReturns {
				// The traces after it are the other function's.
				if d := prefix(got, want.Traces); d != "" {
					info["diff"] = d
					c.Fail("the traces differ", info)
					return
				}
			} else if len(got) != s.at+1 {
				info["traces"] = len(got)
				c.Fail("the trace function is called again after it ended the call", info)
				return
			} else if d := prefix(got, want.Traces); d != "" {
				info["diff"] = d
				c.Fail("the traces before the end differ", info)
				return
			}
			after = func() {
				if o := observe(h, word); fmt.Sprint(o) != fmt.Sprint(*want) {
					info["outcome"], info["want"] = fmt.Sprint(o), fmt.Sprint(*want)
					c.Fail("the Hangulizer gives another outcome afterwards", info)
				}
				kept.Store(p.lang, h)
			}
		case "Transliterate", "Scheme", "trace of a Translit":
			k := r.Intn(len(rudeWords))
			word, want = rudeWords[k], &rudeWant[k]
			info["word"] = word
			h = hangulize.New(spec)
			s.at = 0
			which := r.Intn(2)
			t := &rudeTranslit{scheme: fmt.Sprint("rude", which+1)}
			var name string
			name, s.act = acts(mine, h, i)
			info["does"] = name
			armed := false
			hit := func() {
				if armed {
					s.hit()
				}
			}
			if kind == "Scheme" {
				t.onScheme = hit
			} else {
				t.onIt = hit
			}
			h.UseTranslit(t)
			pass(h)
			armed = true
			if kind != "Transliterate" {
				// Its scheme is asked for at the traces.
				h.Trace(func(t hangulize.Trace) { got = append(got, convTrace(t)) })
			}
			if !end(func() { h.Hangulize(word) }) {
				return
			}
			armed = false
			if d := prefix(got, want.Traces); d != "" {
				info["diff"] = d
				c.Fail("the traces before the end differ", info)
				return
			}
			after = func() {
				if o := observe(h, word); fmt.Sprint(o) != fmt.Sprint(*want) {
					info["outcome"], info["want"] = fmt.Sprint(o), fmt.Sprint(*want)
					c.Fail("the Hangulizer gives another outcome afterwards", info)
				}
				if !h.UnuseTranslit(t.scheme) || h.UnuseTranslit(t.scheme) || !h.UseTranslit(&rudeTranslit{scheme: t.scheme}) {
					c.Fail("the registry of the Hangulizer is broken afterwards", info)
				}
			}
		case "Scheme at Use":
			h = hangulize.New(spec)
			s.at = 0
			scheme := fmt.Sprint("use", i)
			t := &rudeTranslit{scheme: scheme, onScheme: s.hit}
			var name string
			name, s.act = acts(mine, h, i)
			info["does"] = name
			use, list, unuse := hangulize.UseTranslit, hangulize.Translits, hangulize.UnuseTranslit
			if i%2 == 0 {
				use, list, unuse = h.UseTranslit, h.Translits, h.UnuseTranslit
			}
			if !end(func() { use(t) }) {
				return
			}
			after = func() {
				_, in := list()[scheme]
				if in != (s.how == endReturns) {
					info["listed"] = in
					c.Fail("a Translit whose Scheme failed is registered, or one is lost", info)
				}
				if removed := unuse(scheme); removed != in {
					c.Fail("the registry is broken afterwards", info)
				}
			}
		case "default registry":
			// A Translit of the default registry, shared by everybody.
			scheme := fmt.Sprint("use", i)
			s.at = 0
			var name string
			name, s.act = acts(mine, nil, i)
			info["does"] = name
			text := strings.Replace(rudeSpec, `"rude1", "rude2"`, `"`+scheme+`"`, 1)
			sp, err := hangulize.ParseSpec(strings.NewReader(text))
			if err != nil {
				return
			}
			t := &rudeTranslit{scheme: scheme, onIt: s.hit}
			h = hangulize.New(sp)
			h.UseTranslit(t)
			hangulize.UseTranslit(t)
			if !end(func() { h.Hangulize("phano") }) {
				hangulize.UnuseTranslit(scheme)
				return
			}
			after = func() {
				if o := observe(h, "phano"); o.Word != rudeWant[0].Word {
					info["outcome"] = fmt.Sprint(o)
					c.Fail("the Hangulizer gives another outcome afterwards", info)
				}
				if !hangulize.UnuseTranslit(scheme) {
					c.Fail("the registry is broken afterwards", info)
				}
			}
		case "reader":
			l := pick(r, langs)
			s.at = r.Intn(200)
			var name string
			name, s.act = acts(mine, nil, i)
			info["does"], info["text"] = name, l.Name
			rd := &rudeReader{s: l.Source, hit: s.hit}
			if !end(func() {
				if i%2 == 0 {
					hangulize.ParseSpec(rd)
				} else {
					hsl.Parse(rd)
				}
			}) {
				return
			}
		case "writer":
			s.at = r.Intn(5)
			var name string
			name, s.act = acts(mine, nil, i)
			info["does"] = name
			w := &rudeWriter{hit: s.hit}
			if !end(func() { tracefmt.FprintTraces(w, sample) }) {
				return
			}
			if !strings.HasPrefix(sampleWant.String(), w.b.String()) {
				info["text"] = w.b.String()
				c.Fail("another text was written", info)
				return
			}
		case "caller":
			s.done, s.how = true, endReturns
			if !end(func() {
				for k, l := 0, hangulize.ListLangs(); k < len(l); k++ {
					l[k] = "none"
				}
				ts := hangulize.Translits()
				for k := range ts {
					delete(ts, k)
				}
				ts["more"] = &rudeTranslit{scheme: "more"}
				ls := pat.Letters()
				for k := range ls {
					ls[k] = 'z'
				}
				for _, m := range pat.Find("acabaxaya", -1) {
					for k := range m {
						m[k] = 99
					}
				}
				h := hangulize.New(spec)
				pass(h)
				ts = h.Translits()
				for k := range ts {
					delete(ts, k)
				}
				if o := observe(h, rudeWords[0]); fmt.Sprint(o) != fmt.Sprint(rudeWant[0]) {
					info["outcome"], info["want"] = fmt.Sprint(o), fmt.Sprint(rudeWant[0])
					c.Fail("a Hangulizer depends on a map which it gave out", info)
				}
				if got := fmt.Sprint(pat.Letters(), pat.Find("acabaxaya", -1)); got != patFirst {
					info["pattern"] = got
					c.Fail("a pattern depends on what it gave out", info)
				}
			}) {
				return
			}
		}
		if after != nil {
			if _, v, ok := (&session{at: -1}).run(after); !ok {
				stuck.Store(true)
				c.Fail("a call after a hostile callback blocks", info)
				return
			} else if v != nil {
				info["panic"] = fmt.Sprint(v)
				c.Fail("a call after a hostile callback panics", info)
				return
			}
		}
		c.Seen("does", fmt.Sprint(info["does"]))
		if i%3 == 0 {
			same(mine, map[string]any{"after": fmt.Sprint(info)}, h)
		}
		if i < 12 {
			c.Sample(info)
		}
	}
	Parallel(n, func(i int) {
		if c.Failed() || stuck.Load() {
			return
		}
		// The calls around the hostile one may block as well.
		done := make(chan bool)
		go func() {
			defer close(done)
			one(i)
		}()
		select {
		case <-done:
		case <-time.After(200 * time.Second):
			stuck.Store(true)
			c.Fail("a call blocks after hostile callbacks", map[string]any{"session": i})
		}
	})
	if c.Failed() || stuck.Load() {
		return
	}
	if got := fmt.Sprint(sortedKeys(hangulize.Translits())); got != translitsWant {
		c.Fail("the default registry changed", map[string]any{"translits": got, "want": translitsWant})
	}
	now := runtime.NumGoroutine()
	for k := 0; k < 100 && now > start; k++ {
		time.Sleep(10 * time.Millisecond)
		now = runtime.NumGoroutine()
	}
	if now > start+2 {
		buf := make([]byte, 1<<16)
		c.Fail("goroutines are left behind", map[string]any{"before": start, "after": now, "stacks": string(buf[:runtime.Stack(buf, true)])})
	}
}
