package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
)

func init() {
	checks["C19"] = checkSpecs
	checks["C20"] = checkRegistries
}

// digestSpec describes everything exported of a spec.
func digestSpec(s *hangulize.Spec) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q %q %q %q %q %q %q\n", s.Lang.ID, s.Lang.Codes, s.Lang.English, s.Lang.Korean, s.Lang.Script, s.Lang.Translit, s.Config.Authors, s.Config.Stage)
	for _, k := range sortedKeys(s.Macros) {
		fmt.Fprintf(&b, "macro %q %q\n", k, s.Macros[k])
	}
	for _, k := range sortedKeys(s.Vars) {
		fmt.Fprintf(&b, "var %q %q\n", k, s.Vars[k])
	}
	for _, k := range sortedKeys(s.Normalize) {
		fmt.Fprintf(&b, "normalize %q %q\n", k, s.Normalize[k])
	}
	for n, rules := range [][]hangulize.Rule{s.Rewrite, s.Transcribe} {
		for i, r := range rules {
			x, y := r.From.NegativeLookaroundWidths()
			fmt.Fprintf(&b, "rule %d %d %d %q %q %s %d %d %q %q\n", n, i, r.ID, r.From.String(), r.To.String(), r.From.Explain(), x, y, r.From.Letters(), r.To.Letters())
		}
	}
	fmt.Fprintf(&b, "test %q\nsource %q\n", s.Test, s.Source)
	return b.String()
}

// behaviour transcribes a few words with the spec.
func behaviour(s *hangulize.Spec, words []string) string {
	h := hangulize.New(s)
	translit.Install(h)
	var b strings.Builder
	for _, w := range words {
		o := observe(h, w)
		fmt.Fprintf(&b, "%q\n", o)
	}
	return b.String()
}

func (l *Lang) someWords(r *rand.Rand, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, l.Word(r))
	}
	return out
}

// oddNames are names of languages which don't exist.
var oddNames = []string{"", ".", "..", "/", "../specs/ita", "../specs", "./ita", "ita/", "/ita", "ita.hsl", "ITA", "Ita", " ita", "ita ", "ita\n", "specs/ita", "ita\x00", "\x00", "*", "i?a", "[i]ta", "ita/../ita", "ita//", "../hangulize", "..\\ita", "\xff", "이탈리아어", "it", "ita,eng", "it\u200ba", "xxx", "con", "-", "%69ta", "\u0131ta", "ｉｔａ", "ita.hsl/../ita"}

func checkSpecs(c *Ctx) {
	c.Rule = "random histories of LoadSpec, UnloadSpec, Hangulize, ListLangs and ParseSpec over all bundled and many odd names run in the process; a small state machine says which spec each call must return, and all specs held are compared in depth, and in their behaviour, with fresh parses. Every operation in a history is a case; histories differ by their operations."
	installDefault()
	langs := Langs()

	// The list is complete.
	want := []string{}
	files, _ := filepath.Glob("/repo/specs/*.hsl")
	for _, f := range files {
		want = append(want, strings.TrimSuffix(filepath.Base(f), ".hsl"))
	}
	sort.Strings(want)
	names := hangulize.ListLangs()
	if !reflect.DeepEqual(names, want) {
		c.Fail("ListLangs does not list every bundled language, sorted and once", map[string]any{"got": names, "want": want})
	}
	for i := range names {
		names[i] = "changed"
	}
	if again := hangulize.ListLangs(); !reflect.DeepEqual(again, want) {
		c.Fail("a list returned by ListLangs is shared", map[string]any{"got": again})
	}

	// Every language is what its file says.
	fresh := map[string]string{}
	words := map[string][]string{}
	behave := map[string]string{}
	for _, l := range langs {
		r := c.Rng("words/" + l.Name)
		words[l.Name] = l.someWords(r, c.N(12, 60))
		c.Case("file/" + l.Name)
		s, err := hangulize.LoadSpec(l.Name)
		if err != nil || s == nil {
			c.Fail("a bundled language is not loaded", map[string]any{"lang": l.Name, "error": fmt.Sprint(err)})
			continue
		}
		b, err := os.ReadFile("/repo/specs/" + l.Name + ".hsl")
		if err != nil || s.Source != string(b) {
			c.Fail("the Source of a bundled spec is not its file", map[string]any{"lang": l.Name})
		}
		p, err := hangulize.ParseSpec(strings.NewReader(s.Source))
		if err != nil {
			c.Fail("the Source of a bundled spec is not parsed", map[string]any{"lang": l.Name, "error": err})
			continue
		}
		fresh[l.Name] = digestSpec(p)
		if d := digestSpec(s); d != fresh[l.Name] {
			c.Fail("a bundled spec differs from a fresh parse of its source", map[string]any{"lang": l.Name})
		}
		behave[l.Name] = behaviour(p, words[l.Name])
		if behaviour(s, words[l.Name]) != behave[l.Name] {
			c.Fail("a bundled spec behaves other than a fresh parse of its source", map[string]any{"lang": l.Name})
		}
	}
	for _, l := range langs {
		hangulize.UnloadSpec(l.Name)
	}

	// Histories.
	type held struct {
		lang string
		spec *hangulize.Spec
	}
	cached := map[string]*hangulize.Spec{}
	var holds []held
	verify := func(h held, hist []string) {
		if digestSpec(h.spec) != fresh[h.lang] {
			c.Fail("a spec which someone holds has changed", map[string]any{"lang": h.lang, "history": hist})
		}
	}
	histories := c.N(150, 2500)
	for n := 0; n < histories && !c.Failed(); n++ {
		r := c.Rng(fmt.Sprintf("history/%d", n))
		// Histories which concentrate on few languages hit them repeatedly.
		pool := []*Lang{}
		for i := 1 + r.Intn(6); i > 0; i-- {
			pool = append(pool, langs[r.Intn(len(langs))])
		}
		// Names which share a prefix, e.g. jpn and jpn-ck.
		if r.Intn(3) == 0 {
			for _, l := range langs {
				if strings.Contains(l.Name, "-") {
					pool = append(pool, l)
					if x := LangByName(strings.SplitN(l.Name, "-", 2)[0]); x != nil {
						pool = append(pool, x)
					}
				}
			}
		}
		var hist []string
		op := func(format string, args ...any) {
			s := fmt.Sprintf(format, args...)
			hist = append(hist, s)
			c.Case(strings.Join(hist, ";"))
			c.Count(strings.SplitN(s, " ", 2)[0], 1)
		}
		for k := 10 + r.Intn(30); k > 0 && !c.Failed(); k-- {
			l := pool[r.Intn(len(pool))]
			fail := func(what string, more ...any) {
				c.Fail(what, map[string]any{"history": hist, "detail": fmt.Sprintf("%+q", more)})
			}
			if p := Try(func() {
				switch r.Intn(12) {
				case 0, 1, 2, 3:
					op("load %s", l.Name)
					s, err := hangulize.LoadSpec(l.Name)
					if err != nil || s == nil {
						fail("a bundled language is not loaded", err)
						return
					}
					if have, ok := cached[l.Name]; ok && have != s {
						fail("loading again gives another spec")
					} else if !ok {
						for _, h := range holds {
							if h.spec == s {
								fail("a spec survives being unloaded")
							}
						}
						if digestSpec(s) != fresh[l.Name] {
							fail("a loaded spec differs from a fresh parse")
						}
					}
					cached[l.Name] = s
					if len(holds) < 200 && (len(holds) == 0 || r.Intn(3) == 0) {
						holds = append(holds, held{l.Name, s})
					}
				case 4, 5:
					op("unload %s", l.Name)
					hangulize.UnloadSpec(l.Name)
					delete(cached, l.Name)
					if r.Intn(2) == 0 {
						op("unload %s", l.Name)
						hangulize.UnloadSpec(l.Name)
					}
				case 6, 7:
					w := pick(r, words[l.Name])
					op("hangulize %s %+q", l.Name, w)
					_, err := hangulize.Hangulize(l.Name, w)
					if err != nil {
						fail("a bundled language does not transcribe", err)
					}
					if _, ok := cached[l.Name]; !ok {
						// It has been loaded by this.
						s, err := hangulize.LoadSpec(l.Name)
						if err != nil {
							fail("a bundled language is not loaded", err)
							return
						}
						cached[l.Name] = s
					}
				case 8:
					name := pick(r, oddNames)
					if r.Intn(3) == 0 {
						name = mutateName(r, l.Name)
					}
					if LangByName(name) != nil {
						return
					}
					op("odd %+q", name)
					s, err := hangulize.LoadSpec(name)
					if s != nil || !errors.Is(err, hangulize.ErrSpecNotFound) {
						fail("an unknown language does not give ErrSpecNotFound", name, err)
					}
					w := pick(r, append(words[l.Name], "", "\xff", " a "))
					got, err := hangulize.Hangulize(name, w)
					if got != w || !errors.Is(err, hangulize.ErrSpecNotFound) {
						fail("Hangulize in an unknown language does not return the word as it is with ErrSpecNotFound", name, w, got, err)
					}
					if r.Intn(2) == 0 {
						hangulize.UnloadSpec(name)
					}
				case 9:
					op("parse %s", l.Name)
					s, err := hangulize.ParseSpec(strings.NewReader(l.Source))
					if err != nil {
						fail("a bundled spec is not parsed", err)
						return
					}
					for _, h := range holds {
						if h.spec == s {
							fail("a parsed spec is shared with the cache")
						}
					}
					h := hangulize.New(s)
					translit.Install(h)
					h.Hangulize(pick(r, words[l.Name]))
					if digestSpec(s) != fresh[l.Name] {
						fail("transcribing changes a spec")
					}
				case 10:
					op("list")
					if got := hangulize.ListLangs(); !reflect.DeepEqual(got, want) {
						fail("ListLangs changes", got)
					}
				default:
					op("new %s", l.Name)
					if s, ok := cached[l.Name]; ok {
						h := hangulize.New(s)
						translit.Install(h)
						observe(h, pick(r, words[l.Name]))
						if h.Spec() != s {
							fail("a Hangulizer has another spec")
						}
					}
				}
				// Another language is never affected.
				if len(cached) > 0 && r.Intn(4) == 0 {
					name := pick(r, sortedKeys(cached))
					s, err := hangulize.LoadSpec(name)
					if err != nil || s != cached[name] {
						fail("an operation on one language unloads another", name, err)
						cached[name] = s
					}
				}
			}); p != nil {
				fail("an operation panics", p.Error())
			}
			if len(holds) > 0 && r.Intn(5) == 0 {
				verify(holds[r.Intn(len(holds))], hist)
			}
		}
		if n%50 == 0 {
			c.Sample(hist)
		}
	}
	for _, h := range holds {
		verify(h, nil)
		c.Seen("specs_held", fmt.Sprintf("%p", h.spec))
	}
	// Specs of before still behave in the same way.
	Parallel(len(holds), func(i int) {
		if i%c.N(4, 1) == 0 && behaviour(holds[i].spec, words[holds[i].lang]) != behave[holds[i].lang] {
			c.Fail("a spec which someone holds behaves otherwise than before", map[string]any{"lang": holds[i].lang})
		}
	})
}

func mutateName(r *rand.Rand, s string) string {
	switch r.Intn(6) {
	case 0:
		return s + string(randomRune(r))
	case 1:
		return s[:len(s)-1]
	case 2:
		return strings.ToUpper(s)
	case 3:
		return "./" + s
	case 4:
		return s + "/" + s
	}
	return s + "\x00"
}

// fake is a Translit which records its calls.
type fake struct {
	scheme string
	id     int
	fail   bool
	log    *[]call
}

type call struct {
	Scheme  string
	ID      int
	In, Out string
}

var errFake = errors.New("fake failure")

func (f *fake) Scheme() string { return f.scheme }

// apply is what the Translit makes of a word.
func (f *fake) apply(w string) string {
	switch f.id % 9 {
	case 0:
		return w
	case 1:
		return ""
	case 2:
		return "a" + w
	case 3:
		return strings.ToUpper(w)
	case 4:
		return strings.Repeat(w, 2) + "☃ b"
	}
	return fmt.Sprintf("%s%c", w, 'a'+f.id%5)
}

func (f *fake) Transliterate(w string) (string, error) {
	out := f.apply(w)
	*f.log = append(*f.log, call{f.scheme, f.id, w, out})
	if f.fail {
		return "", errFake
	}
	return out, nil
}

// registry is either the default registry or a Hangulizer.
type registry struct {
	name  string
	h     hangulize.Hangulizer
	spec  *hangulize.Spec
	plain *hangulize.Spec // the same spec without Translits
	have  map[string]hangulize.Translit
}

func (x *registry) use(t hangulize.Translit) bool {
	if x.h == nil {
		return hangulize.UseTranslit(t)
	}
	return x.h.UseTranslit(t)
}

func (x *registry) unuse(s string) bool {
	if x.h == nil {
		return hangulize.UnuseTranslit(s)
	}
	return x.h.UnuseTranslit(s)
}

func (x *registry) all() map[string]hangulize.Translit {
	if x.h == nil {
		return hangulize.Translits()
	}
	return x.h.Translits()
}

func (x *registry) install() bool {
	if x.h == nil {
		return translit.Install()
	}
	return translit.Install(x.h)
}

func specWithTranslits(schemes []string) string {
	t := ""
	for i, s := range schemes {
		if i > 0 {
			t += ", "
		}
		t += quoteHSL(s)
	}
	if t != "" {
		t = "  translit = " + t + "\n"
	}
	return "lang:\n  id = \"x\"\n  codes = \"xx\", \"xxx\"\n  script = \"Latn\"\n" + t +
		"rewrite:\n  \"ab\" -> \"c\"\ntranscribe:\n  \"a\" -> \"ㅏ\"\n  \"b\" -> \"ㅂ\"\n  \"c\" -> \"ㅊㅣ\"\n  \"d\" -> \"ㄷㅗ\"\n  \"e\" -> \"ㅔ\"\n"
}

func checkRegistries(c *Ctx) {
	c.Rule = "random histories of UseTranslit, UnuseTranslit, Translits (and changing the copy), Install and Hangulize on the default registry and several Hangulizers, with Translits that record their calls and may fail; a map per registry says what each call must return. Every operation of a history is a case."
	standard := translit.Translits()
	schemes := []string{"a", "b", "", "ㄱ", "cyrillic", "furigana", "pinyin", "cyrillic[ru]", "cyrillic[bg]", "A", "a "}
	for _, t := range standard {
		c.Seen("standard_schemes", t.Scheme())
	}
	if c.NumSeen("standard_schemes") != len(standard) {
		c.Fail("standard Translits share a scheme", map[string]any{})
	}
	// Every Translit a bundled spec needs is a standard one.
	have := map[string]bool{}
	for _, t := range standard {
		have[t.Scheme()] = true
	}
	needs := map[string]string{}
	for _, l := range Langs() {
		for _, s := range l.Model.Translit {
			needs[s] = l.Name
			if !have[s] {
				c.Fail("Install does not provide a Translit which a bundled spec needs", map[string]any{"lang": l.Name, "scheme": s})
			}
		}
	}

	if len(hangulize.Translits()) != 0 {
		c.Fail("the default registry is not empty at first", map[string]any{})
	}

	histories := c.N(4000, 60000)
	def := &registry{name: "default", have: map[string]hangulize.Translit{}}
	nextID := 0
	var log []call // of all fakes, of which the default registry may keep some
	for n := 0; n < histories && !c.Failed(); n++ {
		r := c.Rng(fmt.Sprintf("history/%d", n))
		regs := []*registry{def}
		for i := 1 + r.Intn(3); i > 0; i-- {
			var declared []string
			for k := r.Intn(4); k > 0; k-- {
				declared = append(declared, schemes[r.Intn(len(schemes))])
			}
			spec, err := hangulize.ParseSpec(strings.NewReader(specWithTranslits(declared)))
			plain, err2 := hangulize.ParseSpec(strings.NewReader(specWithTranslits(nil)))
			if err != nil || err2 != nil {
				c.Fail("a spec is not parsed", map[string]any{"error": fmt.Sprint(err, err2)})
				return
			}
			regs = append(regs, &registry{name: fmt.Sprintf("h%d", i), h: hangulize.New(spec), spec: spec, plain: plain, have: map[string]hangulize.Translit{}})
			if len(regs) > 2 && r.Intn(2) == 0 {
				// Another Hangulizer of the same spec.
				regs[len(regs)-1].h = hangulize.New(regs[1].spec)
				regs[len(regs)-1].spec = regs[1].spec
			}
		}
		var hist []string
		var copies []map[string]hangulize.Translit
		op := func(format string, args ...any) {
			s := fmt.Sprintf(format, args...)
			hist = append(hist, s)
			c.Case(strings.Join(hist, ";"))
			c.Count(strings.Fields(s)[1], 1)
		}
		fail := func(what string, more ...any) {
			c.Fail(what, map[string]any{"history": hist, "detail": fmt.Sprintf("%+q", more)})
		}
		for k := 8 + r.Intn(30); k > 0 && !c.Failed(); k-- {
			x := regs[r.Intn(len(regs))]
			if p := Try(func() {
				switch r.Intn(14) {
				case 0, 1, 2, 3:
					nextID++
					t := hangulize.Translit(&fake{pick(r, schemes), nextID, r.Intn(8) == 0, &log})
					if r.Intn(5) == 0 {
						t = standard[r.Intn(len(standard))]
					}
					op("%s use %q", x.name, t.Scheme())
					_, present := x.have[t.Scheme()]
					if ok := x.use(t); ok == present {
						fail("UseTranslit returns a wrong outcome", ok)
					}
					if !present {
						x.have[t.Scheme()] = t
					}
				case 4, 5:
					s := pick(r, schemes)
					op("%s unuse %q", x.name, s)
					_, present := x.have[s]
					if ok := x.unuse(s); ok != present {
						fail("UnuseTranslit returns a wrong outcome", ok)
					}
					delete(x.have, s)
				case 6, 7:
					op("%s translits", x.name)
					m := x.all()
					if !sameTranslits(m, x.have) {
						fail("Translits are wrong", sortedKeys(m), sortedKeys(x.have))
					}
					copies = append(copies, m)
				case 8:
					if len(copies) == 0 {
						return
					}
					op("a copy changes")
					m := copies[r.Intn(len(copies))]
					if r.Intn(2) == 0 {
						for k := range m {
							delete(m, k)
						}
					} else {
						m[pick(r, schemes)] = &fake{"copy", 0, true, &log}
					}
				case 9:
					op("%s install", x.name)
					clash := false
					for _, t := range standard {
						if _, ok := x.have[t.Scheme()]; ok {
							clash = true
						}
					}
					if ok := x.install(); ok == clash {
						fail("Install returns a wrong outcome", ok)
					}
					if !clash {
						for _, t := range standard {
							x.have[t.Scheme()] = t
						}
					}
				default:
					transcribeWith(c, r, x, needs, &log, op, fail)
				}
			}); p != nil {
				fail("an operation panics", p.Error())
			}
			// No registry is affected by another.
			for _, y := range regs {
				if m := y.all(); !sameTranslits(m, y.have) {
					fail("the registry of "+y.name+" is wrong", sortedKeys(m), sortedKeys(y.have))
					y.have = m
				}
			}
			c.Seen("registry_states", fmt.Sprint(sortedKeys(x.have)))
		}
		c.SampleEvery(n, histories/5, func() any { return hist })
		// Clear the default registry now and then.
		if r.Intn(2) == 0 {
			for _, s := range sortedKeys(def.have) {
				def.unuse(s)
				delete(def.have, s)
			}
		}
	}
}

func sameTranslits(a, b map[string]hangulize.Translit) bool {
	if len(a) != len(b) {
		return false
	}
	for k, t := range a {
		u, ok := b[k]
		if !ok || t != u {
			return false
		}
	}
	return true
}

// transcribeWith transcribes and checks the use of Translits.
func transcribeWith(c *Ctx, r *rand.Rand, x *registry, needs map[string]string, log *[]call, op func(string, ...any), fail func(string, ...any)) {
	w := pick(r, []string{"a", "b", "ab", "cd", "", "e a", "dé", "かな", "我", "хлеб"})
	var declared []string
	lang := ""
	if x.h != nil {
		declared = x.spec.Lang.Translit
	} else {
		s := pick(r, sortedKeys(needs))
		lang = needs[s]
		declared = LangByName(lang).Model.Translit
	}
	op("%s hangulize %+q %q %s", x.name, w, declared, lang)
	*log = (*log)[:0]
	var got string
	var err error
	var traces []hangulize.Trace
	if x.h != nil {
		if r.Intn(2) == 0 {
			x.h.Trace(func(t hangulize.Trace) { traces = append(traces, t) })
		}
		got, err = x.h.Hangulize(w)
		x.h.Trace(nil)
	} else {
		got, err = hangulize.Hangulize(lang, w)
	}
	calls := append([]call{}, *log...)

	// What must have happened.
	cur := w
	var want []call
	for _, s := range declared {
		t, ok := x.have[s]
		if !ok {
			if !errors.Is(err, hangulize.ErrTranslitNotImported) || !strings.Contains(err.Error(), s) {
				fail("a missing Translit does not give ErrTranslitNotImported naming it", s, err)
			}
			// Whether the present ones were called before is not specified.
			if len(calls) > len(want) {
				fail("Translits after a missing one were called", calls)
			}
			c.Count("missing", 1)
			return
		}
		if f, ok := t.(*fake); ok {
			out := f.apply(cur)
			want = append(want, call{s, f.id, cur, out})
			if f.fail {
				if !errors.Is(err, hangulize.ErrTranslit) || errors.Is(err, hangulize.ErrTranslitNotImported) || !strings.Contains(err.Error(), s) {
					fail("a failing Translit does not give ErrTranslit naming it", s, err)
				}
				if !reflect.DeepEqual(calls, want) {
					fail("Translits were not called in the declared order, each with the output of the previous", calls, want)
				}
				c.Count("failing", 1)
				return
			}
			cur = out
		} else {
			out, terr := t.Transliterate(cur)
			if terr != nil {
				fail("a standard Translit fails", s, terr)
				return
			}
			cur = out
		}
	}
	if err != nil {
		fail("a transcription fails although every Translit is there", err)
		return
	}
	if len(calls) != len(want) || (len(want) > 0 && !reflect.DeepEqual(calls, want)) {
		fail("Translits were not called in the declared order, each with the output of the previous", calls, want)
	}
	if x.h != nil {
		res, err := hangulize.New(x.plain).Hangulize(cur)
		if err != nil || res != got {
			fail("the result is not that of the transliterated word", cur, got, res, err)
		}
	} else {
		// The same language with the Translits in a Hangulizer of its own.
		spec, _ := hangulize.LoadSpec(lang)
		h := hangulize.New(spec)
		for _, t := range x.have {
			h.UseTranslit(t)
		}
		res, err := h.Hangulize(w)
		if err != nil || res != got {
			fail("the default registry gives another result than a Hangulizer", w, got, res, err)
		}
	}
	c.Count("transcribed", 1)
}
