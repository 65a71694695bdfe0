package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/hangulize/hangulize"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() {
	checks["C03"] = checkTotality
	checks["C04"] = checkForeign
	checks["C05"] = checkLeak
	checks["C06"] = checkIndependence
}

// chunk is a share of the work for a language.
type chunk struct {
	l *Lang
	h hangulize.Hangulizer
	r *rand.Rand
	k int
}

// perLang runs f about n times for each language, on several goroutines. Every
// chunk has its own Hangulizer.
func perLang(c *Ctx, name string, n int, langs []*Lang, f func(x *chunk, i int)) {
	const chunks = 4
	Parallel(len(langs)*chunks, func(j int) {
		l, k := langs[j/chunks], j%chunks
		x := &chunk{l: l, r: c.Rng(fmt.Sprint(name, l.Name, k)), k: k}
		var err error
		if p := Try(func() { x.h, err = l.hangulizer() }); p != nil || err != nil {
			c.Fail("a bundled language can't be loaded", map[string]any{"lang": l.Name, "error": fmt.Sprint(p, err)})
			return
		}
		c.Seen("languages", l.Name)
		for i := 0; i < (n+chunks-1)/chunks && !c.Failed(); i++ {
			f(x, i)
		}
	})
}

// transcribe runs the word and reports panics.
func transcribe(c *Ctx, h hangulize.Hangulizer, lang, word string) (string, error, bool) {
	var res string
	var err error
	var p error
	c.Guard(lang+" "+fmt.Sprintf("%+q", truncate(word, 500)), func() {
		p = Try(func() { res, err = h.Hangulize(word) })
	})
	if p != nil {
		c.Fail("a transcription panics", map[string]any{"lang": lang, "word": truncate(word, 3000), "panic": p})
		return "", nil, false
	}
	return res, err, true
}

// ---------------------------------------------------------------------------
// C03

func hostileWord(r *rand.Rand, l *Lang) string {
	switch k := r.Intn(24); {
	case k < 10:
		return l.Word(r)
	case k < 12:
		return randomBytes(r, r.Intn(40))
	case k < 14: // broken text
		w := l.Word(r)
		if len(w) == 0 {
			return w
		}
		i := r.Intn(len(w))
		switch r.Intn(3) {
		case 0:
			return w[i:]
		case 1:
			return w[:i] + randomBytes(r, 1) + w[i:]
		}
		return w[:i] + w[i+1:]
	case k < 15: // many marks
		return l.NativeWord(r) + strings.Repeat(pick(r, hostilePool), 1+r.Intn(30)) + l.NativeWord(r)
	case k < 17: // one unit repeated
		return strings.Repeat(l.NativeWord(r), 1+r.Intn(20))
	case k < 18:
		return strings.Repeat(l.letters(r, 1), 1+r.Intn(80))
	case k < 20: // hostile only
		s := ""
		for n := 1 + r.Intn(8); n > 0; n-- {
			s += pick(r, hostilePool)
		}
		return s
	case k < 22: // random runes
		s := ""
		for n := 1 + r.Intn(20); n > 0; n-- {
			s += string(randomRune(r))
		}
		return s
	case k < 23:
		s := ""
		for n := 1 + r.Intn(6); n > 0; n-- {
			s += pick(r, spacePool) + string(pickRune(r, punctPool))
		}
		return s
	}
	s := ""
	for n := 1 + r.Intn(6); n > 0; n-- {
		s += string(scriptLetter(r, l.Model.Script)) + string(scriptLetter(r, pick(r, model.Scripts)))
	}
	return s
}

func checkTotality(c *Ctx) {
	c.Rule = "a case is a (language, input) pair: rule-sampled words, broken UTF-8, markers, long repetitions, single code points; it is non-trivial if the input is not empty. Observed: no panic, no error, valid UTF-8, termination (watchdog on the CPU time), empty in empty out; besides the CPU time of the thread for texts of many short units and 12 times longer ones"
	langs := Langs()
	test := func(l *Lang, h hangulize.Hangulizer, w string) {
		res, err, ok := transcribe(c, h, l.Name, w)
		if !ok {
			return
		}
		c.Case(l.Name + "\x00" + w)
		if err != nil {
			c.Fail("a transcription fails", map[string]any{"lang": l.Name, "word": truncate(w, 3000), "error": err})
		} else if !utf8.ValidString(res) {
			c.Fail("the result is not valid UTF-8", map[string]any{"lang": l.Name, "word": truncate(w, 3000), "result": truncate(res, 3000)})
		} else if w == "" && res != "" {
			c.Fail("an empty input gives a result", map[string]any{"lang": l.Name, "result": res})
		}
		if res != "" {
			c.Seen("results", fmt.Sprint(hash64(l.Name+res)))
		}
	}
	perLang(c, "words", c.N(1500, 30000), langs, func(x *chunk, i int) {
		if i == 0 {
			test(x.l, x.h, "")
		}
		w := hostileWord(x.r, x.l)
		test(x.l, x.h, w)
		if i%16 == 1 {
			// Through the package function with the default registry.
			installDefault()
			var res string
			var err error
			if p := Try(func() { res, err = hangulize.Hangulize(x.l.Name, w) }); p != nil || err != nil || !utf8.ValidString(res) {
				c.Fail("Hangulize fails", map[string]any{"lang": x.l.Name, "word": w, "error": err, "panic": fmt.Sprint(p)})
			}
			c.Count("package_calls", 1)
		}
		if i == 3 && x.k == 0 {
			c.Sample(map[string]string{"lang": x.l.Name, "word": fmt.Sprintf("%+q", w)})
		}
	})
	// Every code point, alone and beside letters, in the languages of each script.
	byScript := map[string]*Lang{}
	for _, l := range langs {
		if byScript[l.Model.Script] == nil || l.Name == "jpn" || l.Name == "chi" {
			byScript[l.Model.Script+strings.Join(l.Model.Translit, "")] = l
		}
	}
	var few []*Lang
	for _, k := range sortedKeys(byScript) {
		few = append(few, byScript[k])
	}
	step := c.N(7, 1)
	perLang(c, "runes", 4, few, func(x *chunk, _ int) {
		for ch := rune(x.k * step); ch <= unicode.MaxRune && !c.Failed(); ch += rune(4 * step) {
			if ch >= 0x30000 && ch < 0xe0000 {
				ch = 0xe0000
			}
			s := string(ch)
			test(x.l, x.h, s)
			if ch < 0x3400 {
				test(x.l, x.h, x.l.letters(x.r, 2)+s+x.l.letters(x.r, 2))
			}
			c.Count("code_points", 1)
		}
	})
	// Long inputs.
	size := c.N(3000, 20000)
	perLang(c, "long", c.N(4, 12), langs, func(x *chunk, _ int) {
		w := ""
		unit := []func() string{
			func() string { return x.l.NativeWord(x.r) },
			func() string { return x.l.letters(x.r, 1) },
			func() string { return x.l.Word(x.r) },
			func() string { return pick(x.r, hostilePool) + x.l.sample(x.r) },
		}[x.k%4]
		if x.k == 1 {
			w = strings.Repeat(unit(), size/2)
		}
		for len(w) < size {
			w += unit()
		}
		if x.l.Model.Script == "Hrkt" {
			// The third-party tokenizer takes cubic time for a run of kana.
			var b strings.Builder
			for i, ch := range []rune(w) {
				if b.WriteRune(ch); i%60 == 59 {
					b.WriteString("。漢字を")
				}
			}
			w = b.String()
		}
		c.Count("long_inputs", 1)
		test(x.l, x.h, w)
	})
	// Results of every length, with each kind of character at the ends.
	ends := []string{"1", "!", " ", "。", "\u0301", "\U0001f642", "-", "\u200b", "\xff"}
	most := c.N(700, 5000)
	perLang(c, "lengths", 4, few, func(x *chunk, _ int) {
		most, jpn := most, x.l.Model.Script == "Hrkt"
		if jpn {
			// The third-party tokenizer takes cubic time.
			most = 280
		}
		for n := x.k; n < most && !c.Failed(); n += 4 {
			for k := 0; k < 3; k++ {
				fill := pick(x.r, []string{"1", "1", "☃", ".", x.l.letters(x.r, 1)})
				if jpn && n > 60 && fill != "1" {
					fill = "1"
				}
				test(x.l, x.h, strings.Repeat(fill, n)+ends[(n/4+x.k+k)%len(ends)])
				test(x.l, x.h, pick(x.r, ends)+strings.Repeat(fill, max(n-2, 0))+pick(x.r, ends))
			}
		}
		for _, n := range []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193} {
			for i := n - 2; i <= n && x.k == 0 && !jpn; i++ {
				for _, end := range ends {
					test(x.l, x.h, strings.Repeat("1", i)+end)
				}
			}
		}
		c.Count("lengths", most/4)
	})
	linearText(c)
}

// ---------------------------------------------------------------------------
// C04

// idTranslit is a Translit that does nothing.
type idTranslit string

func (t idTranslit) Scheme() string                         { return string(t) }
func (t idTranslit) Transliterate(w string) (string, error) { return w, nil }

// foreignTo tells whether the character is certainly foreign: nothing in the
// pipeline of the language may touch it.
func (l *Lang) foreignTo(ch rune) bool {
	if ch < 0 || ch == 0x200B || ch == utf8.RuneError || l.Model.Knows(ch) || l.Model.Keeps(ch) || unicode.IsPunct(ch) || unicode.IsSpace(ch) {
		return false
	}
	for _, rules := range [][]*model.Rule{l.Model.Rewrite, l.Model.Transcribe} {
		for _, r := range rules {
			if r.From.Letters[ch] {
				return false // a symbol which the rules know
			}
		}
	}
	for from := range l.Model.Table() {
		if strings.ContainsRune(from, ch) {
			return false
		}
	}
	if len(l.Model.Translit) > 0 {
		// Inert for every Translit: neither composed nor in a dictionary.
		if !strings.ContainsRune("①②③☃♥€£½²©®™°→∞🙂🍣👍אבשת𝄞𐍈ሀ", ch) {
			return false
		}
		if model.Furigana(string(ch)) != string(ch) {
			return false
		}
	}
	return true
}

func (l *Lang) foreignRune(r *rand.Rand) rune {
	for i := 0; ; i++ {
		ch := pickRune(r, foreignPool)
		if k := r.Intn(8); k < 4 && len(l.Model.Translit) == 0 {
			ch = tableRune(r)
			if k == 0 {
				ch = randomRune(r)
			}
		}
		if l.foreignTo(ch) {
			return ch
		}
		if i > 5000 {
			return '☃'
		}
	}
}

func checkForeign(c *Ctx) {
	c.Rule = "a case is a (language, word with foreign segments) pair; non-trivial if it has both letters of the language and foreign characters. Observed: the foreign characters appear in the result verbatim, once and in order; replacing each foreign segment by a distinct neutral marker replaces only that segment in the result"
	langs := Langs()
	perLang(c, "w", c.N(1600, 40000), langs, func(x *chunk, i int) {
		l, r := x.l, x.r
		n := 1 + r.Intn(4)
		var segs, words []string
		for k := 0; k <= n; k++ {
			w := ""
			if r.Intn(5) > 0 {
				for m := 1 + r.Intn(2); m > 0; m-- {
					w += l.NativeWord(r)
					switch r.Intn(6) {
					case 0:
						w += " "
					case 1:
						if len(l.Model.Puncts) > 0 {
							for ch := range l.Model.Puncts {
								if ch == '-' || ch == '\'' {
									w += string(ch)
								}
							}
						}
					}
				}
			}
			// Strip what is foreign in the words, so that it is known.
			w = strings.Map(func(ch rune) rune {
				if !l.Model.Knows(ch) {
					return -1
				}
				return ch
			}, w)
			words = append(words, w)
			s := ""
			m := 1 + r.Intn(3)
			if r.Intn(10) == 0 {
				m = 1 + r.Intn(30)
			}
			for ; m > 0; m-- {
				s += string(l.foreignRune(r))
			}
			segs = append(segs, s)
		}
		if r.Intn(30) == 0 && len(words) > 1 {
			words[0] = strings.Repeat(words[0]+"a", 50)
			words[0] = strings.Map(func(ch rune) rune {
				if !l.Model.Knows(ch) {
					return -1
				}
				return ch
			}, words[0])
		}
		build := func(seg func(k int) string) string {
			var b strings.Builder
			for k, w := range words {
				b.WriteString(w)
				if k < n {
					b.WriteString(seg(k))
				}
			}
			return b.String()
		}
		w := build(func(k int) string { return segs[k] })
		res, err, ok := transcribe(c, x.h, l.Name, w)
		if !ok {
			return
		}
		key := ""
		if strings.Join(words, "") != "" {
			key = l.Name + "\x00" + w
		}
		c.Case(key)
		c.Count("foreign_segments", n)
		if err != nil {
			c.Fail("a word with foreign text fails", map[string]any{"lang": l.Name, "word": w, "error": err})
			return
		}
		// 1. Nothing foreign is lost, altered, duplicated or reordered.
		want := ""
		for _, s := range segs[:n] {
			want += s
		}
		strip := func(s string) string {
			return strings.Map(func(ch rune) rune {
				if model.IsSyllable(ch) || unicode.IsSpace(ch) {
					return -1
				}
				return ch
			}, s)
		}
		strange := strings.Map(func(ch rune) rune {
			if unicode.IsPunct(ch) {
				return -1
			}
			return ch
		}, strip(res))
		if strange != strip(want) {
			c.Fail("foreign text is not kept", map[string]any{"lang": l.Name, "word": w, "result": res, "foreign": want, "kept": strange})
			return
		}
		// 2. Where the foreign text is, and Hangul in it, against markers.
		marks := []rune("⓪⓵⓶⓷⓸⓹")
		if len(l.Model.Translit) > 0 {
			marks = []rune("①②③☃♥€")
		}
		w2 := build(func(k int) string { return string(marks[k]) })
		h := x.h
		if strings.Contains(strings.Join(l.Model.Translit, " "), "furigana") {
			// The morphological analysis depends on all of the text: compare
			// what happens after it.
			h = hangulize.New(x.h.Spec())
			for _, s := range l.Model.Translit {
				h.UseTranslit(idTranslit(s))
			}
			if res, err, ok = transcribe(c, h, l.Name, w); !ok || err != nil {
				return
			}
		}
		res2, err, ok := transcribe(c, h, l.Name, w2)
		if !ok {
			return
		}
		if err != nil {
			c.Fail("a word with foreign text fails", map[string]any{"lang": l.Name, "word": w2, "error": err})
			return
		}
		want2 := res2
		for k := 0; k < n; k++ {
			if strings.Count(res2, string(marks[k])) != 1 {
				c.Fail("a foreign character is not kept exactly once", map[string]any{"lang": l.Name, "word": w2, "result": res2, "char": string(marks[k])})
				return
			}
		}
		var b strings.Builder
		for _, ch := range want2 {
			k := strings.IndexRune(string(marks[:n]), ch)
			if k < 0 {
				b.WriteRune(ch)
				continue
			}
			b.WriteString(segs[len([]rune(string(marks[:n])[:k]))])
		}
		if b.String() != res {
			c.Fail("foreign text is moved or altered", map[string]any{"lang": l.Name, "word": w, "result": res, "want": b.String(), "word_with_markers": w2, "result_with_markers": res2})
		}
		if i == 5 && x.k == 0 {
			c.Sample(map[string]string{"lang": l.Name, "word": w, "result": res})
		}
	})
}

// ---------------------------------------------------------------------------
// C05

func checkLeak(c *Ctx) {
	c.Rule = "a case is a (language, word) pair: rule-sampled words, letters of the script outside of the rules, partial words, markers and punctuation; non-trivial if the result is not empty. Observed: every character of the result is a Hangul syllable, a space, or the next occurrence of a character that the input had outside of the script"
	langs := Langs()
	perLang(c, "w", c.N(2500, 60000), langs, func(x *chunk, i int) {
		l, r := x.l, x.r
		var w string
		switch r.Intn(6) {
		case 0, 1:
			w = l.NativeWord(r)
		case 2:
			w = l.letters(r, 1+r.Intn(8))
		case 3:
			w = hostileWord(r, l)
		case 4:
			w = l.sample(r) + pick(r, hostilePool) + l.sample(r)
		default:
			w = l.Word(r)
		}
		res, err, ok := transcribe(c, x.h, l.Name, w)
		if !ok || err != nil {
			return
		}
		key := ""
		if res != "" {
			key = l.Name + "\x00" + w
		}
		c.Case(key)
		fail := func(what string, ch rune) {
			c.Fail(what, map[string]any{"lang": l.Name, "word": w, "result": res, "char": fmt.Sprintf("%+q", ch)})
		}
		base, err := l.transliterated(w)
		if err != nil {
			return
		}
		base = model.ExpandTable(base, l.Model.Table())
		src := []rune(model.Localize(l.Model.Script, base))
		// Punctuation keeps its place, but its spaces may differ.
		j := 0
		for _, ch := range res {
			switch {
			case ch == 0x200B:
				fail("a zero-width space leaks", ch)
				return
			case model.ScriptIs(l.Model.Script, ch):
				fail("a letter of the source script leaks", ch)
				return
			}
			if model.IsSyllable(ch) || unicode.IsSpace(ch) || l.writes(ch) {
				continue
			}
			for j < len(src) && src[j] != ch {
				j++
			}
			if j == len(src) {
				fail("the result has a character that is not in the input", ch)
				return
			}
			j++
			c.Count("kept_characters", 1)
		}
		if i == 5 && x.k == 0 {
			c.Sample(map[string]string{"lang": l.Name, "word": fmt.Sprintf("%+q", w), "result": fmt.Sprintf("%+q", res)})
		}
	})
}

// writes tells whether a transcribe rule writes the character literally, as
// the Dutch apostrophe. Jamo and their hyphen are never part of a result.
func (l *Lang) writes(ch rune) bool {
	if ch == '-' || ch == '{' || ch == '}' || unicode.Is(unicode.Hangul, ch) {
		return false
	}
	for _, r := range l.Model.Transcribe {
		for _, p := range r.To.Parts {
			if strings.ContainsRune(p.Lit, ch) {
				return true
			}
		}
	}
	return false
}

// transliterated runs the real Translits of the language.
func (l *Lang) transliterated(word string) (string, error) {
	steps, err := l.translitSteps(word)
	if err != nil {
		return "", err
	}
	if len(steps) > 0 {
		return steps[len(steps)-1], nil
	}
	return word, nil
}

// ---------------------------------------------------------------------------
// C06

func checkIndependence(c *Ctx) {
	c.Rule = "a case is a (language, list of texts, foreign separators) triple; non-trivial if at least two of the texts transcribe to something. Observed: the result of the joined text is the concatenation of the results of the texts"
	var langs []*Lang
	for _, l := range Langs() {
		if l.Model.Script != "Hrkt" { // morphological analysis and punctuation need context
			langs = append(langs, l)
		}
	}
	perLang(c, "w", c.N(1500, 30000), langs, func(x *chunk, i int) {
		l, r := x.l, x.r
		n := 2 + r.Intn(3)
		if r.Intn(40) == 0 {
			n = 30
		}
		joined, want, shown := "", "", []string{}
		nonempty := 0
		for k := 0; k < n; k++ {
			var t string
			switch r.Intn(5) {
			case 0:
				t = l.sample(r)
			case 1:
				t = l.Word(r)
			case 2:
				t = pick(r, []string{" ", "-", "'", ""}) + l.NativeWord(r) + pick(r, []string{" ", "-", "'", ""})
			default:
				t = l.NativeWord(r)
			}
			t = strings.ToValidUTF8(t, "")
			if len(l.Model.Translit) > 0 {
				// The Translit composes marks with what is before.
				t = strings.TrimLeftFunc(t, func(ch rune) bool { return unicode.Is(unicode.M, ch) })
			}
			if shown != nil && r.Intn(8) == 0 && len(shown) > 0 {
				t = pick(r, shown)
			}
			res, err, ok := transcribe(c, x.h, l.Name, t)
			if !ok || err != nil {
				return
			}
			if res != "" {
				nonempty++
			}
			if k > 0 {
				sep := string(l.foreignRune(r))
				joined += sep
				want += sep
			}
			joined += t
			want += res
			shown = append(shown, t)
		}
		res, err, ok := transcribe(c, x.h, l.Name, joined)
		if !ok || err != nil {
			return
		}
		key := ""
		if nonempty >= 2 {
			key = l.Name + "\x00" + joined
		}
		c.Case(key)
		c.Count("texts", n)
		if res != want {
			c.Fail("texts separated by foreign characters influence each other", map[string]any{"lang": l.Name, "texts": fmt.Sprintf("%+q", shown), "joined": joined, "result": res, "want": want})
		}
		if i == 5 && x.k == 0 {
			c.Sample(map[string]string{"lang": l.Name, "joined": joined, "result": res})
		}
	})
}
