package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"

	"github.com/hangulize/hangulize/verifharness/model"
)

// Lang is a bundled language together with its model.
type Lang struct {
	Name     string
	Source   string
	Model    *model.Spec
	Alphabet []rune   // letters that matter for the language
	Seeds    []string // example words
	samplers []*syntax.Regexp
}

var (
	langsOnce sync.Once
	langsAll  []*Lang
	langsErr  error
)

// Langs reads every bundled language from /repo/specs.
func Langs() []*Lang {
	langsOnce.Do(func() {
		files, err := filepath.Glob("/repo/specs/*.hsl")
		if err != nil || len(files) == 0 {
			langsErr = fmt.Errorf("no specs found: %v", err)
			return
		}
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				langsErr = err
				return
			}
			m, err := model.NewSpec(string(b))
			if err != nil {
				langsErr = fmt.Errorf("%s: %w", f, err)
				return
			}
			l := &Lang{Name: strings.TrimSuffix(filepath.Base(f), ".hsl"), Source: string(b), Model: m}
			l.prepare()
			langsAll = append(langsAll, l)
		}
	})
	if langsErr != nil {
		// The specs can't be modelled: nothing can be decided.
		fmt.Fprintln(os.Stderr, "inconclusive:", langsErr)
		os.Exit(3)
	}
	return langsAll
}

// LangByName finds a language.
func LangByName(name string) *Lang {
	for _, l := range Langs() {
		if l.Name == name {
			return l
		}
	}
	return nil
}

func (l *Lang) prepare() {
	set := map[rune]bool{}
	add := func(s string) {
		for _, ch := range s {
			if ch > ' ' {
				set[ch] = true
			}
		}
	}
	for _, t := range l.Model.Test {
		l.Seeds = append(l.Seeds, t[0])
		add(t[0])
	}
	for to, froms := range l.Model.Normalize {
		add(to)
		for _, f := range froms {
			add(f)
		}
	}
	for _, rules := range [][]*model.Rule{l.Model.Rewrite, l.Model.Transcribe} {
		for _, r := range rules {
			for ch := range r.From.Letters {
				if model.ScriptIs(l.Model.Script, ch) || unicode.IsPunct(ch) {
					set[ch] = true
				}
			}
			if r.From.Re == nil {
				continue
			}
			l.samplers = append(l.samplers, r.From.Re.AST)
		}
	}
	for ch := range set {
		l.Alphabet = append(l.Alphabet, ch)
	}
	sort.Slice(l.Alphabet, func(i, j int) bool { return l.Alphabet[i] < l.Alphabet[j] })
	if len(l.Alphabet) == 0 {
		l.Alphabet = []rune("abc")
	}
}

// sampleRegexp generates a text that matches the expression (assertions are
// ignored).
func sampleRegexp(r *rand.Rand, re *syntax.Regexp, b *strings.Builder, depth int) {
	rep := func(min, max int) {
		n := min + r.Intn(3)
		if max >= 0 && n > max {
			n = max
		}
		for i := 0; i < n; i++ {
			sampleRegexp(r, re.Sub[0], b, depth+1)
		}
	}
	switch re.Op {
	case syntax.OpLiteral:
		for _, ch := range re.Rune {
			b.WriteRune(ch)
		}
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return
		}
		k := r.Intn(len(re.Rune)/2) * 2
		lo, hi := re.Rune[k], re.Rune[k+1]
		if hi > lo+0x500 {
			hi = lo + 0x500
		}
		b.WriteRune(lo + rune(r.Intn(int(hi-lo)+1)))
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteRune(rune('a' + r.Intn(26)))
	case syntax.OpStar:
		rep(0, -1)
	case syntax.OpPlus:
		rep(1, -1)
	case syntax.OpQuest:
		rep(0, 1)
	case syntax.OpRepeat:
		rep(re.Min, re.Max)
	case syntax.OpCapture:
		sampleRegexp(r, re.Sub[0], b, depth+1)
	case syntax.OpConcat:
		for _, s := range re.Sub {
			sampleRegexp(r, s, b, depth+1)
		}
	case syntax.OpAlternate:
		sampleRegexp(r, re.Sub[r.Intn(len(re.Sub))], b, depth+1)
	}
}

// Foreign characters which no bundled spec mentions.
var foreignPool = []rune("①②③0123456789☃♥€£½²©®™°→∞🙂🍣👍你好龍한글가힣ㄱㅏאבשतमกขሀ𝄞𐍈")

var spacePool = []string{" ", "  ", "\t", "\n", "\u3000", "\u00a0", "\u2003"}

var punctPool = []rune(".,;:!?'\"()[]{}<>-_/\\@#$%&*+=|~^`·•…‘’“”«»–—、。・「」『』？！：〜（）")

var hostilePool = []string{
	"\x00", "\u200b", "\u200c", "\u200d", "\ufeff", "\ufffd", "\xff", "\xc3", "\xe3\x81", "\xed\xa0\x80",
	"\u0301", "\u0308", "\u0323", "\u3099", "{}", "{", "}", "{}{}", "<", ">", "^", "$", "-", "--", "-ㄴ", "~", "\\",
	"ᄀ", "ᅡ", "ᆫ", "ㅏ", "ㄳ", "\U0010ffff", "\u2028", "\u0130", "\u1e9e", "ﬁ", "Ǆ", "\u00ad", "\u2060", "\u034f", "\u061c", "々", "ゝ", "ヾ", "ー", "゙", "ｱ", "ﾞ",
}

func pickRune(r *rand.Rand, rs []rune) rune { return rs[r.Intn(len(rs))] }

func pick[T any](r *rand.Rand, ss []T) T { return ss[r.Intn(len(ss))] }

// letters gives a random sequence of the language's letters.
func (l *Lang) letters(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		ch := pickRune(r, l.Alphabet)
		switch r.Intn(12) {
		case 0:
			ch = unicode.ToUpper(ch)
		case 1:
			ch = unicode.ToTitle(ch)
		}
		b.WriteRune(ch)
	}
	return b.String()
}

// scriptLetter gives any letter of the script.
func scriptLetter(r *rand.Rand, script string) rune {
	var tab *unicode.RangeTable
	switch script {
	case "Cyrl":
		tab = unicode.Cyrillic
	case "Geor":
		tab = unicode.Georgian
	case "Grek":
		tab = unicode.Greek
	case "Hrkt":
		tab = unicode.Katakana
		if r.Intn(2) == 0 {
			tab = unicode.Hiragana
		}
	default:
		tab = unicode.Latin
		if r.Intn(3) > 0 {
			return rune("abcdefghijklmnopqrstuvwxyz"[r.Intn(26)])
		}
	}
	if r.Intn(8) == 0 && len(tab.R32) > 0 {
		x := tab.R32[r.Intn(len(tab.R32))]
		return rune(x.Lo + uint32(r.Intn(int((x.Hi-x.Lo)/x.Stride)+1))*x.Stride)
	}
	x := tab.R16[r.Intn(len(tab.R16))]
	return rune(x.Lo + uint16(r.Intn(int((x.Hi-x.Lo)/x.Stride)+1))*x.Stride)
}

// sample makes a text that some rule matches.
func (l *Lang) sample(r *rand.Rand) string {
	if len(l.samplers) == 0 {
		return l.letters(r, 2)
	}
	var b strings.Builder
	sampleRegexp(r, l.samplers[r.Intn(len(l.samplers))], &b, 0)
	return b.String()
}

func seedSlice(r *rand.Rand, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return ""
	}
	i := r.Intn(len(rs))
	j := i + 1 + r.Intn(len(rs)-i)
	return string(rs[i:j])
}

// NativeWord makes a word of the language: letters known to its rules only.
func (l *Lang) NativeWord(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(6) {
		case 0, 1:
			if len(l.Seeds) > 0 {
				b.WriteString(seedSlice(r, pick(r, l.Seeds)))
			}
		case 2, 3:
			b.WriteString(l.sample(r))
		case 4:
			b.WriteString(l.letters(r, 1+r.Intn(5)))
		default:
			b.WriteRune(scriptLetter(r, l.Model.Script))
		}
	}
	return b.String()
}

// Word makes a hostile mixture.
func (l *Lang) Word(r *rand.Rand) string {
	if r.Intn(4) == 0 && len(l.Seeds) > 0 {
		return pick(r, l.Seeds)
	}
	var b strings.Builder
	for n := 1 + r.Intn(6); n > 0; n-- {
		switch k := r.Intn(20); {
		case k < 10:
			b.WriteString(l.NativeWord(r))
		case k < 12:
			b.WriteString(pick(r, spacePool))
		case k < 14:
			b.WriteRune(pickRune(r, punctPool))
		case k < 16:
			b.WriteRune(pickRune(r, foreignPool))
		case k < 17:
			b.WriteString(pick(r, hostilePool))
		case k < 18:
			b.WriteRune(scriptLetter(r, pick(r, model.Scripts)))
		case k < 19:
			b.WriteRune(randomRune(r))
		default:
			if len(l.Seeds) > 0 {
				b.WriteString(pick(r, l.Seeds))
			}
		}
	}
	return b.String()
}

// Paragraph makes a long text. The Japanese tokenizer takes cubic time.
func (l *Lang) Paragraph(r *rand.Rand) string {
	size := 500 + r.Intn(1500)
	if len(l.Model.Translit) > 0 {
		size = 150 + r.Intn(150)
	}
	var b strings.Builder
	for b.Len() < size {
		w := l.NativeWord(r)
		if r.Intn(3) == 0 {
			w = l.Word(r)
		}
		for n := r.Intn(4) * r.Intn(4); n >= 0; n-- {
			b.WriteString(w)
		}
		b.WriteString(pick(r, []string{" ", ", ", "", "-", "1", " ☃ "}))
	}
	return b.String()
}

func randomRune(r *rand.Rand) rune {
	for {
		var ch rune
		switch r.Intn(5) {
		case 4:
			return tableRune(r)
		case 0:
			ch = rune(r.Intn(0x250))
		case 1:
			ch = rune(r.Intn(0x3400))
		case 2:
			ch = rune(r.Intn(0x10000))
		default:
			ch = rune(r.Intn(0x110000))
		}
		if ch < 0xd800 || ch > 0xdfff {
			return ch
		}
	}
}

// runeTables are the general categories, scripts and properties of Unicode:
// small ones are as likely as large ones.
var runeTables = func() (tabs []*unicode.RangeTable) {
	for _, m := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
		var names []string
		for n := range m {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if t := m[n]; n != "Cs" && n != "C" && (len(t.R16) > 0 || len(t.R32) > 0) {
				tabs = append(tabs, t)
			}
		}
	}
	return
}()

// tableRune gives a character of a random category, script or property.
func tableRune(r *rand.Rand) rune {
	for {
		t := runeTables[r.Intn(len(runeTables))]
		var ch rune
		if k := r.Intn(len(t.R16) + len(t.R32)); k < len(t.R16) {
			x := t.R16[k]
			ch = rune(x.Lo) + rune(r.Intn(int((x.Hi-x.Lo)/x.Stride)+1))*rune(x.Stride)
		} else {
			x := t.R32[k-len(t.R16)]
			ch = rune(x.Lo) + rune(r.Intn(int((x.Hi-x.Lo)/x.Stride)+1))*rune(x.Stride)
		}
		if ch < 0xd800 || ch > 0xdfff {
			return ch
		}
	}
}

func randomBytes(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return string(b)
}

var installOnce sync.Once

// installDefault installs the standard Translits in the default registry.
func installDefault() { installOnce.Do(func() { translit.Install() }) }

// hangulizer makes a Hangulizer of a bundled language with all Translits.
func (l *Lang) hangulizer() (hangulize.Hangulizer, error) {
	spec, err := hangulize.LoadSpec(l.Name)
	if err != nil {
		return nil, err
	}
	h := hangulize.New(spec)
	translit.Install(h)
	return h, nil
}

// translitSteps runs the real Translits for the model.
func (l *Lang) translitSteps(word string) ([]string, error) {
	var out []string
	if len(l.Model.Translit) == 0 {
		return nil, nil
	}
	have := map[string]hangulize.Translit{}
	for _, t := range translit.Translits() {
		have[t.Scheme()] = t
	}
	for _, s := range l.Model.Translit {
		t := have[s]
		if t == nil {
			return nil, fmt.Errorf("no translit %s", s)
		}
		w, err := t.Transliterate(word)
		if err != nil {
			return nil, err
		}
		word = w
		out = append(out, w)
	}
	return out, nil
}

// outcome is everything observable of one transcription.
type outcome struct {
	Word   string
	Err    string
	Traces []model.Trace
	Panic  string
}

func convTrace(t hangulize.Trace) model.Trace {
	id := -1
	if t.Rule != nil {
		id = t.Rule.ID
	}
	return model.Trace{Step: t.Step, Word: t.Word, Why: t.Why, RuleID: id}
}

// observe transcribes with traces.
func observe(h hangulize.Hangulizer, word string) outcome {
	var o outcome
	h.Trace(func(t hangulize.Trace) { o.Traces = append(o.Traces, convTrace(t)) })
	if err := Try(func() {
		w, err := h.Hangulize(word)
		o.Word = w
		if err != nil {
			o.Err = err.Error()
		}
	}); err != nil {
		o.Panic = err.Error()
	}
	h.Trace(nil)
	return o
}

func diffTraces(a, b []model.Trace) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return fmt.Sprintf("trace %d: nothing, want %+q", i, fmt.Sprint(b[i]))
		}
		if i >= len(b) {
			return fmt.Sprintf("trace %d: %+q, want nothing", i, fmt.Sprint(a[i]))
		}
		if a[i] != b[i] {
			return fmt.Sprintf("trace %d: %+q, want %+q", i, fmt.Sprint(a[i]), fmt.Sprint(b[i]))
		}
	}
	return ""
}
