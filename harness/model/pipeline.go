package model

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"unicode"
)

// Spec is the model of a transcription spec.
type Spec struct {
	Doc       Doc
	ID        string
	Codes     []string
	English   string
	Korean    string
	Script    string
	Translit  []string
	Authors   []string
	Stage     string
	Macros    map[string]string
	Vars      map[string][]string
	Normalize map[string][]string

	Rewrite    []*Rule
	Transcribe []*Rule
	Test       [][2]string

	Puncts map[rune]bool
	keep   map[rune]bool
	table  map[string]string
}

func one(v []string) string {
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

// NewSpec builds the model of a spec from a well-formed document.
func NewSpec(src string) (*Spec, error) {
	doc, err := ParseHSL(src)
	if err != nil {
		return nil, err
	}
	lang, config := doc["lang"], doc["config"]
	s := &Spec{
		Doc: doc, ID: one(lang.Get("id")), Codes: lang.Get("codes"),
		English: one(lang.Get("english")), Korean: one(lang.Get("korean")),
		Script: one(lang.Get("script")), Translit: lang.Get("translit"),
		Authors: config.Get("author"), Stage: one(config.Get("stage")),
		Macros: map[string]string{}, Vars: doc["vars"].Table(), Normalize: doc["normalize"].Table(),
		Puncts: map[rune]bool{}, keep: map[rune]bool{}, table: map[string]string{},
	}
	if doc["macros"] != nil {
		for _, p := range doc["macros"].Pairs {
			if len(p.Right) != 1 {
				return nil, errors.New("macro with several values")
			}
			s.Macros[p.Left] = p.Right[0]
		}
	}
	rules := func(name string) ([]*Rule, error) {
		var out []*Rule
		if doc[name] == nil {
			return nil, nil
		}
		for i, p := range doc[name].Pairs {
			from, err := NewPattern(p.Left, s.Macros, s.Vars)
			if err != nil {
				return nil, fmt.Errorf("line %d: %w", p.Line, err)
			}
			if len(p.Right) == 0 {
				return nil, fmt.Errorf("line %d: no right", p.Line)
			}
			out = append(out, &Rule{i, from, NewRPattern(p.Right[0], s.Macros, s.Vars)})
		}
		return out, nil
	}
	if s.Rewrite, err = rules("rewrite"); err != nil {
		return nil, err
	}
	if s.Transcribe, err = rules("transcribe"); err != nil {
		return nil, err
	}
	if doc["test"] != nil {
		for _, p := range doc["test"].Pairs {
			s.Test = append(s.Test, [2]string{p.Left, one(p.Right)})
		}
	}

	// Punctuation which the rules know. The ones which a rewrite rule
	// produces before are hints.
	hints := map[rune]bool{}
	for _, r := range s.Rewrite {
		for ch := range r.To.Letters {
			hints[ch] = true
		}
		for ch := range r.From.Letters {
			if unicode.IsPunct(ch) && !hints[ch] {
				s.Puncts[ch] = true
			}
		}
	}
	for _, r := range s.Transcribe {
		for ch := range r.From.Letters {
			if unicode.IsPunct(ch) && !hints[ch] {
				s.Puncts[ch] = true
			}
		}
	}

	targets := make([]string, 0, len(s.Normalize))
	for to := range s.Normalize {
		targets = append(targets, to)
	}
	sort.Strings(targets)
	for _, to := range targets {
		for _, ch := range to {
			s.keep[ch] = true
		}
		for _, from := range s.Normalize[to] {
			if _, dup := s.table[from]; !dup {
				s.table[from] = to
			}
		}
	}
	return s, nil
}

// Knows tells whether the pipeline hands the character to the rules.
func (s *Spec) Knows(ch rune) bool {
	return ScriptIs(s.Script, ch) || s.Puncts[ch] || unicode.IsSpace(ch)
}

// Keeps tells whether the character occurs in a normalization target.
func (s *Spec) Keeps(ch rune) bool { return s.keep[ch] }

// Table is the normalization table, variant to target.
func (s *Spec) Table() map[string]string { return s.table }

// Trace is a trace of the model. RuleID is -1 without a rule.
type Trace struct {
	Step, Word, Why string
	RuleID          int
}

// cells is a text with a level for each byte.
type cells struct {
	text   string
	levels []int
}

func (c *cells) replace(repls []Repl, level int) {
	var b strings.Builder
	var lv []int
	cur := 0
	for _, x := range repls {
		b.WriteString(c.text[cur:x.Start])
		lv = append(lv, c.levels[cur:x.Start]...)
		b.WriteString(x.Text)
		for range []byte(x.Text) {
			lv = append(lv, level)
		}
		cur = x.Stop
	}
	b.WriteString(c.text[cur:])
	lv = append(lv, c.levels[cur:]...)
	c.text, c.levels = b.String(), lv
}

func (c *cells) add(text string, level int) {
	c.text += text
	for range []byte(text) {
		c.levels = append(c.levels, level)
	}
}

func (c *cells) append(o cells) {
	c.text += o.text
	c.levels = append(c.levels, o.levels...)
}

func (c *cells) runs() []cells {
	var out []cells
	for i := 0; i < len(c.text); {
		j := i
		for j < len(c.text) && c.levels[j] == c.levels[i] {
			j++
		}
		out = append(out, cells{c.text[i:j], append([]int(nil), c.levels[i:j]...)})
		i = j
	}
	return out
}

// NormalizeWord models the normalization.
func (s *Spec) NormalizeWord(word string) (string, string) {
	a := ExpandTable(word, s.table)
	var b strings.Builder
	for _, ch := range a {
		if ScriptIs(s.Script, ch) && !s.keep[ch] {
			ch = ScriptNormalize(s.Script, ch)
		}
		b.WriteRune(ch)
	}
	return a, b.String()
}

// Localize models the localization.
func Localize(script, word string) string {
	rs := []rune(word)
	var b strings.Builder
	tight := func(i int) bool {
		return i < 0 || i >= len(rs) || unicode.IsSpace(rs[i]) || unicode.IsPunct(rs[i])
	}
	for i, ch := range rs {
		if ch == 0x200B {
			continue
		}
		if !unicode.IsPunct(ch) {
			b.WriteRune(ch)
			continue
		}
		p := LocalizePunct(script, ch)
		if tight(i - 1) {
			p = strings.TrimLeft(p, " ")
		}
		if tight(i + 1) {
			p = strings.TrimRight(p, " ")
		}
		b.WriteString(p)
	}
	return b.String()
}

// Result is the outcome of the model.
type Result struct {
	Word   string
	Traces []Trace
	// RawJamo is set when a transcription left the Jamo notation's domain.
	RawJamo bool
	// Touched counts replacements by phase.
	Rewrites, Transcribes int
}

// MaxWord is the number of bytes up to which the model follows a word.
const MaxWord = 1 << 14

// Run runs the pipeline after transliteration. steps holds the word after
// each Translit in the order of spec.Translit.
func (s *Spec) Run(word string, steps []string) Result {
	var res Result
	prev := ""
	trace := func(step, w, why string, rule int) {
		if w == prev {
			return
		}
		prev = w
		res.Traces = append(res.Traces, Trace{step, w, why, rule})
	}

	trace("Input", word, "", -1)
	for i, w := range steps {
		word = w
		trace("Transliterate", word, s.Translit[i], -1)
	}
	a, word := s.NormalizeWord(word)
	trace("Normalize", a, "", -1)
	trace("Normalize", word, s.Script, -1)

	// Partition.
	var all cells
	for _, ch := range word {
		level := 0
		if s.Knows(ch) {
			level = 1
		}
		all.add(string(ch), level)
	}
	parts := all.runs()

	// Rewrite.
	history := make([][]string, len(parts))
	var rewritten cells
	for i := range parts {
		c := parts[i]
		for _, r := range s.Rewrite {
			repls := r.Repls(c.text)
			res.Rewrites += len(repls)
			c.replace(repls, 1)
			if len(c.text) > MaxWord {
				panic("the rules blow up the word")
			}
			history[i] = append(history[i], c.text)
		}
		rewritten.append(c)
	}
	if len(parts) > 0 {
		for k := range s.Rewrite {
			w := ""
			for i := range parts {
				w += history[i][k]
			}
			trace("Rewrite", strings.ReplaceAll(w, "\x00", "."), "", k)
		}
	}

	// Transcribe.
	parts = rewritten.runs()
	history = make([][]string, len(parts))
	var transcribed cells
	active := false
	for i := range parts {
		c := parts[i]
		if c.levels[0] == 0 {
			transcribed.append(c)
			continue
		}
		active = true
		mask := cells{c.text, append([]int(nil), c.levels...)}
		for _, r := range s.Transcribe {
			var repls []Repl
			for _, x := range r.Repls(mask.text) {
				// What has been transcribed is no input.
				if !strings.Contains(mask.text[x.Start:x.Stop], "\x00") {
					repls = append(repls, x)
				}
			}
			res.Transcribes += len(repls)
			c.replace(repls, 2)
			blank := make([]Repl, len(repls))
			for j, x := range repls {
				blank[j] = Repl{x.Start, x.Stop, strings.Repeat("\x00", len(x.Text))}
			}
			mask.replace(blank, 0)
			history[i] = append(history[i], c.text)
		}
		transcribed.append(c)
	}
	if active {
		for k := range s.Transcribe {
			w := ""
			for i := range parts {
				if history[i] == nil {
					w += parts[i].text
				} else {
					w += history[i][k]
				}
			}
			trace("Transcribe", strings.ReplaceAll(w, "\x00", "."), "", k)
		}
	}

	// Drop what has not been transcribed, and syllabify.
	var out, jamo strings.Builder
	flush := func() {
		if !ComposeOK(jamo.String()) {
			res.RawJamo = true
		}
		out.WriteString(Compose(jamo.String()))
		jamo.Reset()
	}
	for _, c := range transcribed.runs() {
		switch c.levels[0] {
		case 0:
			flush()
			out.WriteString(c.text)
		case 1:
			if strings.IndexFunc(c.text, unicode.IsSpace) >= 0 {
				jamo.WriteByte(' ')
			}
		default:
			jamo.WriteString(c.text)
		}
	}
	flush()
	word = out.String()
	trace("Syllabify", word, "", -1)
	word = Localize(s.Script, word)
	trace("Localize", word, s.Script, -1)
	res.Word = word
	return res
}
