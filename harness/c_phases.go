package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"unicode"

	"github.com/hangulize/hangulize"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() {
	checks["C12"] = checkRewrite
	checks["C13"] = checkTranscribe
	checks["C14"] = checkTraces
	checks["C21"] = checkNormalize
	checks["C22"] = checkLocalize
}

// phases splits traces at the phases of the pipeline.
type phases struct {
	prepare, rewrite, transcribe, syllabify, localize []model.Trace
}

func split(ts []model.Trace) phases {
	var p phases
	for _, t := range ts {
		switch t.Step {
		case "Rewrite":
			p.rewrite = append(p.rewrite, t)
		case "Transcribe":
			p.transcribe = append(p.transcribe, t)
		case "Syllabify":
			p.syllabify = append(p.syllabify, t)
		case "Localize":
			p.localize = append(p.localize, t)
		default:
			p.prepare = append(p.prepare, t)
		}
	}
	return p
}

// words drops attributions.
func words(ts []model.Trace) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.Word)
	}
	return out
}

func lastWord(ts ...[]model.Trace) string {
	w := ""
	for _, list := range ts {
		for _, t := range list {
			w = t.Word
		}
	}
	return w
}

func sameWords(a, b []model.Trace) bool {
	return fmt.Sprintf("%q", words(a)) == fmt.Sprintf("%q", words(b))
}

// pair is a spec with its model.
type pair struct {
	name string
	spec *hangulize.Spec
	m    *model.Spec
	text string
}

// makePair parses a generated spec both ways. nil means that the spec is out of
// the model's domain.
func makePair(c *Ctx, name, text string) *pair {
	var spec *hangulize.Spec
	var err error
	p := Try(func() { spec, err = hangulize.ParseSpec(strings.NewReader(text)) })
	m, merr := model.NewSpec(text)
	if p != nil {
		c.Fail("parsing a spec panics", map[string]any{"spec": text, "panic": p})
		return nil
	}
	if err != nil || merr != nil {
		c.Count("rejected_specs", 1)
		if err != nil {
			c.Seen("rejection_reasons", err.Error())
		}
		return nil
	}
	return &pair{name, spec, m, text}
}

// observed is one transcription seen by the monitor with and without traces.
type observed struct {
	with    outcome
	without string
	want    model.Result
	got, ph phases // observed and expected phases
}

// run transcribes with and without traces, and with the model. false means
// that nothing can be said.
func (x *pair) run(c *Ctx, h hangulize.Hangulizer, w string, steps []string) (*observed, bool) {
	var o observed
	bad := false
	if p := Try(func() { o.want = x.m.Run(w, steps) }); p != nil {
		// A rule may match nothing.
		c.Count("out_of_model", 1)
		return nil, false
	}
	c.Guard(x.name+fmt.Sprintf(" %+q", truncate(w, 500)), func() {
		o.with = observe(h, w)
		if p := Try(func() {
			var err error
			o.without, err = h.Hangulize(w)
			if err != nil {
				bad = true
			}
		}); p != nil {
			bad = true
		}
	})
	if o.with.Panic != "" {
		c.Fail("a transcription panics", map[string]any{"spec": x.text, "word": w, "panic": o.with.Panic})
		return nil, false
	}
	if bad || o.with.Err != "" {
		return nil, false
	}
	o.got, o.ph = split(o.with.Traces), split(o.want.Traces)
	return &o, true
}

func (x *pair) detail(w string, o *observed, more map[string]any) map[string]any {
	d := map[string]any{"spec": x.name, "word": w, "result": o.with.Word, "want": o.want.Word,
		"traces": fmt.Sprintf("%+q", o.with.Traces), "want_traces": fmt.Sprintf("%+q", o.want.Traces)}
	if strings.HasPrefix(x.name, "gen") {
		d["text"] = x.text
	}
	for k, v := range more {
		d[k] = v
	}
	return d
}

// eachSpec makes random specs in parallel.
func eachSpec(c *Ctx, name string, n int, gen func(r *rand.Rand) (*GenSpec, []string), f func(x *pair, g *GenSpec, r *rand.Rand, h hangulize.Hangulizer, w string, i int)) {
	Parallel(n, func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint(name, i))
		g, extra := gen(r)
		x := makePair(c, fmt.Sprint("gen", name, i), g.Text())
		if x == nil {
			return
		}
		c.Count("random_specs", 1)
		h := hangulize.New(x.spec)
		ws := genWords(r, g.G, x.m, 25)
		if i%12 == 0 && len(x.m.Rewrite)+len(x.m.Transcribe) < 60 {
			// One very long word.
			var b strings.Builder
			for n := 30 + r.Intn(c.N(150, 400)); n > 0; n-- {
				b.WriteString(pick(r, ws))
			}
			c.Max("longest_word", b.Len())
			ws = append(ws, b.String())
		}
		for _, w := range append(ws, extra...) {
			f(x, g, r, h, w, i)
		}
	})
}

// eachBundled runs words of the bundled languages.
func eachBundled(c *Ctx, name string, n int, f func(x *pair, l *Lang, h hangulize.Hangulizer, w string, steps []string, i int)) {
	perLang(c, name, n, Langs(), func(x *chunk, i int) {
		w := x.l.Word(x.r)
		if x.r.Intn(3) == 0 {
			w = x.l.NativeWord(x.r)
		}
		if i%80 == 7 {
			w = x.l.Paragraph(x.r)
			c.Max("longest_paragraph", len(w))
		}
		steps, err := x.l.translitSteps(w)
		if err != nil {
			return
		}
		f(&pair{x.l.Name, x.h.Spec(), x.l.Model, x.l.Source}, x.l, x.h, w, steps, i)
	})
}

// ---------------------------------------------------------------------------
// C12

// letterSyllable gives each letter its own transcription, so that the result
// tells the outcome of the rewrite rules.
func plainTranscribe(letters []string) [][2]string {
	var out [][2]string
	jamo := []string{"ㄱㅏ", "ㄴㅓ", "ㄷㅗ", "ㄹㅜ", "ㅁㅡ", "ㅂㅣ", "ㅅㅐ", "ㅈㅔ", "ㅊㅏ", "ㅋㅓ"}
	for i, l := range letters {
		out = append(out, [2]string{l, jamo[i%len(jamo)]})
	}
	return out
}

// madeLater adds rules with the same left side before and after a rule which
// makes a text for it out of a letter, and returns words of this letter.
func madeLater(r *rand.Rand, s *GenSpec) []string {
	ls := alphabetFor(s.Script)
	var words []string
	for try := 0; try < 20 && len(words) < 12; try++ {
		g := *s.G
		g.Letters = ls
		p := g.Pattern(r).String()
		if r.Intn(4) == 0 {
			p = "[" + g.class(r) + "]"
		}
		x, err := model.NewPattern(p, g.Macros, g.Vars)
		if err != nil || x.Re == nil {
			continue
		}
		var b strings.Builder
		sampleRegexp(r, x.Re.AST, &b, 0)
		t, q := b.String(), pick(r, ls)
		if t == "" || strings.Trim(t, strings.Join(ls, "")) != "" || len(x.Find(t, 1)) == 0 || len(x.Find(q, 1)) > 0 {
			continue
		}
		chain := [][2]string{{p, pick(r, ls) + pick(r, ls)}, {q, t}, {p, pick(r, ls)}}
		if r.Intn(2) == 0 {
			s.Rewrite = append(chain, s.Rewrite...)
		} else {
			s.Rewrite = append(s.Rewrite, chain...)
		}
		words = append(words, q, q+q, q+" "+q, q+pick(r, ls), pick(r, ls)+q)
	}
	return words
}

func checkRewrite(c *Ctx) {
	c.Rule = "a case is a (spec, word) pair where at least one rewrite rule replaced something; random specs with up to 9 rewrite rules and one syllable per letter, and all bundled languages. Observed: word after each rewrite rule (traces) and the result, against the reference rewriter"
	judge := func(x *pair, w string, o *observed, plain bool) {
		key := ""
		if o.want.Rewrites > 0 {
			key = x.text + "\x00" + w
		}
		c.Case(key)
		c.Count("replacements", o.want.Rewrites)
		if !sameWords(o.got.prepare, o.ph.prepare) {
			c.Count("other_phase_differs", 1)
			return
		}
		if d := diffTraces(o.got.rewrite, o.ph.rewrite); d != "" && !sameWords(o.got.rewrite, o.ph.rewrite) {
			c.Fail("a rewrite rule does not give the expected word", x.detail(w, o, map[string]any{"diff": d}))
			return
		}
		for _, t := range o.got.rewrite {
			c.Seen("rules_seen", fmt.Sprint(x.name, t.RuleID))
		}
		if plain && !o.want.RawJamo && (o.with.Word != o.want.Word || o.without != o.want.Word) {
			c.Fail("the result does not follow from the rewrite rules", x.detail(w, o, map[string]any{"without_trace": o.without}))
		} else if o.with.Word == o.want.Word && o.without != o.want.Word {
			c.Fail("the result without a trace does not follow from the rewrite rules", x.detail(w, o, map[string]any{"without_trace": o.without}))
		}
	}
	eachSpec(c, "rw", c.N(900, 20000), func(r *rand.Rand) (*GenSpec, []string) {
		s := randSpec(r, 1+r.Intn(9), 0)
		letters := append(append([]string{}, alphabetFor(s.Script)...), "'", "~", "-")
		s.Transcribe = plainTranscribe(letters)
		if r.Intn(3) == 0 {
			// A chain: the outcome of one rule is the input of the next, and
			// one against the order.
			ls := alphabetFor(s.Script)
			s.Rewrite = append(s.Rewrite, [2]string{ls[0], ls[1]}, [2]string{ls[1] + ls[1], ls[0]}, [2]string{ls[1], ls[2] + ls[2]}, [2]string{ls[2], ls[0]})
		}
		if r.Intn(3) > 0 {
			return s, madeLater(r, s)
		}
		return s, nil
	}, func(x *pair, g *GenSpec, r *rand.Rand, h hangulize.Hangulizer, w string, i int) {
		if o, ok := x.run(c, h, w, nil); ok {
			judge(x, w, o, true)
			if i == 3 {
				c.Sample(x.detail(w, o, nil))
			}
		}
	})
	eachBundled(c, "b", c.N(800, 20000), func(x *pair, l *Lang, h hangulize.Hangulizer, w string, steps []string, i int) {
		if o, ok := x.run(c, h, w, steps); ok {
			judge(x, w, o, false)
		}
	})
	total := 0
	for _, l := range Langs() {
		total += len(l.Model.Rewrite)
	}
	c.Extra("bundled_rewrite_rules", total)
}

// ---------------------------------------------------------------------------
// C13

func checkTranscribe(c *Ctx) {
	c.Rule = "a case is a (spec, word) pair where at least one transcribe rule replaced something; random specs with up to 10 overlapping transcribe rules, and all bundled languages. Observed: word after each transcribe rule (traces), the word before localization and the result, against the reference transcriber"
	judge := func(x *pair, w string, o *observed, plain bool) {
		key := ""
		if o.want.Transcribes > 0 {
			key = x.text + "\x00" + w
		}
		c.Case(key)
		c.Count("replacements", o.want.Transcribes)
		if !sameWords(o.got.prepare, o.ph.prepare) || !sameWords(o.got.rewrite, o.ph.rewrite) {
			c.Count("other_phase_differs", 1)
			return
		}
		if !sameWords(o.got.transcribe, o.ph.transcribe) {
			c.Fail("a transcribe rule does not give the expected word", x.detail(w, o, map[string]any{"diff": diffTraces(o.got.transcribe, o.ph.transcribe)}))
			return
		}
		for _, t := range o.got.transcribe {
			c.Seen("rules_seen", fmt.Sprint(x.name, t.RuleID))
		}
		if o.want.RawJamo {
			c.Count("raw_jamo", 1)
			return
		}
		got := lastWord(o.got.prepare, o.got.rewrite, o.got.transcribe, o.got.syllabify)
		want := lastWord(o.ph.prepare, o.ph.rewrite, o.ph.transcribe, o.ph.syllabify)
		switch {
		case got != want:
			c.Fail("the transcribed word is not what the rules produced", x.detail(w, o, nil))
		case plain && o.with.Word != o.want.Word:
			c.Fail("the result is not what the rules produced", x.detail(w, o, nil))
		case o.without != o.want.Word && o.with.Word == o.want.Word:
			c.Fail("the result without a trace is not what the rules produced", x.detail(w, o, map[string]any{"without_trace": o.without}))
		}
	}
	eachSpec(c, "tr", c.N(1200, 25000), func(r *rand.Rand) (*GenSpec, []string) {
		rw := 0
		if r.Intn(3) == 0 {
			rw = 1 + r.Intn(3)
		}
		s := randSpec(r, rw, 1+r.Intn(8))
		if s.Script == "Hrkt" {
			s.Script = "Latn"
			for _, p := range []*[][2]string{&s.Rewrite, &s.Transcribe} {
				for i := range *p {
					(*p)[i][0] = strings.NewReplacer("ア", "a", "カ", "b", "ナ", "c", "ー", "d", "ン", "e").Replace((*p)[i][0])
				}
			}
			s.G.Letters = alphabetFor("Latn")
		}
		return s, nil
	}, func(x *pair, g *GenSpec, r *rand.Rand, h hangulize.Hangulizer, w string, i int) {
		if o, ok := x.run(c, h, w, nil); ok {
			judge(x, w, o, true)
			if i == 3 {
				c.Sample(x.detail(w, o, nil))
			}
		}
	})
	eachBundled(c, "b", c.N(800, 20000), func(x *pair, l *Lang, h hangulize.Hangulizer, w string, steps []string, i int) {
		if o, ok := x.run(c, h, w, steps); ok {
			judge(x, w, o, false)
		}
	})
	total := 0
	for _, l := range Langs() {
		total += len(l.Model.Transcribe)
	}
	c.Extra("bundled_transcribe_rules", total)
}

// ---------------------------------------------------------------------------
// C14

var stepOrder = map[string]int{"Input": 0, "Transliterate": 1, "Normalize": 2, "Rewrite": 3, "Transcribe": 4, "Syllabify": 5, "Localize": 6}

// traceSpec is the online specification of a trace sequence. rules tells the
// number of rewrite and transcribe rules.
func traceSpec(ts []model.Trace, input, result string, rewrites, transcribes int) string {
	prev, prevStep, prevRule := "", -1, -1
	for i, t := range ts {
		order, ok := stepOrder[t.Step]
		switch {
		case !ok:
			return "unknown step " + t.Step
		case i == 0 && (t.Step != "Input" || t.Word != input) && input != "":
			return "the first trace is not the input"
		case order < prevStep:
			return "the steps are out of order"
		case t.Word == prev:
			return "a trace repeats the previous word"
		case (t.Step == "Rewrite" || t.Step == "Transcribe") != (t.RuleID >= 0):
			return "a rule is missing or out of place"
		}
		if order != prevStep {
			prevRule = -1
		}
		if t.RuleID >= 0 {
			if t.RuleID <= prevRule {
				return "the rules are out of order"
			}
			if t.Step == "Rewrite" && t.RuleID >= rewrites || t.Step == "Transcribe" && t.RuleID >= transcribes {
				return "there is no such rule"
			}
		}
		prev, prevStep, prevRule = t.Word, order, t.RuleID
	}
	if len(ts) == 0 && input != "" {
		return "there is no trace"
	}
	if prev != result {
		return "the last trace is not the result"
	}
	return ""
}

func checkTraces(c *Ctx) {
	c.Rule = "a case is a (spec, word) pair with more than the input trace; random specs, bundled languages, failing Translits, re-entrant and changing trace functions. Observed: the trace specification (order, first, last, no repetition, rules), equality of result and error with and without a trace, and the reference traces"
	judge := func(x *pair, w string, o *observed) {
		key := ""
		if len(o.with.Traces) > 1 {
			key = x.text + "\x00" + w
		}
		c.Case(key)
		c.Count("traces", len(o.with.Traces))
		if o.with.Word != o.without {
			c.Fail("the result depends on the trace", x.detail(w, o, map[string]any{"without_trace": o.without}))
			return
		}
		if d := traceSpec(o.with.Traces, w, o.with.Word, len(x.m.Rewrite), len(x.m.Transcribe)); d != "" {
			c.Fail("traces: "+d, x.detail(w, o, nil))
			return
		}
		if o.want.RawJamo || o.want.Word != o.with.Word {
			// Not a matter of traces.
			c.Count("result_differs_from_model", 1)
			return
		}
		if d := diffTraces(o.with.Traces, o.want.Traces); d != "" {
			c.Fail("the traces do not tell what happened", x.detail(w, o, map[string]any{"diff": d}))
		}
	}
	eachSpec(c, "tt", c.N(800, 15000), func(r *rand.Rand) (*GenSpec, []string) {
		return randSpec(r, r.Intn(6), r.Intn(6)), []string{"", " ", "☃"}
	}, func(x *pair, g *GenSpec, r *rand.Rand, h hangulize.Hangulizer, w string, i int) {
		if o, ok := x.run(c, h, w, nil); ok {
			judge(x, w, o)
			c.checkRuleIdentity(x, h, w)
			if i == 3 {
				c.Sample(x.detail(w, o, nil))
			}
		}
	})
	eachBundled(c, "b", c.N(700, 15000), func(x *pair, l *Lang, h hangulize.Hangulizer, w string, steps []string, i int) {
		if o, ok := x.run(c, h, w, steps); ok {
			judge(x, w, o)
			if i%4 == 0 {
				c.checkRuleIdentity(x, h, w)
			}
		}
	})
	checkTraceFuncs(c)
}

// checkRuleIdentity compares the rule of each trace with the rule of the spec.
func (c *Ctx) checkRuleIdentity(x *pair, h hangulize.Hangulizer, w string) {
	var kept []hangulize.Trace
	h.Trace(func(t hangulize.Trace) { kept = append(kept, t) })
	if Try(func() { h.Hangulize(w) }) != nil {
		return
	}
	h.Trace(nil)
	n := len(kept)
	for _, t := range kept {
		if t.Rule == nil {
			continue
		}
		list := x.spec.Rewrite
		if t.Step == "Transcribe" {
			list = x.spec.Transcribe
		}
		if t.Rule.ID < 0 || t.Rule.ID >= len(list) || list[t.Rule.ID].ID != t.Rule.ID || fmt.Sprint(list[t.Rule.ID].From) != fmt.Sprint(t.Rule.From) || fmt.Sprint(list[t.Rule.ID].To) != fmt.Sprint(t.Rule.To) {
			c.Fail("the rule of a trace is not a rule of the spec", map[string]any{"spec": x.name, "text": truncate(x.text, 3000), "word": w, "step": t.Step, "rule": fmt.Sprint(t.Rule), "id": t.Rule.ID})
			return
		}
		c.Count("rules_identified", 1)
	}
	if Try(func() { h.Hangulize(w) }) == nil && len(kept) != n {
		c.Fail("a removed trace function is still called", map[string]any{"spec": x.name, "word": w})
	}
}

// failTranslit fails.
type failTranslit string

func (t failTranslit) Scheme() string { return string(t) }
func (t failTranslit) Transliterate(w string) (string, error) {
	return "partial", errors.New("refused")
}

// suffixTranslit appends a text.
type suffixTranslit struct{ scheme, suffix string }

func (t suffixTranslit) Scheme() string                         { return t.scheme }
func (t suffixTranslit) Transliterate(w string) (string, error) { return w + t.suffix, nil }

func checkTraceFuncs(c *Ctx) {
	text := "lang:\n id = \"x\"\n codes = \"x\", \"y\"\n script = \"Latn\"\n translit = \"one\", \"two\"\nrewrite:\n \"a\" -> \"b\"\n \"b\" -> \"c\"\ntranscribe:\n \"c\" -> \"ㅋㅏ\"\n \"d\" -> \"ㄷㅏ\"\n"
	x := makePair(c, "gen-func", text)
	if x == nil {
		c.Fail("a plain spec is rejected", map[string]any{"text": text})
		return
	}
	errWords := []string{"", "a", "abd", "☃", "d d"}
	for _, w := range errWords {
		for mode := 0; mode < 4; mode++ {
			h := hangulize.New(x.spec)
			var wantTraces []model.Trace
			if w != "" {
				wantTraces = append(wantTraces, model.Trace{Step: "Input", Word: w, RuleID: -1})
			}
			switch mode {
			case 0: // nothing is imported
			case 1:
				h.UseTranslit(failTranslit("one"))
			case 2, 3:
				h.UseTranslit(suffixTranslit{"one", "d"})
				wantTraces = append(wantTraces, model.Trace{Step: "Transliterate", Word: w + "d", Why: "one", RuleID: -1})
				if mode == 3 {
					h.UseTranslit(failTranslit("two"))
				}
			}
			res0, err0 := h.Hangulize(w)
			o := observe(h, w)
			c.Case(fmt.Sprint("err", w, mode))
			if err0 == nil || o.Err != err0.Error() || o.Word != res0 {
				c.Fail("the error depends on the trace", map[string]any{"word": w, "mode": mode, "with": o.Err, "without": fmt.Sprint(err0), "results": o.Word + " / " + res0})
			} else if d := diffTraces(o.Traces, wantTraces); d != "" {
				c.Fail("the traces of a failed transcription", map[string]any{"word": w, "mode": mode, "diff": d})
			}
		}
	}
	// A trace function that transcribes in turn.
	h := hangulize.New(x.spec)
	h.UseTranslit(suffixTranslit{"one", "d"})
	h.UseTranslit(suffixTranslit{"two", " a"})
	for _, w := range errWords {
		o := observe(h, w)
		depth := 0
		var outer []model.Trace
		h.Trace(func(t hangulize.Trace) {
			if depth == 0 {
				outer = append(outer, convTrace(t))
				depth++
				h.Hangulize("dd" + w)
				depth--
			}
		})
		res, err := h.Hangulize(w)
		h.Trace(nil)
		c.Case("reentrant" + w)
		if res != o.Word || (err != nil) != (o.Err != "") || diffTraces(outer, o.Traces) != "" {
			c.Fail("a trace function that transcribes changes the outcome", map[string]any{"word": w, "result": res, "want": o.Word, "diff": diffTraces(outer, o.Traces)})
		}
	}
	// Two trace functions one after another, and two Hangulizers of one spec.
	a, b := hangulize.New(x.spec), hangulize.New(x.spec)
	for _, h := range []hangulize.Hangulizer{a, b} {
		h.UseTranslit(suffixTranslit{"one", "d"})
		h.UseTranslit(suffixTranslit{"two", " a"})
	}
	na, nb := 0, 0
	a.Trace(func(hangulize.Trace) { t := &na; *t++ })
	b.Hangulize("abc")
	a.Trace(func(hangulize.Trace) { nb++ })
	a.Hangulize("abc")
	if na != 0 || nb == 0 {
		c.Fail("the trace function of one Hangulizer is called for another or after its replacement", map[string]any{"first": na, "second": nb})
	}
	c.Case("two functions")
}

// ---------------------------------------------------------------------------
// C21

func checkNormalize(c *Ctx) {
	c.Rule = "a case is a (spec, text) pair whose text is changed by normalization: every Unicode character for each script (plain specs) and for each bundled table, and random tables with overlapping variants. Observed: the word after the Normalize step against the reference folding"
	observeNorm := func(x *pair, h hangulize.Hangulizer, w string, start string) {
		var o outcome
		c.Guard(x.name+" normalize", func() { o = observe(h, w) })
		if o.Panic != "" || o.Err != "" {
			c.Fail("a transcription fails", map[string]any{"spec": x.name, "word": truncate(w, 500), "error": o.Panic + o.Err})
			return
		}
		got := lastWord(split(o.Traces).prepare)
		_, want := x.m.NormalizeWord(start)
		key := ""
		if want != start {
			key = x.text + "\x00" + w
		}
		c.Case(key)
		c.Count("characters", len([]rune(w)))
		if got != want {
			c.Fail("a word is not normalized as declared", map[string]any{"spec": x.name, "text": func() string {
				if strings.HasPrefix(x.name, "gen") {
					return x.text
				}
				return ""
			}(), "word": fmt.Sprintf("%+q", firstDiff(got, want, w)), "normalized": fmt.Sprintf("%+q", window(got, want)), "want": fmt.Sprintf("%+q", window(want, got))})
		}
	}
	// Every character, for each script.
	Parallel(len(model.Scripts)*16, func(j int) {
		script, part := model.Scripts[j/16], rune(j%16)
		x := makePair(c, "gen-"+script, fmt.Sprintf("lang:\n id = \"x\"\n codes = \"x\", \"y\"\n script = \"%s\"\n", script))
		if x == nil {
			c.Fail("a plain spec is rejected", map[string]any{"script": script})
			return
		}
		h := hangulize.New(x.spec)
		var b strings.Builder
		n := 0
		for ch := part; ch <= unicode.MaxRune; ch += 16 {
			if ch >= 0xd800 && ch < 0xe000 || ch >= 0x30000 && ch < 0xe0000 && ch%1024 > 15 {
				continue
			}
			b.WriteRune(ch)
			if n++; n%64 == 0 {
				observeNorm(x, h, b.String(), b.String())
				b.Reset()
			}
		}
		observeNorm(x, h, b.String(), b.String())
	})
	// The bundled tables.
	perLang(c, "bundled", c.N(400, 6000), Langs(), func(x *chunk, i int) {
		l, r := x.l, x.r
		var b strings.Builder
		if i == 0 {
			for _, to := range sortedKeys(l.Model.Normalize) {
				for _, from := range l.Model.Normalize[to] {
					b.WriteString(from + to + strings.ToUpper(from) + "☃" + strings.ToUpper(to))
				}
			}
		}
		for k := 1 + r.Intn(12); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				b.WriteRune(scriptLetter(r, l.Model.Script))
			case 1:
				b.WriteRune(randomRune(r))
			case 2:
				if keys := sortedKeys(l.Model.Table()); len(keys) > 0 {
					b.WriteString(pick(r, keys))
				}
			case 3:
				b.WriteString(l.letters(r, 1))
			default:
				b.WriteString(l.NativeWord(r))
			}
		}
		w := strings.ToValidUTF8(b.String(), "")
		start, err := l.transliterated(w)
		if err != nil {
			return
		}
		observeNorm(&pair{l.Name, x.h.Spec(), l.Model, l.Source}, x.h, w, start)
	})
	// Random tables.
	Parallel(c.N(1500, 30000), func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("tables", i))
		script := pick(r, model.Scripts)
		base := alphabetFor(script)
		pool := append([]string{"x", "X", "é", "É", "ß", "ﬁ", "ц", "Ц", "ψ", "Ψ", "テ", "て", "ვ", "-", "'", "̈", "æ", "Æ", "☃", "ü", "Ü"}, base...)
		g := &GenSpec{Script: script, G: &Grammar{}, Normalize: map[string][]string{}}
		used := map[string]bool{}
		for k := 1 + r.Intn(5); k > 0; k-- {
			to := pick(r, pool)
			if r.Intn(3) == 0 {
				to += pick(r, pool)
			}
			if _, dup := g.Normalize[to]; dup {
				continue
			}
			var froms []string
			for m := 1 + r.Intn(3); m > 0; m-- {
				from := pick(r, pool)
				for r.Intn(2) == 0 {
					from += pick(r, pool)
				}
				if !used[from] && from != "" {
					froms = append(froms, from)
					used[from] = true
				}
			}
			if len(froms) > 0 {
				g.Normalize[to] = froms
			}
		}
		x := makePair(c, fmt.Sprint("gen-table", i), g.Text())
		if x == nil {
			return
		}
		h := hangulize.New(x.spec)
		for k := 0; k < 12; k++ {
			w := ""
			m := 1 + r.Intn(8)
			if i%10 == 0 && k == 0 {
				m = 400
			}
			for ; m > 0; m-- {
				switch r.Intn(3) {
				case 0:
					if keys := sortedKeys(x.m.Table()); len(keys) > 0 {
						w += pick(r, keys)
					}
				case 1:
					w += strings.ToUpper(pick(r, pool))
				default:
					w += pick(r, pool)
				}
			}
			observeNorm(x, h, w, w)
			if i == 2 && k < 3 {
				c.Sample(map[string]any{"table": x.m.Table(), "word": w})
			}
		}
	})
}

func window(a, b string) string {
	ra, rb := []rune(a), []rune(b)
	i := 0
	for i < len(ra) && i < len(rb) && ra[i] == rb[i] {
		i++
	}
	j := i + 10
	if j > len(ra) {
		j = len(ra)
	}
	if i = i - 3; i < 0 {
		i = 0
	}
	if i > j {
		i = j
	}
	return string(ra[i:j])
}

func firstDiff(got, want, w string) string {
	if len(w) < 300 {
		return w
	}
	return "... " + window(got, want)
}

// ---------------------------------------------------------------------------
// C22

func checkLocalize(c *Ctx) {
	c.Rule = "a case is a (script, text) pair with punctuation: every sequence of up to 4 (thorough: 5) of 14 units (the Japanese marks, other marks, spaces, ZWSP, a letter, a foreign character), random texts, rules which write seven kinds of spaces next to marks, and the bundled languages. Observed: the result against the reference localization of the word before it"
	units := []string{"。", "、", "「", "」", "『", "』", "？", "：", "〜", " ", "\u200b", "カ", "☃", ",", "！", "\"", "\u3000", "(", "・"}
	core := units[:15]
	n := c.N(4, 5)
	spaceRules := ""
	specText := func(script string) string {
		return fmt.Sprintf("lang:\n id = \"x\"\n codes = \"x\", \"y\"\n script = \"%s\"\ntranscribe:\n \"カ\" -> \"ㅋㅏ\"\n \"a\" -> \"ㅏ\"\n"+spaceRules, script)
	}
	// Rules which write the other spaces: the text itself keeps only " ".
	spaceLetters := map[string]string{}
	for i, l := range []rune("サシスセソタチ") {
		spaceLetters[string(l)] = []string{"\t", "\u00a0", "\u3000", "\u2003", "\v", "\u0085", "\u200b"}[i]
	}
	for i, l := range []rune("stuvwxy") {
		spaceLetters[string(l)] = spaceLetters[string([]rune("サシスセソタチ")[i])]
	}
	letters := sortedKeys(spaceLetters)
	for _, l := range letters {
		spaceRules += fmt.Sprintf(" \"%s\" -> \"%s\"\n", l, spaceLetters[l])
	}
	judge := func(x *pair, w string, o *observed) {
		key := ""
		if strings.IndexFunc(w, unicode.IsPunct) >= 0 {
			key = x.name + "\x00" + w
		}
		c.Case(key)
		before := lastWord(o.got.prepare, o.got.rewrite, o.got.transcribe, o.got.syllabify)
		wantBefore := lastWord(o.ph.prepare, o.ph.rewrite, o.ph.transcribe, o.ph.syllabify)
		if before != wantBefore || o.want.RawJamo {
			c.Count("other_phase_differs", 1)
			return
		}
		if o.with.Word != o.want.Word || o.without != o.want.Word {
			c.Fail("punctuation is not localized as expected", map[string]any{"spec": x.name, "word": fmt.Sprintf("%+q", w), "before": fmt.Sprintf("%+q", before), "result": fmt.Sprintf("%+q", o.with.Word), "without_trace": o.without, "want": fmt.Sprintf("%+q", o.want.Word)})
		}
		c.Count("marks", strings.Count(w, "")-1)
	}
	var mu sync.Mutex
	_ = &mu
	Parallel(len(core), func(k int) {
		x := makePair(c, "gen-Hrkt", specText("Hrkt"))
		if x == nil {
			return
		}
		h := hangulize.New(x.spec)
		var rec func(prefix string, depth int)
		rec = func(prefix string, depth int) {
			if c.Failed() {
				return
			}
			if o, ok := x.run(c, h, prefix, nil); ok {
				judge(x, prefix, o)
			}
			if depth == n {
				return
			}
			for _, u := range core {
				rec(prefix+u, depth+1)
			}
		}
		rec(core[k], 1)
	})
	Parallel(len(model.Scripts)*8, func(j int) {
		script := model.Scripts[j/8]
		r := c.Rng(fmt.Sprint("random", j))
		x := makePair(c, "gen-"+script, specText(script))
		if x == nil {
			return
		}
		h := hangulize.New(x.spec)
		for i := 0; i < c.N(1500, 30000) && !c.Failed(); i++ {
			w := ""
			m := 1 + r.Intn(12)
			if i%60 == 0 {
				m = 500
			}
			for ; m > 0; m-- {
				switch r.Intn(7) {
				case 0:
					w += string(pickRune(r, punctPool))
				case 1:
					w += pick(r, spacePool)
				case 6:
					w += pick(r, letters)
				case 2:
					w += pick(r, []string{"a", "カ", "な", "б", "한"})
				case 3:
					w += string(randomRune(r))
				default:
					w += pick(r, units)
				}
			}
			if o, ok := x.run(c, h, w, nil); ok {
				judge(x, w, o)
				if i == 7 {
					c.Sample(map[string]string{"script": script, "word": fmt.Sprintf("%+q", w), "result": fmt.Sprintf("%+q", o.with.Word)})
				}
			}
		}
		// Every mark beside every space which a rule writes.
		for _, l := range letters {
			for _, u := range units {
				for _, w := range []string{l + u, u + l, "カ" + u + l + "カ", "カ" + l + u + "カ", u + l + u} {
					if o, ok := x.run(c, h, w, nil); ok {
						judge(x, w, o)
					}
				}
			}
		}
		// Every mark between characters of all categories.
		beside := []string{"0", "9", "０", "٣", "①", "½", "Ⅷ", "a", "Z", "é", "б", "カ", "な", "漢", "々", "ー", "가", "각", "ㄱ", "ᄀ", "+", "=", "$", "€", "°", "☃", "🙂", "\u0301", "\u00ad", "\u200d", "\ufeff", "\ufe0f", "\ue000", "\x00", "\x1b", "\ufffd", "x", "́", "ʰ", "^", "|", "~", "`", string(randomRune(r)), string(randomRune(r)), string(pickRune(r, foreignPool))}
		for k, a := range beside {
			if k%8 != j%8 {
				continue
			}
			for _, b := range beside {
				for _, u := range units {
					for _, w := range []string{a + u + b, a + " " + u + b, a + u + u + b} {
						if o, ok := x.run(c, h, w, nil); ok {
							judge(x, w, o)
						}
					}
				}
			}
		}
		// Every punctuation mark there is.
		for ch := rune(0); ch <= unicode.MaxRune; ch++ {
			if !unicode.IsPunct(ch) || int(ch)%8 != j%8 {
				continue
			}
			for _, w := range []string{string(ch), "カ" + string(ch) + "カ", "。" + string(ch) + "「", "a " + string(ch) + "a"} {
				if o, ok := x.run(c, h, w, nil); ok {
					judge(x, w, o)
				}
			}
			c.Count("punctuation_characters", 1)
		}
	})
	perLang(c, "bundled", c.N(200, 4000), Langs(), func(x *chunk, i int) {
		w := ""
		for m := 1 + x.r.Intn(5); m > 0; m-- {
			w += pick(x.r, []string{x.l.NativeWord(x.r), pick(x.r, units), pick(x.r, units), string(pickRune(x.r, punctPool)), " "})
		}
		steps, err := x.l.translitSteps(w)
		if err != nil {
			return
		}
		p := &pair{x.l.Name, x.h.Spec(), x.l.Model, x.l.Source}
		if o, ok := p.run(c, x.h, w, steps); ok {
			judge(p, w, o)
		}
	})
}
