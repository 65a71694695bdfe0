package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"
	"github.com/hangulize/hangulize/pkg/tracefmt"
	"github.com/mattn/go-runewidth"
)

func init() { checks["C30"] = checkTraceFormat }

// parseTraces reads the rendering of the traces from the head of the text and
// returns what follows.
func parseTraces(text string, ts []hangulize.Trace) (string, error) {
	step, first := "", true
	column := 0
	for i, t := range ts {
		if t.Step != step || (first && strings.HasPrefix(text, "[]\n")) {
			head := "[" + t.Step + "]\n"
			if !strings.HasPrefix(text, head) {
				return text, fmt.Errorf("trace %d: no heading %q at %q", i, head, truncate(text, 120))
			}
			text = text[len(head):]
		}
		step, first = t.Step, false
		if !strings.HasPrefix(text, "  "+t.Word) {
			return text, fmt.Errorf("trace %d: no word %q at %q", i, truncate(t.Word, 200), truncate(text, 200))
		}
		text = text[2+len(t.Word):]
		note := ""
		switch {
		case t.Rule != nil:
			note = "\"" + t.Rule.From.String() + "\" -> \"" + t.Rule.To.String() + "\""
		case t.Why != "":
			note = "(" + t.Why + ")"
		}
		pad := 0
		for pad < len(text) && text[pad] == ' ' {
			pad++
		}
		if note == "" {
			if pad >= len(text) || text[pad] != '\n' {
				return text, fmt.Errorf("trace %d: something follows the word: %q", i, truncate(text, 120))
			}
			text = text[pad+1:]
			continue
		}
		want := "| " + note + "\n"
		if !strings.HasPrefix(text[pad:], want) {
			return text, fmt.Errorf("trace %d: no note %q at %q", i, truncate(want, 300), truncate(text, 300))
		}
		if pad == 0 {
			return text, fmt.Errorf("trace %d: the note touches the word", i)
		}
		if col := runewidth.StringWidth(t.Word) + pad; col < column {
			return text, fmt.Errorf("trace %d: the column moves from %d to %d", i, column, col)
		} else {
			column = col
		}
		text = text[pad+len(want):]
	}
	return text, nil
}

var traceSteps = []string{"Input", "Transliterate", "Normalize", "Group", "Rewrite", "Transcribe", "Syllabify", "Localize"}

var widthPool = []string{
	"", "a", "한", "ㅎ", "e\u0301", "\u200b", "\u00ad", "\t", "ｱ", "Ａ", "👩‍👩‍👧‍👦", "🇰🇷", "🏳️‍🌈", "ก็", "\u0600", "\u202e", "\x00", "\x1b", "\ufeff", "…", "①", "α", "§", "\u0300", "ᄒ\u1161\u11ab", "일", "日", "\x80", "\xff", "ﷺ", "｡", "□",
}

func traceWord(r *rand.Rand) string {
	var b strings.Builder
	n := r.Intn(20)
	switch r.Intn(10) {
	case 0:
		n = 7 + r.Intn(3)
	case 1:
		n = r.Intn(150)
	case 2:
		if r.Intn(8) == 0 {
			n = 150 << r.Intn(7)
		}
	}
	one := pick(r, widthPool)
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			b.WriteString(pick(r, widthPool))
		case 1:
			b.WriteRune(randomRune(r))
		case 2:
			b.WriteString("한")
		case 3:
			b.WriteString(one)
		default:
			b.WriteByte(byte('a' + r.Intn(26)))
		}
	}
	return b.String()
}

func checkTraceFormat(c *Ctx) {
	c.Rule = "a case is a list of traces given to FprintTraces: every list of up to three words of each width from 0 to 40 made of narrow, wide and zero-width characters, random lists with words of any characters and lengths, rules and reasons, lists cut, and real traces of all languages; non-trivial if there is an annotated trace. Observed: the output read back line by line (heading for each change of the step, the word, the note of the trace, nothing else), the column of the annotation by the display width, no panic, and the traces being untouched"
	rules := []*hangulize.Rule{}
	for _, pair := range [][2]string{{"a", "b"}, {"^x{y}", ""}, {"<v>", "<w>"}, {"%s%d", "%!"}, {"가{~b}", "\"->\""}, {"(", ""}, {"日本", "ㅏ"}} {
		from, err := hre.NewPattern(pair[0], map[string]string{}, map[string][]string{"v": {"a"}, "w": {"b"}})
		if err != nil {
			continue
		}
		rules = append(rules, &hangulize.Rule{ID: len(rules), From: from, To: hre.NewRPattern(pair[1], map[string]string{}, map[string][]string{"w": {"b"}})})
	}
	whys := []string{"", "", "", "why", "foreign", "%d", "a\tb", "긴 설명", "(x)", " ", "|"}
	test := func(ts []hangulize.Trace) bool {
		before := fmt.Sprintf("%+q", fmt.Sprint(ts))
		var buf bytes.Buffer
		var p error
		c.Guard("render", func() { p = Try(func() { tracefmt.FprintTraces(&buf, ts) }) })
		var desc []string
		key := ""
		for _, t := range ts {
			note := t.Why
			if t.Rule != nil {
				note = "rule " + t.Rule.String()
			}
			desc = append(desc, fmt.Sprintf("%+q", []string{t.Step, t.Word, note}))
			if note != "" {
				key = "x"
			}
			c.Seen("widths", fmt.Sprint(runewidth.StringWidth(t.Word)))
		}
		if key != "" {
			key = strings.Join(desc, "\n")
		}
		c.Case(key)
		c.Count("traces", len(ts))
		detail := func(why string) map[string]any {
			return map[string]any{"traces": truncate(strings.Join(desc, "\n"), 3000), "output": truncate(buf.String(), 2000), "why": why}
		}
		if p != nil {
			c.Fail("rendering traces fails", detail(p.Error()))
			return false
		}
		rest, err := parseTraces(buf.String(), ts)
		if err == nil && rest != "" {
			err = fmt.Errorf("more output: %q", truncate(rest, 200))
		}
		if err != nil {
			c.Fail("the rendering isn't complete and in order", detail(err.Error()))
			return false
		}
		if after := fmt.Sprintf("%+q", fmt.Sprint(ts)); after != before {
			c.Fail("rendering changes the traces", detail(after))
			return false
		}
		return true
	}
	test(nil)
	test([]hangulize.Trace{})

	// All widths: lists of three words.
	mk := func(w, kind int) string {
		switch kind {
		case 0:
			return strings.Repeat("a", w)
		case 1:
			return strings.Repeat("한", w/2) + strings.Repeat("b", w%2)
		default:
			return strings.Repeat("e\u0301", w) + "\u200b"
		}
	}
	maxW := c.N(34, 70)
	for a := 0; a <= maxW && !c.Failed(); a++ {
		for b := 0; b <= maxW; b++ {
			for k := 0; k < 9; k++ {
				test([]hangulize.Trace{
					{Step: "Input", Word: mk(a, k%3), Why: "a"},
					{Step: "Rewrite", Word: mk(b, k/3), Rule: rules[0]},
					{Step: "Rewrite", Word: mk((a+b)/2, k%3)},
					{Step: "Rewrite", Word: "", Rule: rules[len(rules)-1]},
				})
			}
		}
	}
	n, chunks := c.N(30000, 800000), 64
	Parallel(chunks, func(k int) {
		r := c.Rng(fmt.Sprintf("random/%d", k))
		for i := 0; i < n/chunks && !c.Failed(); i++ {
			var ts []hangulize.Trace
			step := pick(r, traceSteps)
			for m := r.Intn(14); m > 0; m-- {
				if r.Intn(3) == 0 {
					step = pick(r, traceSteps)
				}
				if r.Intn(60) == 0 && len(ts) > 0 {
					step = ""
				}
				t := hangulize.Trace{Step: step, Word: traceWord(r)}
				switch r.Intn(3) {
				case 0:
					t.Rule = rules[r.Intn(len(rules))]
					if r.Intn(4) == 0 {
						t.Why = pick(r, whys)
					}
				case 1:
					t.Why = pick(r, whys)
				}
				ts = append(ts, t)
			}
			test(ts)
			if step == "" {
				step = "Input"
			}
		}
	})
	if c.Failed() {
		return
	}
	// Real traces: what is printed for a rule is what the spec says.
	langs := Langs()
	installDefault()
	Parallel(len(langs), func(i int) {
		l := langs[i]
		h, err := l.hangulizer()
		if err != nil {
			return
		}
		var ts []hangulize.Trace
		h.Trace(func(t hangulize.Trace) { ts = append(ts, t) })
		r := c.Rng("real/" + l.Name)
		for k := 0; k < c.N(60, 1500) && !c.Failed(); k++ {
			ts = nil
			w := l.Word(r)
			if k < len(l.Seeds) {
				w = l.Seeds[k]
			}
			if Try(func() { h.Hangulize(w) }) != nil {
				continue
			}
			test(ts)
			for _, t := range ts {
				if t.Rule == nil {
					continue
				}
				rules := l.Model.Rewrite
				if t.Step == "Transcribe" {
					rules = l.Model.Transcribe
				}
				if t.Rule.ID >= len(rules) {
					c.Fail("a trace names no rule of the spec", map[string]any{"lang": l.Name, "word": w, "id": t.Rule.ID})
					break
				}
				m := rules[t.Rule.ID]
				if want := m.String(); t.Rule.String() != want {
					c.Fail("a rule isn't printed as in the spec", map[string]any{"lang": l.Name, "word": w, "rule": t.Rule.String(), "want": want})
					break
				}
				c.Count("rules printed", 1)
			}
		}
	})
	// PrintTraces writes the same to the standard output.
	ts := []hangulize.Trace{{Step: "Input", Word: "Roma", Why: "x"}, {Step: "Rewrite", Word: "로마", Rule: rules[0]}}
	var buf bytes.Buffer
	tracefmt.FprintTraces(&buf, ts)
	if got, ok := captureStdout(func() { tracefmt.PrintTraces(ts) }); ok && got != buf.String() {
		c.Fail("PrintTraces differs from FprintTraces", map[string]any{"got": got, "want": buf.String()})
	}
	c.Sample(buf.String())
}

// captureStdout runs f with another standard output.
func captureStdout(f func()) (string, bool) {
	file, err := os.CreateTemp(work(), "stdout")
	if err != nil {
		return "", false
	}
	defer file.Close()
	old := os.Stdout
	os.Stdout = file
	f()
	os.Stdout = old
	b, err := os.ReadFile(file.Name())
	return string(b), err == nil
}
