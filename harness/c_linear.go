package main

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"

	"github.com/hangulize/hangulize/verifharness/model"
)

// threadCPU is the CPU time of the current thread.
func threadCPU() time.Duration {
	const rusageThread = 1
	var ru syscall.Rusage
	if err := syscall.Getrusage(rusageThread, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// growth measures how many times slower a call gets with a factor times
// longer input. nil if once less than the limit.
func growth(c *Ctx, name string, small, factor, times int, prepare func(n int) func(), limit float64) []float64 {
	cost := func(n, times int) time.Duration {
		call := prepare(n)
		best := time.Duration(-1)
		for k := 0; k < 3; k++ {
			var d time.Duration
			c.Guard(fmt.Sprintf("%s, %d long", name, n), func() {
				runtime.LockOSThread()
				t := threadCPU()
				for i := 0; i < times; i++ {
					call()
				}
				d = threadCPU() - t
				runtime.UnlockOSThread()
			})
			if best < 0 || d < best {
				best = d
			}
		}
		return best
	}
	few := max(1, times/factor)
	var ratios []float64
	for k := 0; k < 4; k++ {
		a, b := cost(small, times), cost(small*factor, few)
		ratio := float64(b) / float64(few) / (float64(max(a, 8*time.Millisecond)) / float64(times))
		c.Max("times_slower_if_12_times_longer", int(ratio))
		ratios = append(ratios, ratio)
		if ratio < limit {
			return nil
		}
	}
	return ratios
}

// linearWidths watches how the time to match with a bounded negative
// lookaround grows with the word. A window that reaches over the whole word
// makes it quadratic.
func linearWidths(c *Ctx) {
	vars := map[string][]string{"v": {"b", "cd", "ß"}, "w": {"bcdefgh", "äöüäöüäöüß"}}
	const small, factor = 1500, 12
	for _, expr := range []string{"{~b}a", "a{~b}", "{~bcd}a", "a{~(b|cd)e}", "{~<v>}a{~<v>}", "{~(ß|가나)b?}a", "{~c|d|ba}a$", "{a}a{~b}", "{~b[cd]}a{a|c}", "{~[bd]c[de]fg}a", "a{~b[cd]efg}", "{~[bc]d(e|fg)[hi]jklmn}a", "a{~(bcdefgh|ab[cd]ef[gh]i)}", "{~<w>[xy]}a{~[xy]<w>}", "{~bcdef}a"} {
		p, err := hre.NewPattern(expr, nil, vars)
		if err != nil {
			c.Fail("a bounded negative lookaround is rejected", map[string]any{"pattern": expr, "error": err})
			continue
		}
		for _, unit := range []string{"a", "ca", "aaß", "a ab"} {
			c.Case(fmt.Sprint("linear ", expr, " ", unit))
			grown := growth(c, fmt.Sprintf("%q on many %q", expr, unit), small, factor, 24, func(n int) func() {
				word := strings.Repeat(unit, n/len(unit))
				return func() {
					if e := Try(func() { p.Find(word, -1) }); e != nil {
						c.Fail("Find panics", map[string]any{"pattern": expr, "unit": unit, "panic": e})
					}
				}
			}, factor*factor/3)
			if grown != nil {
				c.Fail("the time to match grows faster than the word", map[string]any{"pattern": expr, "unit": unit, "bytes": small, "times_longer": factor, "times_slower": fmt.Sprint(grown)})
				return
			}
		}
	}
}

// linearText watches how the time to transcribe grows with the text, where it
// consists of many short texts: for the bundled languages, and for a language
// with hardly any rules on longer texts, where the rest of the pipeline shows.
func linearText(c *Ctx) {
	const factor = 12
	grows := func(h hangulize.Hangulizer, lang, unit string, small int) {
		if c.Failed() {
			return
		}
		c.Case(fmt.Sprint("linear ", lang, " ", unit))
		c.Count("growth_measured", 1)
		grown := growth(c, fmt.Sprintf("%s: many %q", lang, unit), small, factor, 1, func(n int) func() {
			word := strings.Repeat(unit, n/len(unit)+1)
			return func() { transcribe(c, h, lang, word) }
		}, factor*factor/3)
		if grown != nil {
			c.Fail("the time to transcribe grows faster than the text", map[string]any{"lang": lang, "unit": unit, "bytes": small, "times_longer": factor, "times_slower": fmt.Sprint(grown)})
		}
	}
	foreign := []string{"가,", "나 ", "ﾟ.", "«☃»—", "..., ", "(12)", "「", "가나다라", "①\u3000", " \n", "e\u0301", "\u200b", "\xff.", "〜・", "''", "!?"}
	langs := Langs()
	Parallel(len(langs), func(i int) {
		l := langs[i]
		if l.Model.Script == "Hrkt" {
			return // the third-party tokenizer takes cubic time
		}
		h, err := l.hangulizer()
		if err != nil {
			return
		}
		r := c.Rng("linear" + l.Name)
		for k := 0; k < c.N(2, 12); k++ {
			w := pick(r, l.Seeds)
			grows(h, l.Name, w+pick(r, []string{" ", ", ", "☃", "!", ". ", " - ", "」", "\u00a0", "\n", string(l.foreignRune(r))}), 1500)
			grows(h, l.Name, pick(r, foreign), 1500)
		}
	})
	var specs []string
	for _, script := range append([]string{""}, model.Scripts...) {
		specs = append(specs, script)
	}
	Parallel(len(specs), func(i int) {
		text := fmt.Sprintf("lang:\n\tid = \"few\"\n\tcodes = \"xx\", \"few\"\n\tscript = %q\n\nrewrite:\n\t\"xq\" -> \"q\"\n\ntranscribe:\n\t\"a\" -> \"ㅏ\"\n\t\"b{a}\" -> \"ㅂ\"\n", specs[i])
		spec, err := hangulize.ParseSpec(strings.NewReader(text))
		if err != nil {
			c.Fail("a well-formed spec is rejected", map[string]any{"spec": text, "error": err})
			return
		}
		h := hangulize.New(spec)
		for _, unit := range append([]string{"baba ", "ba, ", "a☃", "xqa"}, foreign...) {
			grows(h, "a language with few rules and script "+specs[i], unit, 6000)
		}
	})
}
