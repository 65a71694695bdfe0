package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
	"golang.org/x/text/unicode/norm"
)

func init() {
	checks["C01"] = checkDeterminism
	children["determinism"] = determinismChild
}

// detSpec is a spec of the determinism check: a bundled language, or a text.
type detSpec struct {
	Name string
	Text string // of a generated spec
}

type detCase struct {
	Spec int // -1: a Translit
	Tr   int
	Word string
}

// detWorkload is the same in every process with the same seed and size.
func detWorkload(seed int64, perLang, gen int) ([]detSpec, []detCase) {
	c := &Ctx{ID: "C01", Seed: seed}
	var specs []detSpec
	var cases []detCase
	r := c.Rng("workload")
	for _, l := range Langs() {
		i := len(specs)
		specs = append(specs, detSpec{Name: l.Name})
		var words []string
		for k := 0; k < perLang; k++ {
			words = append(words, l.Word(r))
		}
		// Words which look alike: the same length, prefix or suffix.
		if len(l.Seeds) > 0 {
			s := pick(r, l.Seeds)
			words = append(words, s, s+s, s+" ", " "+s, strings.ToUpper(s), s+"a", "a"+s)
		}
		// The same words in every language.
		words = append(words, "Gloria", "gloria", "José", "Straße", "Мoсква", "カナ", "a", "", "1a1", "x y", "e e e")
		// The same marks and letters in all kinds of surroundings.
		s := "カサ"
		if l.Model.Script != "Hrkt" {
			s = string(l.Alphabet[r.Intn(len(l.Alphabet))]) + string(l.Alphabet[r.Intn(len(l.Alphabet))])
		}
		marks := []string{",", "(", "'", "-", " ", "1"}
		if l.Model.Script == "Hrkt" {
			marks = []string{"。", "、", "「", "」", "『", "』", "？", "：", "〜", "・", "！", " ", "(", ","}
		}
		for _, m := range marks {
			words = append(words, s+m, m+s, s+m+s, s+" "+m+" "+s, m, s+m+m+s, "1"+m+s)
		}
		// Words which are the same but for something easily overlooked.
		for _, w := range []string{"Gloria", "José", "Москва", "Ἀθῆναι", "ガキ", s} {
			words = append(words, w, strings.ToLower(w), strings.ToUpper(w), norm.NFC.String(w), norm.NFD.String(w), norm.NFKC.String(w))
			if w != s {
				continue
			}
			words = append(words, w+"\u200b", w+"\x00", w+"\n", " "+w, w+w, w+"-", w+"\xff", w+"\xfe", w+"\ufffd")
			rs := []rune(w)
			for a, b := 0, len(rs)-1; a < b; a, b = a+1, b-1 {
				rs[a], rs[b] = rs[b], rs[a]
			}
			words = append(words, string(rs))
		}
		long := strings.Repeat(s, 200/len(s)+1)
		words = append(words, long+"a", long+"b", "a"+long, "b"+long)
		// The same name and word in a row: "jpn" + "-ckX", "jpn-ck" + "X".
		for _, o := range Langs() {
			if strings.HasPrefix(o.Name, l.Name) {
				for _, sep := range []string{"", " ", ":", "/", "-", "\x00", "|", ",", "."} {
					rest := strings.TrimPrefix(o.Name[len(l.Name):], sep)
					for _, w := range []string{"Gloria", "ガキ", "とうきょう"} {
						words = append(words, sep+w, rest+w, rest+sep+w)
					}
				}
			}
		}
		seen := map[string]bool{}
		for _, w := range words {
			if !seen[w] {
				seen[w] = true
				cases = append(cases, detCase{i, 0, w})
			}
		}
	}
	// Families of generated specs which share expressions, names and IDs but
	// differ in what they mean.
	var words []string
	addSpec := func(s *GenSpec, k, j int) {
		i := len(specs)
		specs = append(specs, detSpec{Name: fmt.Sprintf("gen%d.%d", k, j), Text: s.Text()})
		if j == 0 {
			words = nil
		}
		if j < 3 {
			for n := 0; n < 10; n++ {
				w := ""
				for m := 1 + r.Intn(7); m > 0; m-- {
					w += pick(r, []string{"a", "b", "c", "d", "x", "xx", "xy", "y", "q", "z", " ", "1", "B"})
				}
				words = append(words, w)
			}
		}
		for _, w := range words[len(words)-10:] {
			cases = append(cases, detCase{i, 0, w})
		}
		if j >= 3 {
			for _, w := range words[:10] {
				cases = append(cases, detCase{i, 0, w})
			}
		}
	}
	for k := 0; k < gen; k++ {
		fam := &GenSpec{Script: "Latn", G: &Grammar{Letters: []string{"a", "b", "c", "d"}, Vars: map[string][]string{}, Macros: map[string]string{}}}
		var first GenSpec
		for j := 0; j < 6; j++ {
			if j >= 3 {
				// A twin of the first one which differs in a single detail.
				addSpec(twin(r, &first, j-3), k, j)
				continue
			}
			s := *fam
			s.G = &Grammar{Letters: fam.G.Letters, Vars: map[string][]string{}, Macros: map[string]string{}}
			// Overlapping macros and variants.
			for _, m := range []string{"@", "@@", "@b", "C!"} {
				if r.Intn(3) > 0 {
					s.G.Macros[m] = pick(r, []string{"a", "b", "<v>", "(?:a|b)", "ab", "c"})
				}
			}
			perm := r.Perm(4)
			s.G.Vars["v"] = []string{fam.G.Letters[perm[0]], fam.G.Letters[perm[1]], "ab"}
			s.G.Vars["w"] = []string{fam.G.Letters[perm[2]], fam.G.Letters[perm[3]]}[:1+r.Intn(2)]
			s.Normalize = map[string][]string{}
			for _, p := range [][2]string{{"a", "x"}, {"b", "xx"}, {"c", "xy"}, {"d", "y"}, {"aa", "yx"}} {
				if r.Intn(3) > 0 {
					s.Normalize[p[0]] = []string{p[1], p[1] + "z"}
				}
			}
			if r.Intn(3) == 0 {
				// The same variant of two targets.
				s.Normalize["a"] = append(s.Normalize["a"], "q")
				s.Normalize["d"] = append(s.Normalize["d"], "q")
			}
			s.Rewrite = [][2]string{{"@b", "c"}, {"<v>@", "<w>d"}, {"{@}c", "<w>"}, {"c{~<v>}", "d"}, {"^<w>", "{}<w>"}, {"(a|b)C!", "d"}}
			r.Shuffle(len(s.Rewrite), func(i, j int) { s.Rewrite[i], s.Rewrite[j] = s.Rewrite[j], s.Rewrite[i] })
			s.Rewrite = s.Rewrite[:2+r.Intn(4)]
			s.Transcribe = [][2]string{{"a", pick(r, genJamo)}, {"b", pick(r, genJamo)}, {"{~a}c", pick(r, genJamo)}, {"c", "ㅋ"}, {"<w>", "ㄷㅗ"}, {"d", "-ㄹ"}}
			s.G.Vars["u"] = []string{"ㅏ", "ㅓ", "ㅗ"}
			if r.Intn(2) == 0 {
				s.Transcribe = append([][2]string{{"<v>", "<u>"}}, s.Transcribe...)
			}
			addSpec(&s, k, j)
			if j == 0 {
				first = s
			}
		}
	}
	for t := range translit.Translits() {
		for k := 0; k < perLang; k++ {
			l := Langs()[r.Intn(len(Langs()))]
			if r.Intn(2) == 0 {
				l = LangByName(pick(r, []string{"jpn", "chi", "rus", "ukr"}))
			}
			if l == nil {
				continue
			}
			cases = append(cases, detCase{-1, t, l.Word(r)})
			cases = append(cases, detCase{-1, t, pick(r, []string{"shch", "Shchyokino", "東京", "一時", "すゞめ", "行ってらっしゃい", "重庆", "zhshchkh", "ёлка"})})
		}
	}
	return specs, cases
}

// detRunner runs cases and remembers what it loaded.
type detRunner struct {
	specs   []detSpec
	hs      map[int]hangulize.Hangulizer
	trs     []hangulize.Translit
	noTrace bool
}

func (d *detRunner) forget(i int) {
	delete(d.hs, i)
	if i >= 0 && d.specs[i].Text == "" {
		hangulize.UnloadSpec(d.specs[i].Name)
	}
}

func (d *detRunner) load(i int, parse bool) (hangulize.Hangulizer, error) {
	if h, ok := d.hs[i]; ok && !parse {
		return h, nil
	}
	s := d.specs[i]
	var spec *hangulize.Spec
	var err error
	switch {
	case s.Text != "":
		spec, err = hangulize.ParseSpec(strings.NewReader(s.Text))
	case parse:
		spec, err = hangulize.ParseSpec(strings.NewReader(LangByName(s.Name).Source))
	default:
		spec, err = hangulize.LoadSpec(s.Name)
	}
	if err != nil {
		return nil, err
	}
	h := hangulize.New(spec)
	translit.Install(h)
	d.hs[i] = h
	return h, nil
}

// run gives everything observable about a case on one line.
func (d *detRunner) run(x detCase, parse bool) (line string) {
	if p := Try(func() {
		if x.Spec < 0 {
			w, err := d.trs[x.Tr].Transliterate(x.Word)
			line = fmt.Sprintf("%q %v", w, err)
			return
		}
		h, err := d.load(x.Spec, parse)
		if err != nil {
			line = fmt.Sprintf("load: %v", err)
			return
		}
		w, err := h.Hangulize(x.Word)
		o := outcome{Word: w}
		if err != nil {
			o.Err = err.Error()
		}
		if !d.noTrace {
			o2 := observe(h, x.Word)
			if o2.Word != o.Word || o2.Err != o.Err {
				line = fmt.Sprintf("with traces %q %q, without %q %q", o2.Word, o2.Err, o.Word, o.Err)
				return
			}
			o = o2
		}
		line = fmt.Sprintf("%q %q %q", o.Word, o.Err, fmt.Sprint(o.Traces))
	}); p != nil {
		line = "panic: " + strings.SplitN(p.Error(), "\n", 2)[0]
	}
	return
}

// determinismChild prints the observation of each case in a history which
// depends on the mode: args are mode, seed, words per language, families and
// the number of the process.
func determinismChild(args []string) {
	mode := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	perLang, _ := strconv.Atoi(args[2])
	gen, _ := strconv.Atoi(args[3])
	proc, _ := strconv.ParseInt(args[4], 10, 64)
	specs, cases := detWorkload(seed, perLang, gen)
	d := &detRunner{specs: specs, hs: map[int]hangulize.Hangulizer{}, trs: translit.Translits()}
	r := rand.New(rand.NewSource(seed*1000 + proc))
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	say := func(i int, line string) { fmt.Fprintf(out, "%d\t%s\n", i, line) }

	order := make([]int, len(cases))
	for i := range order {
		order[i] = i
	}
	switch mode {
	case "fresh": // each spec is loaded just for its cases, and forgotten
		last := -1
		for _, i := range order {
			if s := cases[i].Spec; s != last {
				if last >= 0 {
					d.forget(last)
				}
				last = s
			}
			say(i, d.run(cases[i], false))
		}
	case "reverse": // everything is loaded at first
		for i := len(specs) - 1; i >= 0; i-- {
			d.load(i, false)
		}
		for k := len(order) - 1; k >= 0; k-- {
			say(order[k], d.run(cases[order[k]], false))
		}
	case "shuffle": // in a random order with random unloading
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for _, i := range order {
			if r.Intn(20) == 0 {
				d.forget(r.Intn(len(specs)))
			}
			say(i, d.run(cases[i], false))
		}
	case "parse": // parsed anew for every few cases
		for _, i := range order {
			say(i, d.run(cases[i], cases[i].Spec >= 0 && (specs[cases[i].Spec].Text != "" || r.Intn(4) == 0)))
		}
	case "repeat": // with many other calls before and between
		for k := 0; k < 2000; k++ {
			x := cases[r.Intn(len(cases))]
			if x.Spec >= 0 {
				if h, err := d.load(x.Spec, false); err == nil {
					Try(func() { h.Hangulize(x.Word) })
				}
			}
		}
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for n, i := range order {
			say(i, d.run(cases[i], false))
			if n%97 == 0 {
				for k := 0; k < 300; k++ {
					d.noTrace = k < 290
					d.run(cases[i], false)
				}
				d.noTrace = false
			}
			if n%10 == 0 {
				say(i, d.run(cases[i], false))
			}
			if n%500 == 0 {
				runtime.GC()
			}
		}
	case "default": // by the function of the package and its registry
		translit.Install()
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for _, i := range order {
			if s := cases[i].Spec; s >= 0 && specs[s].Text == "" {
				w, err := "", error(nil)
				p := Try(func() { w, err = hangulize.Hangulize(specs[s].Name, cases[i].Word) })
				e := ""
				if err != nil {
					e = err.Error()
				}
				if p != nil {
					e = p.Error()
				}
				fmt.Fprintf(out, "%d\t=%q %q \n", i, w, e)
			}
		}
	case "alone": // only one part of the specs in this process
		n, _ := strconv.ParseInt(args[5], 10, 64)
		for _, i := range order {
			if int64(cases[i].Spec+1)%n == proc {
				say(i, d.run(cases[i], false))
			}
		}
	case "part": // only a part of the cases in this process
		n, _ := strconv.ParseInt(args[5], 10, 64)
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for _, i := range order {
			if (int64(i)*2654435761>>8)%n == proc {
				say(i, d.run(cases[i], false))
			}
		}
	case "parallel":
		for i := range specs {
			d.load(i, false)
		}
		var mu sync.Mutex
		d.noTrace = true
		Parallel(len(order), func(k int) {
			i := order[(k*7919)%len(order)]
			line := d.run(cases[i], false)
			mu.Lock()
			fmt.Fprintf(out, "%d\t=%s\n", i, strings.TrimSuffix(line, `"[]"`))
			mu.Unlock()
		})
	}
}

func checkDeterminism(c *Ctx) {
	c.Rule = "one workload (words of every bundled language, generated specs with overlapping macros, variants and shared expressions, and the standard Translits) runs in many processes with different histories: loaded one by one and unloaded, loaded in reverse, shuffled with unloading, parsed anew, after thousands of other calls, by the default registry, alone in a process, a part of the cases in a process, and in parallel. All observations (result, error and all traces) of a case must be equal. A case is a pair of spec and word; it is non-trivial when it was observed in at least five processes."
	perLang, gen := c.N(14, 120), c.N(40, 400)
	specs, cases := detWorkload(c.Seed, perLang, gen)
	type job struct {
		mode string
		proc int
		n    int
	}
	var jobs []job
	for _, m := range []string{"fresh", "reverse", "shuffle", "parse", "repeat", "default", "parallel"} {
		k := c.N(3, 12)
		for i := 0; i < k; i++ {
			jobs = append(jobs, job{m, i, 0})
		}
	}
	alone := c.N(24, len(specs)+1)
	for i := 0; i < alone; i++ {
		jobs = append(jobs, job{"alone", i, alone})
	}
	parts := c.N(32, 300)
	for i := 0; i < parts; i++ {
		jobs = append(jobs, job{"part", i, parts})
	}

	checkStale(c)
	type seen struct {
		line string
		from string
	}
	var mu sync.Mutex
	first := make([]*seen, len(cases))
	results := make([]*seen, len(cases))
	procs := make([]map[string]bool, len(cases))
	describe := func(i int) map[string]any {
		x := cases[i]
		m := map[string]any{"word": x.Word}
		if x.Spec < 0 {
			m["translit"] = translit.Translits()[x.Tr].Scheme()
		} else {
			m["spec"] = specs[x.Spec].Name
			if t := specs[x.Spec].Text; t != "" {
				m["text"] = t
			}
		}
		return m
	}
	Parallel(len(jobs), func(k int) {
		j := jobs[k]
		env := []string{[]string{"GOGC=100", "GOGC=5", "GOGC=off"}[j.proc%3], "GOMEMLIMIT=2GiB"}
		cmd := childCmd("determinism", env, j.mode, fmt.Sprint(c.Seed), fmt.Sprint(perLang), fmt.Sprint(gen), fmt.Sprint(j.proc), fmt.Sprint(j.n))
		res := runProc(cmd, 1500e9)
		name := fmt.Sprintf("%s/%d", j.mode, j.proc)
		if res.Code != 0 || res.Stuck != "" {
			if strings.Contains(res.Stderr, "/repo/") || res.Stuck != "" {
				c.Fail("a process does not end properly", map[string]any{"process": name, "code": res.Code, "stuck": res.Stuck, "stderr": truncate(res.Stderr, 4000)})
			} else {
				fmt.Fprintln(os.Stderr, "child failed:", res.Code, truncate(res.Stderr, 2000))
				os.Exit(3)
			}
			return
		}
		c.Seen("processes", name)
		mu.Lock()
		defer mu.Unlock()
		for _, line := range strings.Split(res.Stdout, "\n") {
			num, obs, ok := strings.Cut(line, "\t")
			if !ok {
				continue
			}
			i, err := strconv.Atoi(num)
			if err != nil || i >= len(cases) {
				continue
			}
			table := first
			if strings.HasPrefix(obs, "=") {
				table = results
			}
			c.Count("observations", 1)
			if procs[i] == nil {
				procs[i] = map[string]bool{}
			}
			procs[i][name] = true
			if table[i] == nil {
				table[i] = &seen{obs, name}
			} else if table[i].line != obs {
				m := describe(i)
				m["one"], m["other"] = table[i].line, obs
				m["one_process"], m["other_process"] = table[i].from, name
				c.Fail("the same word gets different observations", m)
			}
		}
	})
	for i := range cases {
		key := ""
		if len(procs[i]) >= 5 || (cases[i].Spec < 0 && len(procs[i]) > 1) {
			key = fmt.Sprintf("%v", describe(i))
		}
		c.Case(key)
		if a, b := first[i], results[i]; a != nil && b != nil && cases[i].Spec >= 0 && !strings.HasPrefix(a.line, strings.TrimPrefix(b.line, "=")) {
			m := describe(i)
			m["one"], m["other"] = a.line, b.line
			m["one_process"], m["other_process"] = a.from, b.from
			c.Fail("the same word gets different results", m)
		}
		if a := first[i]; i%(len(cases)/8) == 0 && a != nil {
			m := describe(i)
			m["observed"] = truncate(a.line, 200)
			c.Sample(m)
		}
	}
	c.Extra("specs", len(specs))
}

// twin gives a copy of the spec with one detail changed.
func twin(r *rand.Rand, s *GenSpec, kind int) *GenSpec {
	t := *s
	t.G = &Grammar{Letters: s.G.Letters, Vars: map[string][]string{}, Macros: map[string]string{}}
	for _, name := range sortedKeys(s.G.Vars) {
		t.G.Vars[name] = append([]string(nil), s.G.Vars[name]...)
	}
	for name, m := range s.G.Macros {
		t.G.Macros[name] = m
	}
	t.Normalize = map[string][]string{}
	for to, froms := range s.Normalize {
		t.Normalize[to] = append([]string(nil), froms...)
	}
	t.Rewrite = append([][2]string(nil), s.Rewrite...)
	t.Transcribe = append([][2]string(nil), s.Transcribe...)
	switch {
	case kind == 0: // the values of a var in another order
		v := t.G.Vars[pick(r, []string{"v", "v", "u", "w"})]
		v[0], v[len(v)-1] = v[len(v)-1], v[0]
	case kind == 1 && r.Intn(2) == 0: // another value of the same length
		v := t.G.Vars[pick(r, []string{"v", "w"})]
		v[r.Intn(len(v))] = pick(r, s.G.Letters)
	case kind == 1 && len(t.G.Macros) > 0: // another macro
		t.G.Macros[pick(r, sortedKeys(t.G.Macros))] = pick(r, []string{"a", "b", "c", "d"})
	case r.Intn(3) == 0: // two rules in another order
		i := r.Intn(len(t.Transcribe) - 1)
		t.Transcribe[i], t.Transcribe[i+1] = t.Transcribe[i+1], t.Transcribe[i]
	case r.Intn(2) == 0: // another replacement
		t.Rewrite[r.Intn(len(t.Rewrite))][1] = pick(r, s.G.Letters)
	default: // another target
		if keys := sortedKeys(t.Normalize); len(keys) > 0 {
			k := pick(r, keys)
			t.Normalize["c"], t.Normalize[k] = t.Normalize[k], t.Normalize["c"]
			if len(t.Normalize[k]) == 0 {
				delete(t.Normalize, k)
			}
		}
	}
	return &t
}
