package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"
	"github.com/hangulize/hangulize/pkg/hsl"
	"github.com/hangulize/hangulize/pkg/tracefmt"
	"github.com/hangulize/hangulize/translit"
)

func init() { checks["C33"] = checkLeak33 }

// held is the memory which is in use after the garbage is collected.
func held() (uint64, int) {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	n := runtime.NumGoroutine()
	for i := 0; i < 50 && n > goroutines; i++ {
		// Goroutines which are about to end.
		time.Sleep(2 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return m.HeapAlloc, n
}

var goroutines int

// faultyReader fails after a while.
type faultyReader struct{ r io.Reader }

func (f faultyReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errFault
	}
	return n, err
}

// schemeTranslit is a Translit of any scheme.
type schemeTranslit struct {
	scheme string
	fail   bool
}

func (t schemeTranslit) Scheme() string { return t.scheme }
func (t schemeTranslit) Transliterate(w string) (string, error) {
	if t.fail {
		return "", errFault
	}
	return w + "x", nil
}

func checkLeak33(c *Ctx) {
	c.Rule = "a case is a segment of an activity: transcribing ever new words by each language, with and without traces, failing transcriptions, parsing ever new specs and HSL texts, good, malformed and cut off, compiling and matching patterns, loading and unloading languages, asking for unknown ones, adding and removing Translits, transliterating, formatting traces; the command with a long standard input; and calls of the WebAssembly program. Each activity runs in four or more segments of the same length, and the memory held after collecting the garbage, the goroutines, the heap of the command and the values of JavaScript which the program holds are read after each. Observed: none of them grows in every segment in proportion to the number of calls; the memory for the languages is given back when they are unloaded"
	langs := Langs()
	installDefault()
	for _, l := range langs {
		l.prepare()
	}
	const slack = 12 << 10 // bytes per segment
	segments := c.N(4, 8)
	activity := func(name string, n int, f func(r *rand.Rand, i int)) {
		if c.Failed() {
			return
		}
		r := c.Rng(name)
		goroutines = runtime.NumGoroutine()
		var heaps []uint64
		var gos []int
		for s := 0; s <= segments; s++ {
			c.Guard(fmt.Sprintf("%s, segment %d", name, s), func() {
				if p := Try(func() {
					for i := 0; i < n; i++ {
						f(r, s*n+i)
					}
				}); p != nil {
					c.Count("panics", 1)
				}
			})
			h, g := held()
			heaps, gos = append(heaps, h), append(gos, g)
			c.Case(fmt.Sprint(name, s))
		}
		c.Count("calls", n*(segments+1))
		c.Seen("activities", name)
		// The first segment fills what is kept for ever.
		leastG := 1 << 30
		for s := 1; s <= segments; s++ {
			leastG = min(leastG, gos[s]-gos[s-1])
		}
		mid := segments / 2
		total, second := int64(heaps[segments])-int64(heaps[1]), int64(heaps[segments])-int64(heaps[mid+1])
		perSegment := total / int64(segments-1)
		c.Max("most_growth_of_memory_per_segment", int(max(perSegment, 0)))
		if os.Getenv("VH_LEAK") != "" {
			fmt.Println("LEAK", name, heaps, gos, perSegment)
		}
		if c.NumSeen("activities") < 4 {
			c.Sample(map[string]any{"activity": name, "calls_per_segment": n, "bytes": fmt.Sprint(heaps), "goroutines": fmt.Sprint(gos)})
		}
		if perSegment > max(slack, int64(n)*6) && second > slack {
			c.Fail("memory is held for every call", map[string]any{"activity": name, "calls_per_segment": n, "bytes_after_each_segment": fmt.Sprint(heaps), "bytes_per_call": perSegment / int64(n)})
		}
		if leastG > 0 {
			c.Fail("goroutines are left behind", map[string]any{"activity": name, "calls_per_segment": n, "goroutines_after_each_segment": fmt.Sprint(gos)})
		}
	}
	// fresh makes an ever new word.
	fresh := func(r *rand.Rand, l *Lang, i int) string {
		w := l.NativeWord(r)
		if r.Intn(3) == 0 {
			w = l.Word(r)
		}
		if len(w) > 200 {
			w = w[:200]
		}
		if l.Model.Script == "Hrkt" && len(w) > 60 {
			w = w[:60]
		}
		return fmt.Sprintf("%s %s%d", w, l.letters(r, 3), i)
	}
	n := c.N(700, 4000)

	// Loading and unloading.
	runtime.GC()
	for _, l := range langs {
		hangulize.UnloadSpec(l.Name)
	}
	unloaded, _ := held()
	for k := 0; k < 2; k++ {
		for _, l := range langs {
			hangulize.LoadSpec(l.Name)
		}
	}
	loaded, _ := held()
	for _, l := range langs {
		hangulize.UnloadSpec(l.Name)
	}
	after, _ := held()
	c.Extra("bytes_of_the_loaded_languages", int64(loaded)-int64(unloaded))
	c.Case("unload")
	if kept := int64(after) - int64(unloaded); kept > (int64(loaded)-int64(unloaded))/10+slack {
		c.Fail("the memory of unloaded languages is held", map[string]any{"before": unloaded, "loaded": loaded, "unloaded": after})
	}
	activity("loading and unloading", 60, func(r *rand.Rand, i int) {
		l := pick(r, langs)
		hangulize.LoadSpec(l.Name)
		if i%2 == 0 {
			h, _ := hangulize.LoadSpec(l.Name)
			hangulize.New(h)
		}
		hangulize.UnloadSpec(l.Name)
		hangulize.UnloadSpec(l.Name)
	})
	activity("unknown languages", 4*n, func(r *rand.Rand, i int) {
		name := fmt.Sprintf("none-%d", i)
		hangulize.LoadSpec(name)
		hangulize.Hangulize(name, "x")
		hangulize.UnloadSpec(name)
		hangulize.ListLangs()
	})

	// Transcribing.
	transcribe := func(l *Lang) {
		h, err := l.hangulizer()
		if err != nil {
			return
		}
		m := n
		if len(l.Model.Translit) > 0 {
			m = n / 2
		}
		activity("transcribing "+l.Name, m, func(r *rand.Rand, i int) {
			switch i % 4 {
			case 0:
				h.Hangulize(fresh(r, l, i))
			case 1:
				hangulize.Hangulize(l.Name, fresh(r, l, i))
			case 2:
				h.Trace(func(hangulize.Trace) {})
				h.Hangulize(fresh(r, l, i))
				h.Trace(nil)
			default:
				g := hangulize.New(h.Spec())
				g.UseTranslit(schemeTranslit{"furigana", i%8 == 3})
				g.UseTranslit(schemeTranslit{"pinyin", i%8 == 3})
				g.Hangulize(fresh(r, l, i))
			}
		})
	}
	// The dictionary of the Japanese analyser is large, which makes each
	// collection slow, so those which need it are the last.
	japanese := func(l *Lang) bool { return slices.Contains(l.Model.Translit, "furigana") }
	for _, l := range langs {
		if !japanese(l) {
			transcribe(l)
		}
	}
	activity("adding and removing Translits", 4*n, func(r *rand.Rand, i int) {
		s := fmt.Sprintf("t%d", i)
		hangulize.UseTranslit(schemeTranslit{s, false})
		hangulize.UseTranslit(schemeTranslit{s, true})
		hangulize.Translits()
		hangulize.UnuseTranslit(s)
		hangulize.UnuseTranslit(s)
		if i%16 == 0 {
			spec, _ := hangulize.LoadSpec("ita")
			h := hangulize.New(spec)
			translit.Install(h)
			h.UseTranslit(schemeTranslit{s, false})
			h.Translits()
			h.UnuseTranslit(s)
		}
	})

	// Parsing.
	activity("parsing specs", c.N(200, 1500), func(r *rand.Rand, i int) {
		g := randSpec(r, 4, 4)
		text := strings.ReplaceAll(g.Text(), "id =", fmt.Sprintf("note%d = \"x\"\n\tid =", i))
		var rd io.Reader = strings.NewReader(text)
		switch i % 5 {
		case 1:
			rd = strings.NewReader(text[:r.Intn(len(text))])
		case 2:
			rd = faultyReader{rd}
		case 3:
			rd = strings.NewReader(text + "\"x" + strconv.Itoa(i))
		}
		spec, err := hangulize.ParseSpec(rd)
		if err == nil {
			hangulize.New(spec).Hangulize(fmt.Sprint("abc", i))
		}
	})
	long := strings.Repeat("section:\n\tkey -> \"value\", \"another\"\n", 400)
	activity("parsing HSL", n, func(r *rand.Rand, i int) {
		w := writeDoc(r, docOpts{})
		var rd io.Reader = strings.NewReader(w.text + fmt.Sprintf("\nsection%d:\n\tk%d = v%d\n", i, i, i))
		switch i % 8 {
		case 1, 5:
			rd = faultyReader{rd}
		case 2:
			// A fault somewhere in a long text.
			at := r.Intn(len(long))
			rd = strings.NewReader(long[:at] + "\n->\n= \"" + strconv.Itoa(i) + long[at:])
		case 3:
			rd = faultyReader{strings.NewReader(long[:r.Intn(len(long))])}
		case 6:
			spec := w.text + "\n= x" + strconv.Itoa(i) + "\n" + long
			if i%16 == 6 {
				hangulize.ParseSpec(strings.NewReader(spec))
			} else {
				hangulize.ParseSpec(faultyReader{strings.NewReader(spec)})
			}
		}
		hsl.Parse(rd)
	})
	activity("patterns", n, func(r *rand.Rand, i int) {
		g := randGrammar(r, alphabets[i%len(alphabets)])
		expr := g.Pattern(r).String() + fmt.Sprint("x", i)
		p, err := hre.NewPattern(expr, g.Macros, g.Vars)
		if err != nil {
			return
		}
		rp := hre.NewRPattern(fmt.Sprint("y", i), g.Macros, g.Vars)
		w := g.text(r, nil, true) + fmt.Sprint("ax", i)
		p.Letters()
		p.Find(w, -1)
		p.Replace(w, rp, -1)
	})
	activity("formatting traces", n, func(r *rand.Rand, i int) {
		tracefmt.FprintTraces(io.Discard, []hangulize.Trace{{Step: fmt.Sprint("S", i), Word: fmt.Sprint("가b", i)}, {Step: "T", Word: fmt.Sprint(i), Why: fmt.Sprint("w", i)}})
	})
	for _, l := range langs {
		if japanese(l) {
			transcribe(l)
		}
	}
	activity("failing transcriptions", n, func(r *rand.Rand, i int) {
		spec, _ := hangulize.LoadSpec("jpn")
		g := hangulize.New(spec)
		if i%2 == 0 {
			g.UseTranslit(schemeTranslit{"furigana", true})
		}
		if i%3 == 0 {
			g.Trace(func(hangulize.Trace) {})
		}
		g.Hangulize(fmt.Sprint("あ", i))
	})
	for _, t := range translit.Translits() {
		l := LangByName("rus")
		switch t.Scheme() {
		case "furigana":
			l = LangByName("jpn")
		case "pinyin":
			l = LangByName("chi")
		}
		activity("transliterating by "+t.Scheme(), n, func(r *rand.Rand, i int) {
			w := fresh(r, l, i)
			t.Transliterate(w)
		})
	}
	cliHeap(c)
	wasmHeld(c)
}

var gcLine = regexp.MustCompile(`(?m)^gc \d+ @.* \d+->\d+->(\d+) MB`)

// cliHeap watches the heap of the command while it reads many words.
func cliHeap(c *Ctx) {
	if c.Failed() {
		return
	}
	bin := c.mustBuild("hangulize-cli", "./cmd/hangulize", nil)
	lines := c.N(60000, 400000)
	for _, args := range [][]string{{"ita"}, {"-v", "fin"}, {"dev", "/repo/specs/ita.hsl"}} {
		var b strings.Builder
		k := lines
		if args[0] == "-v" {
			k /= 3
		}
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, "roma%d milano%da\n", i, i*7)
		}
		cmd := tool(bin, b.String(), args...)
		cmd.Env = append(cmd.Env, "GODEBUG=gctrace=1", "GOGC=25")
		var errs tailOf
		cmd.Stderr, cmd.Stdout = &errs, io.Discard
		var err error
		c.Guard("the command", func() { err = cmd.Run() })
		if err != nil {
			c.Fail("the command fails", map[string]any{"args": fmt.Sprint(args), "error": err})
			return
		}
		var live []int
		for _, m := range gcLine.FindAllStringSubmatch(errs.String(), -1) {
			x, _ := strconv.Atoi(m[1])
			live = append(live, x)
		}
		c.Case("command " + fmt.Sprint(args))
		c.Count("lines_of_the_command", k)
		if len(live) < 16 {
			c.Count("runs_with_few_collections", 1)
			continue
		}
		// The least heap of each quarter.
		var quarters []int
		for q := 0; q < 4; q++ {
			part := live[q*len(live)/4 : (q+1)*len(live)/4]
			least := part[0]
			for _, x := range part {
				least = min(least, x)
			}
			quarters = append(quarters, least)
		}
		c.Extra("megabytes_of_"+strings.Join(args, "_"), fmt.Sprint(quarters))
		if quarters[1] < quarters[2] && quarters[2] < quarters[3] && quarters[3]-quarters[1] >= 2 {
			c.Fail("the command holds memory for every word", map[string]any{"args": fmt.Sprint(args), "words": k, "least_megabytes_of_each_quarter": fmt.Sprint(quarters)})
		}
	}
}

// tailOf keeps the lines of the collector.
type tailOf struct {
	b    strings.Builder
	rest string
}

func (t *tailOf) Write(p []byte) (int, error) {
	t.rest += string(p)
	for {
		i := strings.IndexByte(t.rest, '\n')
		if i < 0 {
			return len(p), nil
		}
		if strings.HasPrefix(t.rest, "gc ") {
			t.b.WriteString(t.rest[:i+1])
		}
		t.rest = t.rest[i+1:]
	}
}

func (t *tailOf) String() string { return t.b.String() }

// wasmHeld watches the values of JavaScript which the WebAssembly program
// holds.
func wasmHeld(c *Ctx) {
	if c.Failed() {
		return
	}
	if _, err := exec.LookPath("node"); err != nil {
		fmt.Fprintln(os.Stderr, "no node")
		os.Exit(4)
	}
	program := c.mustBuild("hangulize.wasm", "./cmd/hangulize.wasm", []string{"GOOS=js", "GOARCH=wasm"})
	const segments = 5
	n := c.N(300, 2000)
	kinds := map[string]func(i int) *jsCall{
		"results":              func(i int) *jsCall { return &jsCall{Lang: "ita", Word: fmt.Sprint("roma", i)} },
		"traces":               func(i int) *jsCall { return &jsCall{Lang: "ita", Word: fmt.Sprint("roma", i), Trace: "yes"} },
		"unknown languages":    func(i int) *jsCall { return &jsCall{Lang: fmt.Sprint("none", i), Word: "x"} },
		"JavaScript Translits": func(i int) *jsCall { return &jsCall{Lang: "jpn", Word: fmt.Sprint("カ", i)} },
		"failing Translits":    func(i int) *jsCall { return &jsCall{Lang: "jpn", Word: fmt.Sprint("boom", i)} },
		"missing Translits":    func(i int) *jsCall { return &jsCall{Lang: "chi", Word: fmt.Sprint("北", i)} },
	}
	names := sortedKeys(kinds)
	Parallel(len(names), func(k int) {
		name := names[k]
		in := &jsInput{Mode: "leak", Seed: 1, Translits: map[string]jsTable{"furigana": {}}}
		for i := 0; i < n*segments; i++ {
			in.Calls = append(in.Calls, kinds[name](i))
		}
		out, res := c.node(program, name, in)
		if out == nil || !out.Done || out.Settled != len(in.Calls) {
			c.Fail("the program doesn't answer", map[string]any{"calls": name, "code": res.Code, "stuck": res.Stuck, "stderr": truncate(res.Stderr, 1500)})
			return
		}
		var least []int
		for s := 0; s < segments; s++ {
			x := 1 << 30
			for _, v := range out.Live[s*n : (s+1)*n] {
				x = min(x, v)
			}
			least = append(least, x)
			c.Case(fmt.Sprint("wasm ", name, s))
		}
		c.Count("wasm_calls", len(in.Calls))
		c.Extra("values_held_"+strings.ReplaceAll(name, " ", "_"), fmt.Sprint(least))
		grows := true
		for s := 2; s < segments; s++ {
			grows = grows && least[s]-least[s-1] > n/4
		}
		if grows {
			c.Fail("the WebAssembly program holds values for every call", map[string]any{"calls": name, "calls_per_segment": n, "least_values_of_each_segment": fmt.Sprint(least)})
		}
	})
}
