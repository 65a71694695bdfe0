package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() { checks["C29"] = checkWasm }

type jsRule struct {
	ID   int    `json:"id"`
	From string `json:"from"`
	To   string `json:"to"`
}

type jsTrace struct {
	Step string  `json:"step"`
	Word string  `json:"word"`
	Why  string  `json:"why"`
	Rule *jsRule `json:"rule"`
}

func (t jsTrace) String() string {
	if t.Rule != nil {
		return fmt.Sprintf("%s %+q %q rule %+v", t.Step, t.Word, t.Why, *t.Rule)
	}
	return fmt.Sprintf("%s %+q %q", t.Step, t.Word, t.Why)
}

type jsCall struct {
	Scheme string `json:"scheme,omitempty"`
	Lang   string `json:"lang,omitempty"`
	Word   string `json:"word"`
	Trace  string `json:"trace,omitempty"`
	At     int    `json:"at,omitempty"`
	Undef  bool   `json:"undef,omitempty"`

	want   string
	traces []jsTrace
	fails  bool
}

type jsAnswer struct {
	Value string `json:"value"`
	Fail  string `json:"fail,omitempty"`
	How   string `json:"how,omitempty"`
}

type jsTable struct {
	Results map[string]jsAnswer `json:"results"`
}

type jsInput struct {
	Mode      string             `json:"mode"`
	Seed      int64              `json:"seed"`
	Burst     int                `json:"burst,omitempty"`
	Specs     bool               `json:"specs,omitempty"`
	Translits map[string]jsTable `json:"translits,omitempty"`
	Late      map[string]int     `json:"late,omitempty"` // Translits registered before a call
	Calls     []*jsCall          `json:"calls"`
}

type jsOutput struct {
	Exited    *int     `json:"exited"`
	Unhandled []string `json:"unhandled"`
	Done      bool     `json:"done"`
	Live      []int    `json:"live"`
	Settled   int      `json:"settled"`
	Version   any      `json:"version"`
	Used      [][]any  `json:"used"`
	Order     []string `json:"order"`
	Calls     []*struct {
		State   string    `json:"state"`
		Promise bool      `json:"promise"`
		Value   any       `json:"value"`
		IsError bool      `json:"isError"`
		Error   string    `json:"error"`
		Traces  []jsTrace `json:"traces"`
	} `json:"calls"`
	Results []struct {
		Value any    `json:"value"`
		Error string `json:"error"`
	} `json:"results"`
	Specs map[string]json.RawMessage `json:"specs"`
}

// node runs the driver.
func (c *Ctx) node(program, name string, in *jsInput) (*jsOutput, childResult) {
	dir, err := os.MkdirTemp(work(), "node")
	if err != nil {
		return nil, childResult{Stderr: err.Error()}
	}
	defer removeAll(dir)
	b, _ := json.Marshal(in)
	inPath, outPath := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	os.WriteFile(inPath, b, 0o644)
	cmd := exec.Command("node", "--stack-size=8000", filepath.Join(c.Root, "harness/js/wasm.js"), filepath.Join(os.Getenv("GOROOT"), "lib/wasm/wasm_exec.js"), program, inPath, outPath)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
	res := runProc(cmd, 600*time.Second)
	b, err = os.ReadFile(outPath)
	if err != nil {
		return nil, res
	}
	var out jsOutput
	if err := json.Unmarshal(b, &out); err != nil {
		res.Stderr += err.Error()
		return nil, res
	}
	return &out, res
}

// jsWord makes a word that survives a JavaScript string.
func jsWord(r *rand.Rand, l *Lang) string {
	w := l.Word(r)
	if r.Intn(6) == 0 {
		w = hostileWord(r, l)
	}
	if len(w) > 600 {
		w = w[:600]
	}
	if l.Model.Script == "Hrkt" && len(w) > 120 {
		w = w[:120]
	}
	if !utf8.ValidString(w) {
		w = strings.ToValidUTF8(w, "?")
	}
	// Go's glue for JavaScript drops a byte order mark at the head of a string.
	return strings.ReplaceAll(w, "\ufeff", "")
}

// expect asks the library.
func (j *jsCall) expect(h hangulize.Hangulizer) bool {
	j.traces = nil
	h.Trace(func(t hangulize.Trace) {
		x := jsTrace{Step: t.Step, Word: t.Word, Why: t.Why}
		if t.Rule != nil {
			x.Rule = &jsRule{t.Rule.ID, t.Rule.From.String(), t.Rule.To.String()}
		}
		j.traces = append(j.traces, x)
	})
	defer h.Trace(nil)
	ok := true
	if p := Try(func() {
		var err error
		j.want, err = h.Hangulize(j.Word)
		j.fails = err != nil
	}); p != nil {
		ok = false
	}
	for _, t := range j.traces {
		ok = ok && utf8.ValidString(t.Word)
	}
	return ok && utf8.ValidString(j.want)
}

// recorder is a Translit which tells its answers.
type recorder struct {
	hangulize.Translit
	seen map[string]string
}

func (t recorder) Transliterate(w string) (string, error) {
	out, err := t.Translit.Transliterate(w)
	if err == nil {
		t.seen[w] = out
	}
	return out, err
}

// failing is a Translit that fails.
type failing struct{ scheme string }

func (f failing) Scheme() string                       { return f.scheme }
func (f failing) Transliterate(string) (string, error) { return "", fmt.Errorf("boom") }

func checkWasm(c *Ctx) {
	c.Rule = "a case is a call of the JavaScript API of the built WebAssembly program in node: every language with native, random and hostile words, one after another and overlapping at random moments, with and without a trace function, with JavaScript Translits which answer synchronously, after microtasks, timers or a nested call, which reject with errors or other values, throw, or are missing; unknown languages; trace functions which throw or call again; and calls of the Translit programs; non-trivial if the word isn't empty. Observed: resolved values and traces against the library's, rejections by an Error exactly where the library fails, every promise settled, the program still alive, useTranslit's answers, and the data of every spec against an independent reading of its file"
	if _, err := exec.LookPath("node"); err != nil {
		fmt.Fprintln(os.Stderr, "no node")
		os.Exit(4)
	}
	installDefault()
	env := []string{"GOOS=js", "GOARCH=wasm"}
	var program string
	programs := map[string]string{}
	names := []string{"hangulize", "pinyin.translit", "cyrillic.translit", "furigana.translit"}
	for _, n := range names {
		programs[n] = c.mustBuild(n+".wasm", "./cmd/"+n+".wasm", env, "-ldflags=-X main.version=1.2.3-w")
	}
	program = programs["hangulize"]
	langs := Langs()

	// judge compares what JavaScript saw.
	judge := func(name string, in *jsInput, out *jsOutput, res childResult) bool {
		info := func(i int, more map[string]any) map[string]any {
			m := map[string]any{"run": name, "mode": in.Mode, "stderr": truncate(res.Stderr, 1500)}
			if i >= 0 {
				m["call"] = fmt.Sprintf("%s %+q trace=%q", in.Calls[i].Lang, truncate(in.Calls[i].Word, 300), in.Calls[i].Trace)
				m["index"] = i
			}
			for k, v := range more {
				m[k] = v
			}
			return m
		}
		if out == nil {
			c.Fail("the program doesn't answer", info(-1, map[string]any{"code": res.Code, "stuck": res.Stuck}))
			return false
		}
		if out.Exited != nil {
			c.Fail("the program ended", info(-1, map[string]any{"code": *out.Exited, "calls_settled": len(out.Calls)}))
			return false
		}
		if len(out.Unhandled) > 0 {
			c.Fail("JavaScript saw an error outside of the promise", info(-1, map[string]any{"errors": truncate(strings.Join(out.Unhandled, "\n"), 1500)}))
			return false
		}
		for _, u := range out.Used {
			if len(u) != 3 || u[1] != true || u[2] != false {
				c.Fail("useTranslit answers wrongly", info(-1, map[string]any{"answers": fmt.Sprint(u)}))
			}
		}
		for i, call := range in.Calls {
			if i >= len(out.Calls) || out.Calls[i] == nil || out.Calls[i].State == "pending" {
				c.Fail("a promise isn't settled", info(i, nil))
				return false
			}
			o := out.Calls[i]
			key := ""
			if call.Word != "" {
				key = fmt.Sprintf("%s\x00%s\x00%s\x00%s", name, call.Lang, call.Word, call.Trace)
			}
			c.Case(key)
			c.Seen("outcomes", o.State+call.Trace)
			fails := call.fails || call.Trace == "throw" && call.At <= len(call.traces)
			switch {
			case !o.Promise:
				c.Fail("the call returns no promise", info(i, nil))
			case fails && (o.State != "rejected" || !o.IsError):
				c.Fail("a failure doesn't reject the promise with an Error", info(i, map[string]any{"state": o.State, "value": o.Value, "error": o.Error}))
			case !fails && o.State != "resolved":
				c.Fail("a promise is rejected", info(i, map[string]any{"error": o.Error, "want": call.want}))
			case !fails && o.Value != any(call.want):
				c.Fail("the result isn't the library's", info(i, map[string]any{"result": o.Value, "want": call.want}))
			}
			want := call.traces
			if call.Trace == "" {
				want = nil
			} else if call.Trace == "throw" && call.At < len(want) {
				want = want[:call.At]
			}
			if len(o.Traces)+len(want) > 0 && !reflect.DeepEqual(o.Traces, want) {
				c.Fail("the traces aren't the library's", info(i, map[string]any{"traces": truncate(fmt.Sprint(o.Traces), 1500), "want": truncate(fmt.Sprint(want), 1500)}))
			}
			c.Count("traces", len(o.Traces))
			if c.Failed() {
				return false
			}
		}
		// The order in which overlapping calls came to their ends.
		var ends []string
		for _, e := range out.Order {
			if e[0] == '=' {
				ends = append(ends, e)
			}
		}
		if in.Mode == "overlap" {
			c.Seen("completion orders", strings.Join(ends, ""))
			if !sort.SliceIsSorted(ends, func(a, b int) bool {
				return len(ends[a]) < len(ends[b]) || len(ends[a]) == len(ends[b]) && ends[a] < ends[b]
			}) {
				c.Count("runs with calls overtaking others", 1)
			}
		}
		return true
	}

	// build makes the calls of a run with the Translits as JavaScript functions.
	build := func(r *rand.Rand, ls []*Lang, n int, mode string, faults bool) *jsInput {
		in := &jsInput{Mode: mode, Seed: r.Int63n(1 << 31), Burst: 1 + r.Intn(6), Translits: map[string]jsTable{}, Late: map[string]int{}}
		recs := map[string]recorder{}
		hs := map[string]hangulize.Hangulizer{}
		missing := map[string]bool{}
		for _, t := range translit.Translits() {
			recs[t.Scheme()] = recorder{t, map[string]string{}}
			switch {
			case faults && r.Intn(5) == 0:
				missing[t.Scheme()] = true
			case mode == "sequence" && r.Intn(2) == 0:
				in.Late[t.Scheme()] = r.Intn(n/2 + 1)
			}
		}
		for i := 0; i < n; i++ {
			l := ls[r.Intn(len(ls))]
			call := &jsCall{Lang: l.Name, Word: jsWord(r, l), Undef: r.Intn(5) == 0}
			switch {
			case r.Intn(2) == 0:
				call.Trace = "yes"
			case faults && r.Intn(6) == 0:
				call.Trace, call.At = "throw", 1+r.Intn(6)
			case r.Intn(12) == 0:
				call.Trace = "reenter"
			}
			if faults && r.Intn(15) == 0 {
				call.Lang = pick(r, []string{"xyz", "", "ITA", "it", "undefined", "ita.hsl", "../ita", "null"})
				call.fails, call.want = true, ""
				in.Calls = append(in.Calls, call)
				continue
			}
			h := hs[l.Name]
			if h == nil || len(in.Late) > 0 {
				spec, err := hangulize.LoadSpec(l.Name)
				if err != nil {
					continue
				}
				h = hangulize.New(spec)
				for _, t := range recs {
					if !missing[t.Scheme()] && in.Late[t.Scheme()] <= len(in.Calls) {
						h.UseTranslit(t)
					}
				}
				hs[l.Name] = h
			}
			if call.expect(h) {
				in.Calls = append(in.Calls, call)
			}
		}
		hows := []string{"", "", "", "sync", "nested", "throw"}
		for scheme, rec := range recs {
			if missing[scheme] {
				continue
			}
			t := jsTable{Results: map[string]jsAnswer{}}
			words := sortedKeys(rec.seen)
			for _, w := range words {
				a := jsAnswer{Value: rec.seen[w], How: pick(r, hows)}
				if faults && r.Intn(4) == 0 {
					a.Fail = pick(r, []string{"error", "error", "type", "string", "undefined", "null", "number", "object"})
				}
				t.Results[w] = a
			}
			in.Translits[scheme] = t
		}
		if !faults {
			return in
		}
		// Calls whose Translit fails are expected to fail.
		for i, call := range in.Calls {
			l := LangByName(call.Lang)
			if l == nil || call.fails {
				continue
			}
			w := call.Word
			spec, _ := hangulize.LoadSpec(l.Name)
			h := hangulize.New(spec)
			any := false
			for _, scheme := range l.Model.Translit {
				a, ok := in.Translits[scheme].Results[w]
				if !ok || in.Late[scheme] > i {
					break
				}
				if a.Fail != "" {
					any = true
					h.UseTranslit(failing{scheme})
				} else {
					h.UseTranslit(recs[scheme])
				}
				w = a.Value
			}
			if any {
				call.expect(h)
			}
		}
		return in
	}

	runs := c.N(len(langs)+28, len(langs)*4+400)
	per := c.N(60, 150)
	Parallel(runs, func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprintf("run/%d", i))
		var in *jsInput
		name := fmt.Sprintf("run %d", i)
		switch {
		case i < len(langs):
			in = build(r, langs[i:i+1], per, pick(r, []string{"sequence", "overlap"}), false)
		case i%4 == 0:
			in = build(r, langs, per, "sequence", true)
		case i%4 == 1:
			in = build(r, langs, per, "overlap", false)
		default:
			// Languages with Translits, mostly.
			var ls []*Lang
			for _, l := range langs {
				if len(l.Model.Translit) > 0 || r.Intn(12) == 0 {
					ls = append(ls, l)
				}
			}
			in = build(r, ls, per, "overlap", i%4 == 2)
		}
		out, res := c.node(program, name, in)
		judge(name, in, out, res)
		c.Count("runs", 1)
	})
	if c.Failed() {
		return
	}

	// Specs and version.
	in := &jsInput{Mode: "sequence", Seed: 1, Specs: true, Calls: []*jsCall{{Lang: "ita", Word: "Roma", want: "로마"}}}
	out, res := c.node(program, "specs", in)
	if judge("specs", in, out, res) {
		if out.Version != any("1.2.3-w") {
			c.Fail("the version isn't the one of the build", map[string]any{"version": out.Version})
		}
		c.jsSpecs(out.Specs, langs)
	}

	// The Translit programs.
	Parallel(len(names)-1, func(k int) {
		name := names[k+1]
		r := c.Rng(name)
		in := &jsInput{Mode: "translit", Seed: 1}
		for _, t := range translit.Translits() {
			kind := strings.SplitN(t.Scheme(), "[", 2)[0]
			if kind+".translit" != name {
				continue
			}
			for i := 0; i < c.N(300, 3000); i++ {
				l := langs[r.Intn(len(langs))]
				for _, x := range langs {
					if r.Intn(2) == 0 && len(x.Model.Translit) > 0 && x.Model.Translit[0] == t.Scheme() {
						l = x
					}
				}
				w := jsWord(r, l)
				if kind == "furigana" && len(w) > 120 {
					w = strings.ToValidUTF8(w[:120], "")
				}
				call := &jsCall{Scheme: t.Scheme(), Word: w}
				var err error
				if Try(func() { call.want, err = t.Transliterate(w) }) != nil || err != nil || !utf8.ValidString(call.want) {
					continue
				}
				in.Calls = append(in.Calls, call)
			}
		}
		if name == "cyrillic.translit" {
			for _, s := range []string{"cyrillic", "cyrillic[xx]", "", "pinyin"} {
				in.Calls = append(in.Calls, &jsCall{Scheme: s, Word: "Moskva", fails: true})
			}
		}
		out, res := c.node(programs[name], name, in)
		if out == nil || out.Exited != nil || !out.Done || len(out.Results) != len(in.Calls) {
			c.Fail("a Translit program doesn't answer", map[string]any{"program": name, "stderr": truncate(res.Stderr, 2000), "stuck": res.Stuck, "out": truncate(fmt.Sprint(out), 500)})
			return
		}
		if out.Version != any("1.2.3-w") {
			c.Fail("the version of a Translit program isn't the one of the build", map[string]any{"program": name, "version": out.Version})
		}
		for i, call := range in.Calls {
			c.Case(call.Scheme + "\x00" + call.Word)
			got := out.Results[i]
			if call.fails && got.Error == "" || !call.fails && got.Value != any(call.want) {
				c.Fail("a Translit program answers otherwise than the Translit", map[string]any{"scheme": call.Scheme, "word": call.Word, "result": got.Value, "error": got.Error, "want": call.want})
			}
		}
		c.Count("calls of Translit programs", len(in.Calls))
	})
	c.Sample(map[string]any{"call": "hangulize('jpn', '東京') with useTranslit('furigana', fn), fn throwing 'boom'"})
}

// jsSpecs checks the data of the specs.
func (c *Ctx) jsSpecs(specs map[string]json.RawMessage, langs []*Lang) {
	var want []string
	for _, l := range langs {
		want = append(want, l.Name)
	}
	sort.Strings(want)
	if got := sortedKeys(specs); !reflect.DeepEqual(got, want) {
		c.Fail("other specs are exposed than bundled", map[string]any{"exposed": got, "bundled": want})
		return
	}
	for _, l := range langs {
		d, err := model.ParseHSL(l.Source)
		if err != nil {
			continue
		}
		var s struct {
			Lang struct {
				ID, Code2, Code3, English, Korean, Script string
				Translit                                  []string
			}
			Config struct {
				Authors []string
				Stage   string
			}
			Test   []struct{ Word, Result string }
			Source string
		}
		if err := json.Unmarshal(specs[l.Name], &s); err != nil {
			c.Fail("the data of a spec can't be read", map[string]any{"lang": l.Name, "err": err.Error()})
			continue
		}
		field := func(name string, got, want any) {
			c.Case("spec " + l.Name + " " + name)
			if g, w := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want); g != w {
				c.Fail("the data of a spec isn't the file's", map[string]any{"lang": l.Name, "field": name, "exposed": truncate(g, 500), "file": truncate(w, 500)})
			}
		}
		one := func(v []string) string {
			if len(v) == 0 {
				return ""
			}
			return v[0]
		}
		codes := d["lang"].Get("codes")
		field("id", s.Lang.ID, one(d["lang"].Get("id")))
		if len(codes) == 2 {
			field("codes", []string{s.Lang.Code2, s.Lang.Code3}, codes)
		}
		field("english", s.Lang.English, one(d["lang"].Get("english")))
		field("korean", s.Lang.Korean, one(d["lang"].Get("korean")))
		field("script", s.Lang.Script, one(d["lang"].Get("script")))
		field("translit", append([]string{}, s.Lang.Translit...), append([]string{}, d["lang"].Get("translit")...))
		field("authors", append([]string{}, s.Config.Authors...), append(append([]string{}, d["config"].Get("author")...), d["config"].Get("authors")...))
		field("stage", s.Config.Stage, one(d["config"].Get("stage")))
		field("source", s.Source, l.Source)
		var got, tests [][2]string
		for _, t := range s.Test {
			got = append(got, [2]string{t.Word, t.Result})
		}
		if t := d["test"]; t != nil {
			for _, p := range t.Pairs {
				tests = append(tests, [2]string{p.Left, one(p.Right)})
			}
		}
		field("test", got, tests)
	}
}
