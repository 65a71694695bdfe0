package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
)

func init() { checks["C31"] = checkWeb }

const esbuild = "/opt/veriftools/node/node_modules/esbuild/lib/main.js"

type webRun struct {
	Seed     int64    `json:"seed"`
	Problems []string `json:"problems"`
	Inputs   int      `json:"inputs"`
	Renders  int      `json:"renders"`
	Jobs     int      `json:"jobs"`
	Shape    string   `json:"shape"`
	Log      []any    `json:"log"`
}

type webSettled struct {
	Value   any       `json:"value"`
	Error   string    `json:"error"`
	IsError bool      `json:"isError"`
	Traces  []jsTrace `json:"traces"`
}

type webOutput struct {
	Hook []struct {
		OK     bool   `json:"ok"`
		Idle   bool   `json:"idle"`
		State  int    `json:"state"`
		Result string `json:"result"`
		Early  string `json:"early"`
	} `json:"hook"`
	Calls []*webSettled `json:"calls"`
	Rules []struct {
		Load                         string
		Before, Loaded, Again, After webSettled
	} `json:"rules"`
	Unknown struct {
		Unknown, Then, After webSettled
	} `json:"unknown"`
	Early []struct {
		First   string
		Answers map[string]webSettled
		Specs   []string
		Reading webSettled
	} `json:"early"`
	Fetched   []string `json:"fetched"`
	Errors    []string `json:"errors"`
	Unhandled []string `json:"unhandled"`
	Console   []string `json:"console"`
	Threads   int      `json:"threads"`
	Ready     bool     `json:"ready"`
	Version   string   `json:"version"`
	Specs     []string `json:"specs"`
}

// webTool runs a driver.
func (c *Ctx) webTool(limit time.Duration, driver string, in any, out any, args ...string) childResult {
	dir, err := os.MkdirTemp(work(), "web")
	if err != nil {
		return childResult{Stderr: err.Error(), Code: -1}
	}
	defer removeAll(dir)
	b, _ := json.Marshal(in)
	inPath, outPath := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	os.WriteFile(inPath, b, 0o644)
	args = append(append([]string{filepath.Join(c.Root, "harness/js/web", driver)}, args...), inPath, outPath)
	cmd := exec.Command("node", args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
	res := runProc(cmd, limit)
	b, err = os.ReadFile(outPath)
	if err == nil {
		err = json.Unmarshal(b, out)
	}
	if err != nil {
		res.Stderr += "\n" + err.Error()
		res.Code = -1
	}
	return res
}

func checkWeb(c *Ctx) {
	c.Rule = "a case is a schedule of the web app's hook: a sequence of inputs (valid, blank, of an unknown language, of a language which only the worker knows, with an empty result, with a failing worker) while worker answers, timers, renders and effects come in a random order in virtual time; or an input of the hook over the real workers in threads of their own and the real WebAssembly programs; or a call of the worker endpoints; non-trivial if it has an input. Observed: every rendered state and result, every call of a worker, the state at rest, results and traces against the library's"
	for _, f := range []string{esbuild} {
		if _, err := os.Stat(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	}
	if _, err := exec.LookPath("node"); err != nil {
		fmt.Fprintln(os.Stderr, "no node")
		os.Exit(4)
	}
	installDefault()

	dir := filepath.Join(work(), "webapp")
	os.MkdirAll(dir, 0o755)
	manifestBin := c.mustBuild("webapp/manifest", "./cmd/manifest.json", nil, "-ldflags=-X main.version=1.2.3-m")
	wasm := []string{"hangulize", "pinyin.translit", "cyrillic.translit", "furigana.translit"}
	Parallel(len(wasm), func(i int) {
		c.mustBuild("webapp/"+wasm[i]+".wasm", "./cmd/"+wasm[i]+".wasm", []string{"GOOS=js", "GOARCH=wasm"}, "-ldflags=-X main.version=1.2.3-w")
	})
	manifest, err := tool(manifestBin, "").Output()
	var man struct {
		Version   string                     `json:"version"`
		Specs     map[string]json.RawMessage `json:"specs"`
		Translits []string                   `json:"translits"`
	}
	if err != nil || json.Unmarshal(manifest, &man) != nil || len(man.Specs) == 0 {
		fmt.Fprintln(os.Stderr, "the manifest can't be made:", err)
		os.Exit(4)
	}
	os.WriteFile(filepath.Join(dir, "manifest.json"), manifest, 0o644)
	cmd := exec.Command("node", filepath.Join(c.Root, "harness/js/web/build.mjs"), esbuild, "/repo/web", filepath.Join(dir, "manifest.json"), filepath.Join(os.Getenv("GOROOT"), "lib/wasm/wasm_exec.js"), dir)
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintln(os.Stderr, "the web app can't be bundled:", err, truncate(string(b), 3000))
		os.Exit(4)
	}

	// Schedules in virtual time.
	small := map[string]any{"version": man.Version, "translits": man.Translits}
	specs := map[string]json.RawMessage{}
	for _, l := range []string{"ita", "jpn", "deu"} {
		if s, ok := man.Specs[l]; ok {
			specs[l] = s
		}
	}
	small["specs"] = specs
	const batch = 2000
	batches := c.N(30, 1200)
	Parallel(batches, func(i int) {
		if c.Failed() {
			return
		}
		seeds := make([]int64, batch)
		for k := range seeds {
			seeds[k] = c.Seed*1_000_000_007 + int64(i*batch+k)
		}
		var out struct {
			Runs      []webRun `json:"runs"`
			Unhandled []string `json:"unhandled"`
		}
		steps := []int{12, 40, 120}[i%3]
		res := c.webTool(300*time.Second, "hook.mjs", map[string]any{"manifest": small, "steps": steps, "seeds": seeds}, &out, filepath.Join(dir, "hook.mjs"))
		if res.Code != 0 && len(out.Runs) == 0 {
			c.Fail("the hook doesn't run", map[string]any{"code": res.Code, "stuck": res.Stuck, "stderr": truncate(res.Stderr, 2000)})
			return
		}
		for _, run := range out.Runs {
			key := ""
			if run.Inputs > 0 {
				key = run.Shape
			}
			c.Case(key)
			c.Seen("schedules", run.Shape)
			c.Count("inputs", run.Inputs)
			c.Count("renders", run.Renders)
			c.Count("worker jobs", run.Jobs)
			if len(run.Problems) > 0 {
				c.Fail("the hook shows the wrong thing: "+run.Problems[0], map[string]any{"seed": run.Seed, "steps": steps, "problems": run.Problems, "events": truncate(fmt.Sprint(run.Log), 4000)})
			}
		}
		if len(out.Unhandled) > 0 {
			c.Fail("the hook leaves an error unhandled", map[string]any{"errors": truncate(strings.Join(out.Unhandled, "\n"), 2000)})
		}
	})
	if c.Failed() {
		return
	}

	c.Sample(map[string]any{"schedule": "input ita w1, render, effects, worker answers pending; input '' -> render; then the pending answer: at rest the result must be ''"})

	// The real workers.
	langs := Langs()
	hs := map[string]hangulize.Hangulizer{}
	expect := func(call *jsCall) bool {
		h := hs[call.Lang]
		if h == nil {
			spec, err := hangulize.LoadSpec(call.Lang)
			if err != nil {
				return false
			}
			h = hangulize.New(spec)
			for _, t := range translit.Translits() {
				h.UseTranslit(t)
			}
			hs[call.Lang] = h
		}
		return call.expect(h)
	}
	r := c.Rng("app")
	type group struct {
		Inputs [][]any `json:"inputs"`
		Want   string  `json:"want"`
		Linger int     `json:"linger"`
	}
	var in struct {
		Version string            `json:"version"`
		Groups  []group           `json:"groups"`
		Calls   []map[string]any  `json:"calls"`
		Loads   []string          `json:"loads"`
		Probe   map[string]string `json:"probe"`
		Early   map[string]string `json:"early"`
	}
	in.Version = "1.2.3-w"
	in.Probe = map[string]string{}
	word := func(r *rand.Rand, l *Lang) *jsCall {
		for {
			call := &jsCall{Lang: l.Name, Word: jsWord(r, l)}
			if l.Model.Script == "Hrkt" && utf8.RuneCountInString(call.Word) > 30 {
				continue
			}
			if expect(call) && len(call.Word) < 300 {
				return call
			}
		}
	}
	withTranslit := []*Lang{}
	for _, l := range langs {
		if len(l.Model.Translit) > 0 {
			withTranslit = append(withTranslit, l)
		}
	}
	some := func(r *rand.Rand) *Lang {
		if r.Intn(2) == 0 {
			return pick(r, withTranslit)
		}
		return pick(r, langs)
	}
	for i := 0; i < c.N(len(langs)+60, 600); i++ {
		l := some(r)
		if i < len(langs) {
			l = langs[i]
		}
		g := group{}
		for k := r.Intn(4); k > 0; k-- {
			x := word(r, some(r))
			g.Inputs = append(g.Inputs, []any{x.Lang, x.Word, pick(r, []int{0, 0, 3, 20, 70})})
		}
		last := word(r, l)
		g.Want = last.want
		if last.fails {
			g.Want = ""
		}
		if r.Intn(12) == 0 {
			last.Word, g.Want = "  ", ""
		}
		if strings.TrimSpace(last.Word) == "" {
			g.Want = ""
		}
		if r.Intn(6) == 0 {
			g.Linger = 120
		}
		g.Inputs = append(g.Inputs, []any{last.Lang, last.Word, 0})
		in.Groups = append(in.Groups, g)
	}
	var calls []*jsCall
	for i := 0; i < c.N(400, 6000); i++ {
		call := word(r, some(r))
		if r.Intn(2) == 0 {
			call.Trace = "yes"
		}
		if r.Intn(25) == 0 {
			call = &jsCall{Lang: pick(r, []string{"xyz", "", "ITA"}), Word: call.Word, fails: true}
		}
		calls = append(calls, call)
		in.Calls = append(in.Calls, map[string]any{"lang": call.Lang, "word": call.Word, "trace": call.Trace != ""})
	}
	by := map[string]hangulize.Translit{}
	for _, t := range translit.Translits() {
		in.Loads = append(in.Loads, t.Scheme())
		by[t.Scheme()] = t
		in.Probe[t.Scheme()] = map[string]string{"furigana": "東京", "pinyin": "北京", "cyrillic": "Moskva"}[strings.SplitN(t.Scheme(), "[", 2)[0]]
	}
	sort.Strings(in.Loads)
	// Calls of a fresh worker: a word, and a word with a Translit given by the caller.
	for in.Early == nil {
		l, needy := pick(r, langs), pick(r, withTranslit)
		if len(l.Model.Translit) > 0 || len(needy.Model.Translit) != 1 {
			continue
		}
		call := word(r, l)
		spec, err := hangulize.LoadSpec(needy.Name)
		if call.fails || err != nil {
			continue
		}
		h := hangulize.New(spec)
		method, text := needy.Model.Translit[0], pick(r, needy.Seeds)
		h.UseTranslit(idTranslit(method))
		want, err := h.Hangulize(text)
		if err != nil {
			continue
		}
		in.Early = map[string]string{"lang": l.Name, "word": call.Word, "want": call.want, "needy": needy.Name, "method": method, "text": text, "wantReading": want}
	}
	var out webOutput
	res := c.webTool(600*time.Second, "app.mjs", &in, &out, dir, dir)
	info := func(more map[string]any) map[string]any {
		m := map[string]any{"errors": truncate(strings.Join(append(out.Errors, out.Unhandled...), "\n"), 2000), "console": truncate(strings.Join(out.Console, "\n"), 800), "stderr": truncate(res.Stderr, 1000)}
		for k, v := range more {
			m[k] = v
		}
		return m
	}
	switch {
	case res.Code != 0:
		c.Fail("the app over the real workers doesn't come to an end", info(map[string]any{"code": res.Code, "stuck": res.Stuck}))
		return
	case !out.Ready:
		c.Fail("the app doesn't show the worker's version", info(map[string]any{"version": out.Version}))
		return
	case len(out.Errors)+len(out.Unhandled) > 0:
		c.Fail("a worker failed", info(nil))
		return
	}
	var names []string
	for _, l := range langs {
		names = append(names, l.Name)
	}
	sort.Strings(names)
	if !reflect.DeepEqual(out.Specs, names) {
		c.Fail("the app doesn't show the worker's specs", info(map[string]any{"specs": out.Specs}))
	}
	for i, g := range in.Groups {
		c.Case(fmt.Sprint(g.Inputs))
		if i >= len(out.Hook) || !out.Hook[i].OK || !out.Hook[i].Idle || out.Hook[i].Result != g.Want {
			c.Fail("the app doesn't come to rest with the library's result of the last input", info(map[string]any{"inputs": fmt.Sprintf("%+q", fmt.Sprint(g.Inputs)), "want": g.Want, "got": fmt.Sprintf("%+v", out.Hook[min(i, len(out.Hook)-1)])}))
			return
		}
	}
	c.Count("inputs over real workers", len(in.Groups))
	for i, call := range calls {
		c.Case(call.Lang + "\x00" + call.Word)
		var got *webSettled
		if i < len(out.Calls) {
			got = out.Calls[i]
		}
		what := map[string]any{"call": fmt.Sprintf("%s %+q", call.Lang, call.Word), "got": fmt.Sprintf("%+v", got), "want": call.want, "fails": call.fails}
		switch {
		case got == nil:
			c.Fail("a call of the worker isn't settled", info(what))
		case call.fails != (got.Error != "") || call.fails && !got.IsError:
			c.Fail("the worker fails otherwise than the library", info(what))
		case !call.fails && got.Value != any(call.want):
			c.Fail("the worker's result isn't the library's", info(what))
		case call.Trace != "" && len(got.Traces)+len(call.traces) > 0 && !reflect.DeepEqual(got.Traces, call.traces):
			what["traces"], what["want traces"] = truncate(fmt.Sprint(got.Traces), 1500), truncate(fmt.Sprint(call.traces), 1500)
			c.Fail("the worker's traces aren't the library's", info(what))
		}
		if c.Failed() {
			return
		}
		c.Count("traces", len(got.Traces))
	}
	for _, rule := range out.Rules {
		want, _ := by[rule.Load].Transliterate(in.Probe[rule.Load])
		what := info(map[string]any{"translit": rule.Load, "observed": fmt.Sprintf("%+v", rule), "want": want})
		switch {
		case rule.Before.Error == "" || !rule.Before.IsError:
			c.Fail("a Translit worker answers before it is loaded", what)
		case rule.Loaded.Error != "":
			c.Fail("a Translit worker can't be loaded", what)
		case rule.Again.Error == "" || !rule.Again.IsError:
			c.Fail("a Translit worker is loaded twice", what)
		case rule.After.Value != any(want):
			c.Fail("a Translit worker answers otherwise than the Translit", what)
		}
		c.Count("Translit workers", 1)
	}
	if u := out.Unknown; u.Unknown.Error == "" || !u.Unknown.IsError || u.Then.Error != "" || u.After.Value == nil {
		c.Fail("a Translit worker accepts an unknown Translit, or can't be loaded after that", info(map[string]any{"observed": fmt.Sprintf("%+v", u)}))
	}
	for _, e := range out.Early {
		what := info(map[string]any{"first call": e.First, "observed": truncate(fmt.Sprintf("%+v", e), 1500), "want": in.Early["want"]})
		bad := e.Reading.Value != any(in.Early["wantReading"])
		for n, a := range e.Answers {
			bad = bad || a.Error != "" || n == "hangulize" && a.Value != any(in.Early["want"]) || n == "getVersion" && a.Value != any("1.2.3-w")
		}
		if bad || !reflect.DeepEqual(e.Specs, names) {
			c.Fail("a worker which is asked before it is loaded answers otherwise than later", what)
		}
		c.Case("early " + e.First)
	}
	if len(out.Early) == 0 {
		c.Fail("the workers don't answer early calls", info(nil))
	}
	// One program per worker, each fetched once.
	for _, f := range out.Fetched {
		c.Seen("programs fetched", f)
	}
	c.Count("threads", out.Threads)
}
