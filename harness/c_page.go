package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func init() { checks["C32"] = checkPage }

const underscore = "/opt/veriftools/node/node_modules/underscore/modules/index-all.js"

type pageRun struct {
	Seed     int64          `json:"seed"`
	Start    string         `json:"start"`
	Problems []string       `json:"problems"`
	Actions  int            `json:"actions"`
	Renders  int            `json:"renders"`
	Calm     int            `json:"calm"`
	Kinds    map[string]int `json:"kinds"`
	Sizes    []string       `json:"sizes"`
	Shape    string         `json:"shape"`
	Log      []any          `json:"log"`
}

// pageSpec makes a language for the page.
func pageSpec(id, code2, code3, english, korean string, words ...string) map[string]any {
	tests := []map[string]string{}
	for _, w := range words {
		tests = append(tests, map[string]string{"word": w, "result": "x"})
	}
	return map[string]any{
		"lang":   map[string]any{"id": id, "code2": code2, "code3": code3, "english": english, "korean": korean, "script": "Latn", "translit": []string{}},
		"config": map[string]any{"authors": []string{}, "stage": "draft"},
		"test":   tests,
	}
}

func checkPage(c *Ctx) {
	c.Rule = "a case is a session of the web page in virtual time: an address to start with (with or without language and word, empty ones, escaped ones, other parameters), and a random sequence of typing, choosing and searching languages, following and shuffling examples, going back and forth and resizing, while worker answers, timers, renders and effects come in a random order; non-trivial if the user did something. Observed: after every commit the text, its size and whether it is shown as being loaded; whenever nothing is to be rendered the input, the language, the title, the examples and the address; after every action the address and the length of the history; everything at rest"
	for _, f := range []string{esbuild, underscore} {
		if _, err := os.Stat(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	}
	if _, err := exec.LookPath("node"); err != nil {
		fmt.Fprintln(os.Stderr, "no node")
		os.Exit(4)
	}
	dir := filepath.Join(work(), "page")
	os.MkdirAll(dir, 0o755)
	manifest, err := tool(c.mustBuild("page/manifest", "./cmd/manifest.json", nil, "-ldflags=-X main.version=1.2.3-m"), "").Output()
	var man struct {
		Version   string         `json:"version"`
		Specs     map[string]any `json:"specs"`
		Translits []string       `json:"translits"`
	}
	if err != nil || json.Unmarshal(manifest, &man) != nil || len(man.Specs) == 0 {
		fmt.Fprintln(os.Stderr, "the manifest can't be made:", err)
		os.Exit(4)
	}

	// Pages with different languages: few, odd ones, all of them.
	r := c.Rng("page")
	bundle := func(name string, specs map[string]any) (string, map[string]any) {
		m := map[string]any{"version": man.Version, "translits": man.Translits, "specs": specs}
		b, _ := json.Marshal(m)
		path, out := filepath.Join(dir, name+".manifest.json"), filepath.Join(dir, name+".js")
		os.WriteFile(path, b, 0o644)
		cmd := exec.Command("node", filepath.Join(c.Root, "harness/js/web/page/build.mjs"), esbuild, underscore, "/repo/web", path, out)
		cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintln(os.Stderr, "the page can't be bundled:", err, truncate(string(b), 3000))
			os.Exit(4)
		}
		return out, m
	}
	odd := map[string]any{
		"none":  pageSpec("none", "nn", "nne", "Wordless", "빈말"),
		"one":   pageSpec("one", "on", "one", "Single", "하나어", "only"),
		"two":   pageSpec("two", "tw", "two", "Double (2nd scheme)", "둘어(제2안)", "un", "deux"),
		"odd-2": pageSpec("odd-2", "od", "odd", "Oddly", "홀수말(제2안)", "a&b", "un", "e#f", "vier", "fünf", "sechs"),
		"odd":   pageSpec("odd", "od", "odd", "Oddly", "홀수말", "a&b", "c+d", "e#f", "100%", "%41", "g=h", "j?k", "x y", "ㄱ나", "/../x", "&lang=two", "\"q\"", "\U0001F600"),
	}
	type site struct {
		path string
		man  map[string]any
		all  bool
	}
	var sites []site
	names := Langs()
	for i := 0; i < c.N(3, 12); i++ {
		specs := map[string]any{}
		for k, v := range odd {
			specs[k] = v
		}
		for len(specs) < 8+i%3 {
			l := names[r.Intn(len(names))].Name
			if s, ok := man.Specs[l]; ok {
				specs[l] = s
			}
		}
		p, m := bundle(fmt.Sprint("few", i), specs)
		sites = append(sites, site{p, m, true})
	}
	p, m := bundle("all", man.Specs)
	sites = append(sites, site{p, m, true})
	lone, lm := bundle("lone", map[string]any{"ita": man.Specs["ita"]})
	sites = append(sites, site{lone, lm, false})

	batch := c.N(100, 250)
	batches := c.N(64, 1600)
	Parallel(batches, func(i int) {
		if c.Failed() {
			return
		}
		s := sites[i%len(sites)]
		n := batch
		if len(s.man["specs"].(map[string]any)) > 20 {
			n = batch / 2
		}
		seeds := make([]int64, n)
		for k := range seeds {
			seeds[k] = (c.Seed*1_000_003 + int64(i*batch+k)) % 4_000_000_000
		}
		steps := []int{12, 40, 120}[rand.New(rand.NewSource(c.Seed+int64(i))).Intn(3)]
		var out struct {
			Runs      []pageRun `json:"runs"`
			Unhandled []string  `json:"unhandled"`
		}
		res := c.webTool(300*time.Second, "page/page.mjs", map[string]any{"manifest": s.man, "steps": steps, "seeds": seeds, "all": s.all}, &out, s.path)
		if res.Code != 0 && len(out.Runs) == 0 {
			c.Fail("the page doesn't run", map[string]any{"code": res.Code, "stuck": res.Stuck, "stderr": truncate(res.Stderr, 2000)})
			return
		}
		for _, run := range out.Runs {
			key := ""
			if run.Actions > 0 {
				key = fmt.Sprint(i, run.Seed, run.Shape)
			}
			c.Case(key)
			c.Seen("schedules", run.Shape)
			c.Seen("addresses at the start", run.Start)
			c.Count("renders", run.Renders)
			c.Count("moments of calm", run.Calm)
			for k, n := range run.Kinds {
				c.Count("actions: "+k, n)
			}
			for _, z := range run.Sizes {
				c.Seen("sizes of the result", z)
			}
			if len(run.Problems) > 0 {
				c.Fail("the page goes wrong: "+run.Problems[0], map[string]any{"seed": run.Seed, "start": run.Start, "steps": steps, "problems": run.Problems, "events": truncate(fmt.Sprint(run.Log), 5000)})
			}
		}
		if len(out.Unhandled) > 0 {
			c.Fail("the page leaves an error unhandled", map[string]any{"errors": truncate(strings.Join(out.Unhandled, "\n"), 2000)})
		}
	})
	c.Sample(map[string]any{"session": "start at ?lang=&word=a%26b; a language is chosen for the address; type 'w1'; go back; follow the example 'e#f' while the answer for 'w1' is pending; at rest the page shows the result of odd 'e#f', and says so in the address, the input and the title"})
}
