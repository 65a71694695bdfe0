package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() {
	checks["C26"] = checkCommand
	checks["C27"] = checkTestCommand
	checks["C28"] = checkListings
}

// ----------------------------------------------------------------------------
// C26

// libRun is what the library does with a sequence of words.
type libRun struct {
	out    string
	traces [][]hangulize.Trace
	failed bool // the last word ended with an error
}

func library(h hangulize.Hangulizer, words []string) libRun {
	var lr libRun
	var b strings.Builder
	for _, w := range words {
		var ts []hangulize.Trace
		h.Trace(func(t hangulize.Trace) { ts = append(ts, t) })
		out, err := h.Hangulize(w)
		h.Trace(nil)
		lr.traces = append(lr.traces, ts)
		if err != nil {
			lr.failed = true
			break
		}
		b.WriteString(out + "\n")
	}
	lr.out = b.String()
	return lr
}

// cliWord makes a word which is passed as it is.
func cliWord(r *rand.Rand, l *Lang, stdin bool) string {
	var w string
	switch r.Intn(10) {
	case 0:
		w = hostileWord(r, l)
	case 1, 2:
		w = l.Word(r)
	default:
		w = l.NativeWord(r)
	}
	if l.Model.Script == "Hrkt" && len(w) > 300 {
		w = w[:300] // the analyzer is slow for long unknown words
	}
	if len(w) > 20000 {
		w = w[:20000]
	}
	if stdin {
		w = strings.ReplaceAll(w, "\n", " ")
		w = strings.TrimSpace(w)
	} else {
		w = strings.ReplaceAll(w, "\x00", "0")
		if strings.TrimSpace(w) == "" {
			w = ""
		}
	}
	return w
}

func checkCommand(c *Ctx) {
	c.Rule = "a case is one run of the built hangulize binary: a language (bundled by its name, or its HSL file with dev) with a sequence of words as arguments or as lines of the standard input, quiet and verbose, with blank lines, CRLF, surrounding spaces, a missing last line end, very long lines, broken UTF-8 and NUL, pieces written with delays, an interactive dialogue, unsupported languages, broken HSL files, and words which fail for want of a Translit; non-trivial if at least one word is transcribed. Observed: the standard output against the library's results in order, the traces of verbose mode against the library's, the same output in both modes, and the exit status"
	installDefault()
	bin := c.mustBuild("hangulize", "./cmd/hangulize", nil)
	langs := Langs()
	if len(langs) == 0 {
		c.Fail("no specs", map[string]any{"err": fmt.Sprint(langsErr)})
		return
	}
	type runCase struct {
		l       *Lang
		words   []string
		args    []string
		stdin   string
		verbose bool
	}
	check := func(rc runCase) {
		h, err := rc.l.hangulizer()
		if err != nil {
			c.Fail("the language can't be loaded", map[string]any{"lang": rc.l.Name, "err": err.Error()})
			return
		}
		var lr libRun
		if p := Try(func() { lr = library(h, rc.words) }); p != nil {
			return // the library's totality is another property
		}
		res := runProc(tool(bin, rc.stdin, rc.args...), 300*time.Second)
		key := ""
		if len(rc.words) > 0 {
			key = strings.Join(rc.args, "\x00") + "\x00\x00" + rc.stdin
		}
		c.Case(key)
		c.Count("words", len(rc.words))
		detail := map[string]any{"lang": rc.l.Name, "args": fmt.Sprintf("%+q", clip(rc.args)), "stdin": truncate(fmt.Sprintf("%+q", rc.stdin), 1500), "stdout": truncate(res.Stdout, 1500), "library": truncate(lr.out, 1500), "stderr": truncate(res.Stderr, 800), "code": res.Code, "stuck": res.Stuck}
		if res.Stdout != lr.out {
			c.Fail("the command prints other results than the library", detail)
			return
		}
		if (res.Code != 0) != lr.failed {
			c.Fail("the exit status is wrong", detail)
			return
		}
		if lr.failed {
			return
		}
		if rc.verbose {
			rest, err := res.Stderr, error(nil)
			for _, ts := range lr.traces {
				if rest, err = parseTraces(rest, ts); err != nil {
					break
				}
			}
			if err == nil && rest != "" {
				err = fmt.Errorf("more traces: %q", truncate(rest, 200))
			}
			if err != nil {
				detail["why"] = err.Error()
				c.Fail("the traces of verbose mode aren't the library's", detail)
			}
			c.Count("verbose runs", 1)
		} else if res.Stderr != "" {
			c.Fail("something else is printed", detail)
		}
	}
	flags := func(verbose bool, head ...string) []string {
		if verbose {
			return append([]string{"-v"}, head...)
		}
		return head
	}
	// Each language, in each way.
	per := c.N(6, 60)
	Parallel(len(langs)*per, func(i int) {
		if c.Failed() {
			return
		}
		l := langs[i%len(langs)]
		k := i / len(langs)
		r := c.Rng(fmt.Sprintf("%s/%d", l.Name, k))
		verbose := r.Intn(3) == 0
		file := filepath.Join("/repo/specs", l.Name+".hsl")
		n := 1 + r.Intn(25)
		var words []string
		switch k % 3 {
		case 0: // arguments
			args := []string{l.Name}
			for j := 0; j < n; j++ {
				w := cliWord(r, l, false)
				if r.Intn(8) == 0 {
					w = ""
				}
				args = append(args, w)
				if w != "" {
					words = append(words, w)
				}
			}
			if len(args) == 1 {
				return
			}
			check(runCase{l, words, append(flags(verbose, "--"), args...), "must not be read\n", verbose})
			return
		case 1, 2: // lines
			var in strings.Builder
			for j := 0; j < n; j++ {
				w := cliWord(r, l, true)
				if r.Intn(6) == 0 {
					w = ""
				}
				if r.Intn(200) == 0 && l.Model.Script != "Hrkt" {
					w = strings.Repeat(w+"a", 1+r.Intn(70000/(len(w)+1)))
				}
				if w = strings.TrimSpace(w); w != "" {
					words = append(words, w)
				}
				in.WriteString(pick(r, []string{"", "", "", " ", "\t", "  "}))
				in.WriteString(w)
				in.WriteString(pick(r, []string{"", "", "", " ", "\t"}))
				if j < n-1 || r.Intn(2) == 0 {
					in.WriteString(pick(r, []string{"\n", "\n", "\n", "\r\n"}))
				}
			}
			if k%3 == 1 {
				check(runCase{l, words, flags(verbose, l.Name), in.String(), verbose})
			} else {
				check(runCase{l, words, flags(verbose, "dev", file), in.String(), verbose})
			}
		}
	})
	if c.Failed() {
		return
	}
	// Fixed boundaries of the standard input.
	ita := LangByName("ita")
	for _, in := range []struct {
		text  string
		words string
	}{
		{"", ""}, {"\n", ""}, {" ", ""}, {"\r\n\r\n", ""}, {"Roma", "Roma"}, {"Roma\n", "Roma"}, {"\nRoma", "Roma"},
		{"Roma\n\n\nMilano", "Roma|Milano"}, {"Roma\r\nMilano\r\n", "Roma|Milano"}, {"\n \n\t\nRoma\n \n", "Roma"},
		{"Roma Milano\nNapoli", "Roma Milano|Napoli"}, {"Roma\n\x00\nMilano", "Roma|\x00|Milano"}, {"Roma\nRoma\nRoma", "Roma|Roma|Roma"},
		{strings.Repeat("gn", 40000) + "\nRoma", strings.Repeat("gn", 40000) + "|Roma"},
		{strings.Repeat("a", 4095) + "\nb\n" + strings.Repeat("a", 4096) + "\nb\n" + strings.Repeat("a", 4097) + "\nb", strings.Repeat("a", 4095) + "|b|" + strings.Repeat("a", 4096) + "|b|" + strings.Repeat("a", 4097) + "|b"},
	} {
		var words []string
		if in.words != "" {
			words = strings.Split(in.words, "|")
		}
		for _, v := range []bool{false, true} {
			check(runCase{ita, words, flags(v, "ita"), in.text, v})
			check(runCase{ita, words, flags(v, "dev", "/repo/specs/ita.hsl"), in.text, v})
		}
	}
	// Options after the language, and words like options.
	check(runCase{ita, []string{"Roma"}, []string{"ita", "Roma", "--verbose"}, "", true})
	check(runCase{ita, []string{"-v", "--help", "test", "ls"}, []string{"--", "ita", "-v", "--help", "test", "ls"}, "", false})
	for _, w := range []string{"-", "-x", "--", "ita", "@/etc/hosts", "@-", "*", "/repo/specs/ita.hsl", "~", "$HOME", "%s", "\\n", "a\nb", "-1", "help", "\"Roma\"", "'Roma'", "Roma,Milano", "Roma;Milano"} {
		stdin := "must not be read\n"
		check(runCase{ita, []string{w}, []string{"--", "ita", w}, stdin, false})
		check(runCase{ita, []string{w, "Roma", w}, []string{"-v", "--", "ita", w, "Roma", w}, stdin, true})
		if !strings.HasPrefix(w, "-") || w == "-" {
			check(runCase{ita, []string{w}, []string{"ita", w}, stdin, false})
			check(runCase{ita, []string{"Roma", w}, []string{"ita", "Roma", w}, stdin, false})
		}
		if !strings.Contains(w, "\n") {
			check(runCase{ita, []string{w}, []string{"ita"}, w + "\n", false})
		}
	}
	check(runCase{LangByName("jpn"), []string{"東京", "新海誠"}, []string{"jpn", "東京", "", "新海誠"}, "", false})
	check(runCase{LangByName("chi"), []string{"北京"}, []string{"chi", "北京"}, "", false})

	// Many lines in one run.
	r := c.Rng("many")
	var in strings.Builder
	var words []string
	for i := 0; i < c.N(3000, 60000); i++ {
		w := strings.TrimSpace(strings.ReplaceAll(ita.Word(r), "\n", ""))
		in.WriteString(w + "\n")
		if w != "" {
			words = append(words, w)
		}
	}
	check(runCase{ita, words, []string{"ita"}, in.String(), false})

	// Words arrive in pieces, and results come before the next word is given.
	Parallel(c.N(6, 30), func(i int) {
		r := c.Rng(fmt.Sprintf("dialogue/%d", i))
		l := langs[r.Intn(len(langs))]
		h, err := l.hangulizer()
		if err != nil {
			return
		}
		args := []string{l.Name}
		if i%2 == 1 {
			args = []string{"dev", filepath.Join("/repo/specs", l.Name+".hsl")}
		}
		cmd := tool(bin, "", args...)
		cmd.Stdin = nil
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		stdin, e1 := cmd.StdinPipe()
		stdout, e2 := cmd.StdoutPipe()
		if e1 != nil || e2 != nil || cmd.Start() != nil {
			return
		}
		defer cmd.Wait()
		defer cmd.Process.Kill()
		defer stdin.Close()
		lines := make(chan string)
		go func() {
			br := bufio.NewReader(stdout)
			for {
				s, err := br.ReadString('\n')
				if s != "" {
					lines <- s
				}
				if err != nil {
					close(lines)
					return
				}
			}
		}()
		for k := 0; k < c.N(12, 60); k++ {
			w := strings.TrimSpace(strings.Join(strings.Fields(l.NativeWord(r)), " "))
			if w == "" {
				continue
			}
			want, err := h.Hangulize(w)
			if err != nil || strings.Contains(want, "\n") {
				continue
			}
			cut := r.Intn(len(w) + 1)
			io.WriteString(stdin, w[:cut])
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
			}
			io.WriteString(stdin, w[cut:])
			io.WriteString(stdin, "\n")
			c.Case(fmt.Sprintf("dialogue %d %d %s", i, k, w))
			select {
			case got := <-lines:
				if got != want+"\n" {
					c.Fail("a word of a dialogue is answered wrongly", map[string]any{"lang": l.Name, "word": w, "answer": got, "want": want})
					return
				}
			case <-time.After(90 * time.Second):
				c.Fail("a word isn't answered before the next one is given", map[string]any{"lang": l.Name, "word": w, "want": want})
				return
			}
			c.Count("dialogue turns", 1)
		}
	})

	// Failures.
	bad := func(args []string, stdin string, wantOut string) {
		res := runProc(tool(bin, stdin, args...), 60*time.Second)
		c.Case("fails " + strings.Join(args, " "))
		if res.Code == 0 || res.Stdout != wantOut || res.Stuck != "" || strings.Contains(res.Stderr, "goroutine ") || res.Stderr == "" {
			c.Fail("a failure isn't reported by the exit status and the error output only", map[string]any{"args": fmt.Sprintf("%q", args), "code": res.Code, "stdout": truncate(res.Stdout, 500), "stderr": truncate(res.Stderr, 1000), "want": wantOut, "stuck": res.Stuck})
		}
		c.Count("failing runs", 1)
	}
	known := map[string]bool{}
	for _, l := range langs {
		known[l.Name] = true
	}
	for _, lang := range []string{"xyz", "ITA", "it", "", "ita.hsl", "specs/ita", "../ita", "ita ", "/repo/specs/ita.hsl", "한국어"} {
		bad([]string{lang, "Roma"}, "", "")
		bad([]string{"--", lang}, "Roma\n", "")
	}
	dir := filepath.Join(work(), "bad")
	os.MkdirAll(dir, 0o755)
	for i, text := range []string{"lang", "x = \n= y", "lang:\n  id", "rewrite:\n  \"(\" -> \"\"\n", "transcribe:\n  a -> \"<x>\"\n b", "\x00"} {
		f := filepath.Join(dir, fmt.Sprintf("%d.hsl", i))
		os.WriteFile(f, []byte(text), 0o644)
		if _, err := hangulize.ParseSpec(strings.NewReader(text)); err != nil {
			bad([]string{"dev", f}, "a\n", "")
		}
	}
	bad([]string{"dev", filepath.Join(dir, "missing.hsl")}, "a\n", "")
	bad([]string{"dev", dir}, "a\n", "")
	// A Translit is missing: the results so far are kept.
	f := filepath.Join(dir, "want.hsl")
	os.WriteFile(f, []byte("lang:\n  id = \"x\"\n  codes = \"xx\", \"xxx\"\n  english = \"X\"\n  korean = \"엑스\"\n  script = \"Latn\"\n  translit = \"nosuch\"\nconfig:\n  author = \"x\"\n  stage = \"draft\"\ntranscribe:\n  \"a\" -> \"ㅏ\"\n"), 0o644)
	bad([]string{"dev", f}, "a\na\n", "")
	c.Sample(map[string]any{"args": []string{"ita"}, "stdin": "Roma\n\n\nMilano"})
}

func clip(ss []string) []string {
	var out []string
	for _, s := range ss {
		out = append(out, truncate(s, 300))
	}
	return out
}

// ----------------------------------------------------------------------------
// C27

// specFile is a spec file with what hangulize test should say about it.
type specFile struct {
	name    string
	text    string
	fails   []string // lines for failing examples
	entries []string // "line lastCol covered" of the profile
	covered int
	total   int
	lines   map[int]int // lengths
}

// judge runs the examples on the model.
func judge(name, text string, run func(m *model.Spec, word string) (model.Result, error)) (*specFile, error) {
	m, err := model.NewSpec(text)
	if err != nil {
		return nil, err
	}
	doc, err := model.ParseHSL(text)
	if err != nil {
		return nil, err
	}
	sf := &specFile{name: name, text: text}
	used := map[string]bool{}
	if sec := doc["test"]; sec != nil {
		for _, p := range sec.Pairs {
			want := ""
			if len(p.Right) > 0 {
				want = p.Right[0]
			}
			res, err := run(m, p.Left)
			if err != nil {
				return nil, err
			}
			for _, t := range res.Traces {
				if t.RuleID >= 0 {
					used[fmt.Sprint(t.Step, t.RuleID)] = true
				}
			}
			if res.Word != want {
				sf.fails = append(sf.fails, fmt.Sprintf("%s: \"%s\" -> \"%s\", expected: \"%s\"\n", name, p.Left, res.Word, want))
			}
		}
	}
	lines := strings.Split(text, "\n")
	for _, s := range [][2]string{{"rewrite", "Rewrite"}, {"transcribe", "Transcribe"}} {
		sec := doc[s[0]]
		if sec == nil {
			continue
		}
		for i, p := range sec.Pairs {
			n := 0
			if used[fmt.Sprint(s[1], i)] {
				n = 1
				sf.covered++
			}
			sf.total++
			width := len(strings.TrimSuffix(lines[p.Line-1], "\r"))
			sf.entries = append(sf.entries, fmt.Sprintf("%s:%d.1,%d.%d 1 %d", name, p.Line, p.Line, width+1, n))
		}
	}
	return sf, nil
}

// relayout writes the spec differently: comments, blank lines, indents.
func relayout(r *rand.Rand, text string) string {
	var b strings.Builder
	crlf := r.Intn(5) == 0
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		for r.Intn(6) == 0 {
			b.WriteString(pick(r, []string{"\n", "# comment \"a\" -> \"b\"\n", "   \n", "\t# 주석\n"}))
		}
		if strings.Contains(line, "->") && r.Intn(3) == 0 {
			line = strings.Repeat(" ", r.Intn(9)) + strings.TrimSpace(line) + pick(r, []string{"", " ", "  # why", "\t# \"x\""})
		}
		b.WriteString(line)
		if crlf {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	s := b.String()
	if r.Intn(4) == 0 {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

func checkTestCommand(c *Ctx) {
	c.Rule = "a case is one run of 'hangulize test' from the built binary on one or more spec files: generated specs with random rules and examples in varied layouts (comments, CRLF, long lines, no last line end, no rules, no examples), bundled specs, correct, wrong and failing examples, the same file by several names; plain, with --cover, and with --coverprofile over an absent, shorter or longer previous profile; non-trivial if there is an example. Observed: the exit status, the lines about failing examples, the profile's entries and the percentage, against results and used rules of the model"
	installDefault()
	bin := c.mustBuild("hangulize", "./cmd/hangulize", nil)
	plain := func(m *model.Spec, w string) (model.Result, error) { return m.Run(w, nil), nil }

	// verify runs the command on the files.
	verify := func(dir string, files []*specFile, names []string, mode int, prev string) {
		args := []string{"test"}
		profile := filepath.Join(dir, "profile.txt")
		os.Remove(profile)
		switch mode {
		case 1:
			args = append(args, "--cover")
		case 2:
			args = append(args, "--coverprofile="+profile)
			if prev != "" {
				os.WriteFile(profile, []byte(prev), 0o644)
			}
		case 3:
			args = append(args, "--cover", "--coverprofile", profile)
		}
		args = append(args, names...)
		cmd := tool(bin, "", args...)
		cmd.Dir = dir
		res := runProc(cmd, 300*time.Second)
		wantLines := ""
		covered, total, examples := 0, 0, false
		var entries []string
		seen := map[string]bool{}
		for i, f := range files {
			for _, l := range f.fails {
				wantLines += names[i] + strings.TrimPrefix(l, f.name)
			}
			examples = examples || strings.Contains(f.text, "test:")
			if seen[names[i]] {
				continue
			}
			seen[names[i]] = true
			covered += f.covered
			total += f.total
			for _, e := range f.entries {
				entries = append(entries, names[i]+strings.TrimPrefix(e, f.name))
			}
		}
		key := ""
		if examples {
			key = strings.Join(args, " ")
			for _, f := range files {
				key += "\x00" + f.text
			}
		}
		c.Case(key)
		out := res.Stdout + res.Stderr
		detail := map[string]any{"args": fmt.Sprintf("%q", args), "code": res.Code, "output": truncate(out, 1500), "want": truncate(wantLines, 1500), "stuck": res.Stuck}
		if len(files) > 0 && len(files[0].text) < 4000 {
			detail["spec"] = files[0].text
		}
		if (res.Code == 0) != (wantLines == "") {
			c.Fail("the exit status doesn't tell whether all examples passed", detail)
			return
		}
		if wantLines != "" {
			c.Count("failing runs", 1)
			if out != wantLines {
				c.Fail("other examples are printed than those which fail", detail)
			}
			return
		}
		c.Count("passing runs", 1)
		c.Seen("covered rules", fmt.Sprint(covered, "/", total))
		wantCover := ""
		if mode > 0 {
			share := 0.0
			if total > 0 {
				share = float64(covered) / float64(total) * 100
			}
			wantCover = fmt.Sprintf("%.1f%%", share)
			if !strings.HasPrefix(out, "coverage: ") || !strings.Contains(out, " "+wantCover+" ") || strings.Count(out, "\n") != 1 {
				detail["want"] = wantCover
				c.Fail("the printed coverage isn't the share of the used rules", detail)
				return
			}
		} else if out != "" {
			c.Fail("something is printed though every example passes", detail)
			return
		}
		if mode >= 2 {
			b, err := os.ReadFile(profile)
			got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
			if err != nil || got[0] != "mode: count" || !strings.HasSuffix(string(b), "\n") {
				detail["profile"] = truncate(string(b), 1000)
				c.Fail("the profile has no heading", detail)
				return
			}
			got = got[1:]
			sort.Strings(got)
			sort.Strings(entries)
			if len(got)+len(entries) > 0 && !reflect.DeepEqual(got, entries) {
				for i := 0; i < len(got) || i < len(entries); i++ {
					g, w := "", ""
					if i < len(got) {
						g = got[i]
					}
					if i < len(entries) {
						w = entries[i]
					}
					if g != w {
						detail["entry"], detail["want_entry"] = g, w
						break
					}
				}
				c.Fail("the entries of the profile are wrong", detail)
			}
			c.Count("profile entries", len(entries))
		}
	}

	// Generated specs.
	n := c.N(240, 4000)
	Parallel(n, func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprintf("gen/%d", i))
		dir := filepath.Join(work(), fmt.Sprintf("t%d", i))
		os.MkdirAll(dir, 0o755)
		defer removeAll(dir)
		var files []*specFile
		var names []string
		wrongRun := r.Intn(3) == 0
		for k := 1 + r.Intn(3); k > 0; k-- {
			s := randSpec(r, r.Intn(6), r.Intn(8))
			if r.Intn(8) == 0 {
				s.Rewrite = nil
			}
			if r.Intn(8) == 0 {
				s.Transcribe = nil
			}
			m, err := model.NewSpec(s.Text())
			if err != nil {
				continue
			}
			for _, w := range genWords(r, s.G, m, r.Intn(7)) {
				w = strings.Map(func(ch rune) rune {
					if ch == '\n' || ch == '\r' || ch == '\\' || ch == utf8.RuneError || ch == '\u2028' || ch == '\u0085' {
						return 'a'
					}
					return ch
				}, w)
				var res model.Result
				if Try(func() { res = m.Run(w, nil) }) != nil || res.RawJamo {
					continue
				}
				want := res.Word
				if strings.ContainsAny(want, "\n\r\\") {
					continue
				}
				if wrongRun && r.Intn(3) == 0 {
					want = pick(r, []string{"", "틀림", want + " ", want + "가", " " + want, strings.TrimSpace(want)})
				}
				s.Test = append(s.Test, [2]string{w, want})
			}
			text := relayout(r, s.Text())
			if r.Intn(25) == 0 {
				text = strings.Replace(text, "transcribe:", "transcribe: #"+strings.Repeat("x", 70000+r.Intn(70000)), 1)
			}
			name := fmt.Sprintf("s%d.hsl", k)
			switch r.Intn(5) {
			case 0:
				name = "dir/" + name
			case 1:
				name = "이름 " + name
			}
			f, err := judge(name, text, plain)
			if err != nil {
				continue
			}
			p := filepath.Join(dir, name)
			os.MkdirAll(filepath.Dir(p), 0o755)
			if os.WriteFile(p, []byte(text), 0o644) != nil {
				continue
			}
			// The library disagrees with the model: that is for other checks.
			if !agree(text, f) {
				c.Count("specs which the model doesn't reproduce", 1)
				continue
			}
			files = append(files, f)
			names = append(names, name)
			if r.Intn(10) == 0 {
				files = append(files, f)
				names = append(names, pick(r, []string{name, "./" + name, p}))
			}
		}
		if len(files) == 0 {
			return
		}
		prev := pick(r, []string{"", "mode: count\n", "mode: count\n" + strings.Repeat("old.hsl:1.1,1.2 1 1\n", 500)})
		verify(dir, files, names, r.Intn(4), prev)
	})
	if c.NumSeen("covered rules") < 5 && !c.Failed() {
		fmt.Fprintln(os.Stderr, "too few specs: inconclusive")
		os.Exit(3)
	}

	// Bundled specs, alone and all at once.
	langs := Langs()
	all := make([]*specFile, len(langs))
	Parallel(len(langs), func(i int) {
		l := langs[i]
		if c.Failed() {
			return
		}
		f, err := judge(filepath.Join("/repo/specs", l.Name+".hsl"), l.Source, func(m *model.Spec, w string) (model.Result, error) {
			steps, err := l.translitSteps(w)
			if err != nil {
				return model.Result{}, err
			}
			return m.Run(w, steps), nil
		})
		if err != nil || len(f.fails) > 0 {
			return
		}
		dir := filepath.Join(work(), "b-"+l.Name)
		os.MkdirAll(dir, 0o755)
		defer removeAll(dir)
		all[i] = f
		for mode := 0; mode < 3; mode++ {
			verify(dir, []*specFile{f}, []string{f.name}, mode, "")
		}
		// One example is wrong: a word at a time.
		r := c.Rng("wrong/" + l.Name)
		doc, _ := model.ParseHSL(l.Source)
		if sec := doc["test"]; sec != nil {
			lines := strings.Split(l.Source, "\n")
			p := sec.Pairs[r.Intn(len(sec.Pairs))]
			line := lines[p.Line-1]
			at := strings.LastIndexByte(line, '"')
			if at > 0 && !strings.Contains(line, "#") {
				lines[p.Line-1] = line[:at] + "가" + line[at:]
				g, err := judge("wrong.hsl", strings.Join(lines, "\n"), func(m *model.Spec, w string) (model.Result, error) {
					steps, err := l.translitSteps(w)
					if err != nil {
						return model.Result{}, err
					}
					return m.Run(w, steps), nil
				})
				if err == nil {
					os.WriteFile(filepath.Join(dir, "wrong.hsl"), []byte(g.text), 0o644)
					verify(dir, []*specFile{g}, []string{"wrong.hsl"}, r.Intn(4), "")
					verify(dir, []*specFile{g, f}, []string{"wrong.hsl", f.name}, 0, "")
					verify(dir, []*specFile{f, g}, []string{f.name, "wrong.hsl"}, 1, "")
				}
			}
		}
	})
	var files []*specFile
	var names []string
	for _, f := range all {
		if f != nil {
			files = append(files, f)
			names = append(names, f.name)
		}
	}
	c.Extra("bundled_specs", len(files))
	if len(files) > 0 && !c.Failed() {
		dir := filepath.Join(work(), "all")
		os.MkdirAll(dir, 0o755)
		verify(dir, files, names, 2, "")
		verify(dir, files, names, 0, "")
	}

	// Examples that end with an error fail.
	dir := filepath.Join(work(), "err")
	os.MkdirAll(dir, 0o755)
	head := "lang:\n  id = \"x\"\n  codes = \"xx\", \"xxx\"\n  english = \"X\"\n  korean = \"엑스\"\n  script = \"Latn\"\n%sconfig:\n  author = \"x\"\n  stage = \"draft\"\ntranscribe:\n  \"a\" -> \"ㅏ\"\ntest:\n  \"a\" -> \"%s\"\n"
	want := "  translit = \"nosuch\"\n"
	os.WriteFile(filepath.Join(dir, "empty.hsl"), []byte(fmt.Sprintf(head, want, "")), 0o644)
	os.WriteFile(filepath.Join(dir, "some.hsl"), []byte(fmt.Sprintf(head, want, "아")), 0o644)
	os.WriteFile(filepath.Join(dir, "good.hsl"), []byte(fmt.Sprintf(head, "", "아")), 0o644)
	os.WriteFile(filepath.Join(dir, "bad.hsl"), []byte("lang:\n  id = \"open"), 0o644)
	for _, tc := range []struct {
		files string
		ok    bool
	}{
		{"good.hsl", true}, {"empty.hsl", false}, {"some.hsl", false}, {"good.hsl empty.hsl", false}, {"empty.hsl good.hsl", false},
		{"some.hsl good.hsl", false}, {"bad.hsl", false}, {"good.hsl bad.hsl", false}, {"bad.hsl good.hsl", false},
		{"missing.hsl", false}, {"good.hsl missing.hsl", false}, {"missing.hsl good.hsl", false}, {"good.hsl good.hsl", true}, {"", false},
	} {
		for _, opt := range []string{"", "--cover"} {
			args := append([]string{"test"}, strings.Fields(opt+" "+tc.files)...)
			cmd := tool(bin, "", args...)
			cmd.Dir = dir
			res := runProc(cmd, 60*time.Second)
			c.Case("status " + strings.Join(args, " "))
			if (res.Code == 0) != tc.ok || strings.Contains(res.Stderr, "goroutine ") {
				c.Fail("the exit status doesn't tell whether all examples passed", map[string]any{"args": fmt.Sprintf("%q", args), "code": res.Code, "output": truncate(res.Stdout+res.Stderr, 1000)})
			}
		}
	}
	// The profile can't be written.
	for _, to := range []string{filepath.Join(dir, "no", "such", "dir"), dir, "/dev/full"} {
		if _, err := os.Stat("/dev/full"); err != nil && to == "/dev/full" {
			continue
		}
		cmd := tool(bin, "", "test", "--coverprofile", to, "good.hsl")
		cmd.Dir = dir
		c.Case("profile " + to)
		if res := runProc(cmd, 60*time.Second); res.Code == 0 {
			c.Fail("a profile that can't be written is no failure", map[string]any{"to": to, "output": res.Stdout + res.Stderr})
		}
	}
	c.Sample(map[string]any{"args": "test --coverprofile=profile.txt " + strings.Join(names, " ")})
}

// agree tells whether the library transcribes the examples like the model.
func agree(text string, f *specFile) bool {
	ok := true
	if p := Try(func() {
		spec, err := hangulize.ParseSpec(strings.NewReader(text))
		if err != nil {
			ok = false
			return
		}
		m, err := model.NewSpec(text)
		if err != nil {
			ok = false
			return
		}
		h := hangulize.New(spec)
		translit.Install(h)
		for _, e := range spec.Test {
			got := observe(h, e[0])
			want := m.Run(e[0], nil)
			if got.Word != want.Word || diffTraces(got.Traces, want.Traces) != "" {
				ok = false
				return
			}
		}
	}); p != nil {
		return false
	}
	return ok
}

func removeAll(dir string) {
	if strings.HasPrefix(dir, work()+"/") {
		os.RemoveAll(dir)
	}
}

// ----------------------------------------------------------------------------
// C28

func checkListings(c *Ctx) {
	c.Rule = "a case is one run of 'hangulize ls' or of the manifest command from the built binaries, plain or in parallel with others, or one field of a listed language; non-trivial always. Observed: identical bytes over all runs, one row and one entry per bundled spec, and every field against an independent reading of the HSL file"
	ls := c.mustBuild("hangulize", "./cmd/hangulize", nil, "-ldflags=-X main.version=9.8.7-x")
	man := c.mustBuild("manifest", "./cmd/manifest.json", nil, "-ldflags=-X main.version=9.8.7-x")
	langs := Langs()
	docs := map[string]model.Doc{}
	for _, l := range langs {
		d, err := model.ParseHSL(l.Source)
		if err != nil {
			c.Fail("a bundled spec can't be read", map[string]any{"lang": l.Name, "err": err.Error()})
			return
		}
		docs[l.Name] = d
	}
	one := func(v []string) string {
		if len(v) == 0 {
			return ""
		}
		return v[0]
	}
	runs := c.N(40, 400)
	var lists, manifests = make([]string, runs), make([]string, runs)
	Parallel(2*runs, func(i int) {
		if i%2 == 0 {
			res := runProc(tool(ls, "", "ls"), 60*time.Second)
			if res.Code != 0 {
				c.Fail("ls fails", map[string]any{"output": truncate(res.Stdout+res.Stderr, 1000), "code": res.Code})
			}
			lists[i/2] = res.Stdout + res.Stderr
		} else {
			res := runProc(tool(man, ""), 60*time.Second)
			if res.Code != 0 || res.Stderr != "" {
				c.Fail("the manifest command fails", map[string]any{"stderr": truncate(res.Stderr, 1000), "code": res.Code})
			}
			manifests[i/2] = res.Stdout
		}
		c.Case(fmt.Sprintf("run %d", i))
	})
	for i := range lists {
		if lists[i] != lists[0] {
			c.Fail("repeated runs of ls differ", map[string]any{"first": truncate(lists[0], 1500), "other": truncate(lists[i], 1500)})
			break
		}
	}
	for i := range manifests {
		if manifests[i] != manifests[0] {
			k := 0
			for k < len(manifests[0]) && k < len(manifests[i]) && manifests[0][k] == manifests[i][k] {
				k++
			}
			c.Fail("repeated runs of the manifest command differ", map[string]any{"at": k, "first": truncate(manifests[0][max(0, k-100):], 400), "other": truncate(manifests[i][max(0, k-100):], 400)})
			break
		}
	}
	if c.Failed() {
		return
	}

	// checkRows checks a listing of languages.
	checkRows := func(what, out string, want []string, sources map[string]model.Doc) {
		rows := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if len(rows) != len(want)+1 {
			c.Fail(what+" has other rows than the specs", map[string]any{"rows": len(rows) - 1, "specs": len(want), "output": truncate(out, 1500)})
			return
		}
		for i, name := range want {
			row := rows[i+1]
			d := sources[name]
			rest, ok := row, true
			fields := []string{one(d["lang"].Get("id")), one(d["config"].Get("stage")), one(d["lang"].Get("english")), one(d["lang"].Get("korean"))}
			for _, f := range fields {
				rest = strings.TrimLeft(rest, " ")
				ok = ok && strings.HasPrefix(rest, f)
				rest = strings.TrimPrefix(rest, f)
				ok = ok && (rest == "" || rest[0] == ' ' || f == "")
			}
			c.Case(what + " row " + name)
			if !ok || strings.TrimSpace(rest) != "" {
				c.Fail("a row of "+what+" isn't the spec's", map[string]any{"lang": name, "row": row, "want": fields})
			}
		}
	}
	var names []string
	for _, l := range langs {
		names = append(names, l.Name)
	}
	sort.Strings(names)
	checkRows("ls", lists[0], names, docs)
	// Of given files, in their order.
	r := c.Rng("files")
	for i := 0; i < c.N(10, 100); i++ {
		var args, want []string
		for k := 1 + r.Intn(8); k > 0; k-- {
			l := langs[r.Intn(len(langs))]
			args = append(args, filepath.Join("/repo/specs", l.Name+".hsl"))
			want = append(want, l.Name)
		}
		res := runProc(tool(ls, "", append([]string{"ls"}, args...)...), 60*time.Second)
		checkRows("ls "+strings.Join(want, " "), res.Stdout+res.Stderr, want, docs)
	}
	// Of written files, with fields of any width.
	dir, err := os.MkdirTemp(work(), "ls")
	if err != nil {
		panic(err)
	}
	for name, text := range map[string]string{"bad.hsl": "rewrite:\n \"(\" -> \"a\"\n", "list.hsl": "lang:\n \"a\" -> \"b\"\n", "empty.hsl": ""} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o600); err != nil {
			panic(err)
		}
	}
	for i := 0; i < c.N(25, 400); i++ {
		var args, want []string
		sources := map[string]model.Doc{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			field := func() string {
				var b strings.Builder
				for n := pick(r, []int{0, 1, 7, 8, 9, 23, 24, 25, 26, 40, 80}); n > 0; n-- {
					b.WriteString(pick(r, []string{"a", "b", "é", "한", "글", "日", "(", ")", "%d", "x y", "-", "e\u0301", "1"}))
				}
				return b.String()
			}
			name := fmt.Sprintf("%d-%d.hsl", i, k)
			text := "lang:\n  id = " + quoteHSL(field()) + "\n  codes = \"xx\", \"xxx\"\n  english = " + quoteHSL(field()) + "\n  korean = " + quoteHSL(field()) + "\nconfig:\n  stage = " + quoteHSL(field()) + "\n"
			d, err := model.ParseHSL(text)
			if err != nil {
				continue
			}
			path := filepath.Join(dir, name)
			if err := os.WriteFile(path, []byte(text), 0o600); err != nil {
				panic(err)
			}
			args, want = append(args, path), append(want, name)
			sources[name] = d
		}
		// Files which are no specs are left out.
		for r.Intn(2) == 0 {
			bad := pick(r, []string{filepath.Join(dir, "absent.hsl"), dir, filepath.Join(dir, "bad.hsl"), filepath.Join(dir, "empty.hsl"), filepath.Join(dir, "list.hsl")})
			at := r.Intn(len(args) + 1)
			args = append(args[:at], append([]string{bad}, args[at:]...)...)
			if filepath.Base(bad) == "empty.hsl" {
				// The empty text is a spec.
				want = append(want[:at-badBefore(args, dir, at)], append([]string{"empty.hsl"}, want[at-badBefore(args, dir, at):]...)...)
				sources["empty.hsl"] = model.Doc{}
			}
		}
		res := runProc(tool(ls, "", append([]string{"ls"}, args...)...), 60*time.Second)
		checkRows("ls of written files", res.Stdout+res.Stderr, want, sources)
		c.Count("listed files", len(want))
	}

	ver := runProc(tool(ls, "", "version"), 60*time.Second)
	c.Case("version")
	if out := strings.TrimSpace(ver.Stdout + ver.Stderr); ver.Code != 0 || !strings.Contains(out, "9.8.7-x") {
		c.Fail("hangulize version doesn't print the version of the build", map[string]any{"printed": truncate(out, 300), "code": ver.Code})
	}

	// The manifest.
	var m struct {
		Version   *string                    `json:"version"`
		Specs     map[string]json.RawMessage `json:"specs"`
		Translits []string                   `json:"translits"`
	}
	if err := json.Unmarshal([]byte(manifests[0]), &m); err != nil || m.Version == nil {
		c.Fail("the manifest isn't as documented", map[string]any{"err": fmt.Sprint(err), "manifest": truncate(manifests[0], 1000)})
		return
	}
	if *m.Version != "9.8.7-x" {
		c.Fail("the manifest has another version than the build", map[string]any{"version": *m.Version})
	}
	for _, l := range langs {
		if n := strings.Count(manifests[0], fmt.Sprintf("%q:{\"lang\"", l.Name)); n > 1 {
			c.Fail("a language is listed twice", map[string]any{"lang": l.Name, "times": n})
		}
	}
	if got := sortedKeys(m.Specs); !reflect.DeepEqual(got, names) {
		c.Fail("the manifest lists other languages than the specs", map[string]any{"listed": got, "specs": names})
		return
	}
	needs := map[string]bool{}
	for _, l := range langs {
		d := docs[l.Name]
		var s struct {
			Lang struct {
				ID, Code2, Code3, English, Korean, Script string
				Translit                                  []string
			}
			Config struct {
				Authors []string
				Stage   string
			}
			Test []struct{ Word, Result string }
		}
		if err := json.Unmarshal(m.Specs[l.Name], &s); err != nil {
			c.Fail("an entry of the manifest can't be read", map[string]any{"lang": l.Name, "err": err.Error()})
			continue
		}
		check := func(field string, got, want any) {
			c.Case("manifest " + l.Name + " " + field)
			g, w := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want)
			if g != w {
				c.Fail("a field of the manifest isn't the spec's", map[string]any{"lang": l.Name, "field": field, "listed": truncate(g, 600), "spec": truncate(w, 600)})
			}
		}
		codes := d["lang"].Get("codes")
		check("id", s.Lang.ID, one(d["lang"].Get("id")))
		if len(codes) == 2 {
			check("code2", s.Lang.Code2, codes[0])
			check("code3", s.Lang.Code3, codes[1])
		}
		check("english", s.Lang.English, one(d["lang"].Get("english")))
		check("korean", s.Lang.Korean, one(d["lang"].Get("korean")))
		check("script", s.Lang.Script, one(d["lang"].Get("script")))
		tr := d["lang"].Get("translit")
		for _, t := range tr {
			needs[t] = true
		}
		check("translit", append([]string{}, s.Lang.Translit...), append([]string{}, tr...))
		authors := append(append([]string{}, d["config"].Get("author")...), d["config"].Get("authors")...)
		check("authors", append([]string{}, s.Config.Authors...), authors)
		check("stage", s.Config.Stage, one(d["config"].Get("stage")))
		var want [][2]string
		if t := d["test"]; t != nil {
			for _, p := range t.Pairs {
				want = append(want, [2]string{p.Left, one(p.Right)})
			}
		}
		var got [][2]string
		for _, t := range s.Test {
			got = append(got, [2]string{t.Word, t.Result})
		}
		check("test", got, want)
		// The library lists the same.
		if _, err := hangulize.LoadSpec(s.Lang.ID); err != nil {
			c.Fail("a listed language can't be loaded", map[string]any{"id": s.Lang.ID, "err": err.Error()})
		}
	}
	seen := map[string]bool{}
	for _, t := range m.Translits {
		if seen[t] || !needs[t] {
			c.Fail("the manifest names a Translit twice or needlessly", map[string]any{"translit": t})
		}
		seen[t] = true
	}
	for t := range needs {
		c.Case("translit " + t)
		if !seen[t] {
			c.Fail("the manifest lacks a Translit", map[string]any{"translit": t})
		}
	}
	c.Extra("runs", 2*runs)
	c.Sample(map[string]any{"row": strings.Split(lists[0], "\n")[1]})
}

// badBefore counts the first n files which are no specs.
func badBefore(args []string, dir string, n int) int {
	bad := 0
	for _, a := range args[:n] {
		if b := filepath.Base(a); a == dir || b == "absent.hsl" || b == "bad.hsl" || b == "list.hsl" {
			bad++
		}
	}
	return bad
}
