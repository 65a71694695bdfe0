package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	hangulize "github.com/hangulize/hangulize"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() { checks["C35"] = checkArrange }

// copyDoc copies a document deeply.
func copyDoc(d model.Doc) model.Doc {
	out := model.Doc{}
	for name, s := range d {
		c := *s
		c.Pairs = append([]model.Pair{}, s.Pairs...)
		for i := range c.Pairs {
			c.Pairs[i].Right = append([]string{}, c.Pairs[i].Right...)
		}
		out[name] = &c
	}
	return out
}

// writeArranged writes a document: sections in a random order, in pieces,
// and dictionaries in a random order.
func writeArranged(r *rand.Rand, d model.Doc) string {
	type piece struct {
		name  string
		list  bool
		pairs []model.Pair
	}
	var pieces []piece
	split := r.Intn(2) == 0
	names := sortedKeys(d)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	queues := map[string][]piece{}
	var order []string
	for _, name := range names {
		s := d[name]
		pairs := append([]model.Pair{}, s.Pairs...)
		if !s.List {
			r.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
		}
		for len(pairs) > 0 {
			n := len(pairs)
			if split && r.Intn(3) > 0 {
				n = 1 + r.Intn(n)
			}
			queues[name] = append(queues[name], piece{name, s.List, pairs[:n]})
			order = append(order, name)
			pairs = pairs[n:]
		}
	}
	if split {
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	for _, name := range order {
		pieces = append(pieces, queues[name][0])
		queues[name] = queues[name][1:]
	}
	var b strings.Builder
	str := func(s string) string {
		if r.Intn(3) == 0 && bare(s) {
			return s
		}
		return quoteHSL(s)
	}
	for _, p := range pieces {
		if r.Intn(3) == 0 {
			b.WriteString(pick(r, []string{"\n", "# c: \"d\" = \n", "\t\n"}))
		}
		b.WriteString(p.name + pick(r, []string{":\n", " :\n", ": # c\n", ":\r\n"}))
		op := pick(r, []string{" = ", "=", "\t=  "})
		if p.list {
			op = pick(r, []string{" -> ", "->", "\t->\t"})
		}
		indent := pick(r, []string{"", " ", "\t", "    "})
		for _, x := range p.pairs {
			var q []string
			for _, v := range x.Right {
				q = append(q, str(v))
			}
			b.WriteString(indent + str(x.Left) + op + strings.Join(q, pick(r, []string{", ", ",", " , "})))
			b.WriteString(pick(r, []string{"\n", "\n", "\n", " # x\n", "\n\n", "\r\n"}))
		}
	}
	return b.String()
}

// arrangement is a spec written in another way.
type arrangement struct {
	text                string
	did                 []string
	rewrite, transcribe map[int]int // rule of the text -> rule of the original
}

// ruleTexts calls f for every text of a rule.
func ruleTexts(d model.Doc, f func(string) string) {
	for _, name := range []string{"rewrite", "transcribe"} {
		if d[name] == nil {
			continue
		}
		for i := range d[name].Pairs {
			p := &d[name].Pairs[i]
			p.Left, p.Right[0] = f(p.Left), f(p.Right[0])
		}
	}
}

const deadLetter = '\uf8f5' // no text of a case has it

// rearrange writes a spec in another way, which means the same.
func rearrange(r *rand.Rand, orig model.Doc) *arrangement {
	d := copyDoc(orig)
	a := &arrangement{rewrite: map[int]int{}, transcribe: map[int]int{}}
	did := func(f string, args ...any) { a.did = append(a.did, fmt.Sprintf(f, args...)) }
	macros := map[string]string{}
	if d["macros"] != nil {
		for _, p := range d["macros"].Pairs {
			macros[p.Left] = p.Right[0]
		}
	}
	setMacros := func() {
		delete(d, "macros")
		if len(macros) == 0 {
			return
		}
		s := &model.Section{Name: "macros"}
		for _, k := range sortedKeys(macros) {
			s.Pairs = append(s.Pairs, model.Pair{Left: k, Right: []string{macros[k]}})
		}
		d["macros"] = s
	}
	// Names which start with a letter of their own, of which one may be the
	// start of another one.
	macroName := func(i int) string { return "\ue000" + strings.Repeat("\ue001", i) }

	// Macros.
	plain := false // the rules are written without macros
	switch r.Intn(4) {
	case 0:
		did("macros written out")
		ruleTexts(d, func(s string) string { return model.ExpandTable(s, macros) })
		macros = map[string]string{}
		plain = true
	case 1, 2:
		did("macros renamed")
		names, keys := map[string]string{}, sortedKeys(macros)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for i, k := range keys {
			names[k] = macroName(i)
		}
		ruleTexts(d, func(s string) string { return model.ExpandTable(s, names) })
		renamed := map[string]string{}
		for k, v := range macros {
			renamed[names[k]] = v
		}
		macros = renamed
	}

	// Vars.
	if plain && d["vars"] != nil && r.Intn(2) == 0 {
		did("vars renamed")
		names := map[string]string{}
		style := r.Intn(6)
		order := r.Perm(len(d["vars"].Pairs))
		for i := range d["vars"].Pairs {
			k, n := d["vars"].Pairs[i].Left, order[i]
			switch style {
			case 0:
				names[k] = strings.Repeat("v", n+1)
			case 1:
				names[k] = fmt.Sprintf("v%d", n)
			case 3, 4:
				// In lower and upper case.
				b := []byte("vowels")
				for j := range b {
					if n>>j&1 == 1 {
						b[j] -= 'a' - 'A'
					}
				}
				names[k] = string(b)
			case 2:
				names[k] = string(rune(0xac00+n*29)) + "이름"
			default:
				names[k] = fmt.Sprintf("%d a-b", n)
			}
			d["vars"].Pairs[i].Left = names[k]
		}
		ruleTexts(d, func(s string) string {
			var b strings.Builder
			cur := 0
			for {
				i, j, name := model.VarSpan(s, cur)
				if i < 0 {
					break
				}
				if to, ok := names[name]; ok {
					b.WriteString(s[cur:i] + "<" + to + ">")
				} else {
					b.WriteString(s[cur:j])
				}
				cur = j
			}
			b.WriteString(s[cur:])
			return b.String()
		})
	}

	// A letter of the rules is the name of a macro, and written with another
	// one.
	hidden := ""
	if plain && r.Intn(2) == 0 {
		var all []rune
		ruleTexts(d, func(s string) string { all = append(all, []rune(s)...); return s })
		if len(all) > 0 {
			ch := all[r.Intn(len(all))]
			if ch != '\\' && !strings.ContainsRune("\ue000\ue001", ch) {
				did("a letter is the name of a macro")
				hidden = string(ch)
				name := macroName(0)
				macros[name] = hidden
				ruleTexts(d, func(s string) string { return strings.ReplaceAll(s, hidden, name) })
			}
		}
	}

	// Parts of rules as macros.
	if plain && r.Intn(2) == 0 {
		did("parts of rules are macros")
		known := map[string]string{}
		ruleTexts(d, func(s string) string {
			rs := []rune(s)
			if len(rs) == 0 || r.Intn(3) > 0 || len(macros) > 40 {
				return s
			}
			i := r.Intn(len(rs))
			j := i + 1 + r.Intn(len(rs)-i)
			part := string(rs[i:j])
			if strings.ContainsAny(part, "\ue000\ue001") || (hidden != "" && strings.Contains(s, hidden)) {
				return s
			}
			if strings.HasSuffix(part, `\`) || strings.HasPrefix(string(rs[j:]), "\ue001") {
				return s
			}
			name, ok := known[part]
			if !ok {
				name = macroName(len(macros))
				if hidden != "" && macros[hidden] == "" {
					name = hidden
				}
				known[part] = name
				macros[name] = part
			}
			return string(rs[:i]) + name + string(rs[j:])
		})
	}
	if r.Intn(3) == 0 {
		did("a macro without use")
		macros["\ue002"] = pick(r, []string{"<none>", "a", "(", "", "<vowels>"})
	}
	setMacros()
	if r.Intn(3) == 0 {
		did("a var without use")
		if d["vars"] == nil {
			d["vars"] = &model.Section{Name: "vars"}
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			d["vars"].Pairs = append(d["vars"].Pairs, model.Pair{Left: strings.Repeat("\ue003", k), Right: []string{"'", "a", "["}[:1+r.Intn(3)]})
		}
	}

	// What does not take part.
	if r.Intn(2) == 0 {
		did("other meta data")
		for i, p := range d["lang"].Pairs {
			switch p.Left {
			case "id", "english", "korean":
				d["lang"].Pairs[i].Right = []string{pick(r, []string{"x", "한글", "jpn", "", "Latn"})}
			case "codes":
				d["lang"].Pairs[i].Right = []string{pick(r, []string{"ja", "x", ""}), pick(r, []string{"jpn", "cmn", "x"})}
			}
		}
		delete(d, "config")
		if r.Intn(2) == 0 {
			delete(d, "test")
		} else {
			if d["test"] == nil {
				d["test"] = &model.Section{Name: "test", List: true}
			}
			d["test"].Pairs = append(d["test"].Pairs, model.Pair{Left: "a'b", Right: []string{"가"}})
		}
		if r.Intn(2) == 0 {
			d["note"] = &model.Section{Name: "note", List: r.Intn(2) == 0, Pairs: []model.Pair{{Left: "a", Right: []string{"b"}}}}
		}
	}
	if d["normalize"] != nil && r.Intn(2) == 0 {
		did("variants in another order")
		for _, p := range d["normalize"].Pairs {
			r.Shuffle(len(p.Right), func(i, j int) { p.Right[i], p.Right[j] = p.Right[j], p.Right[i] })
		}
	}

	// Rules which never apply.
	dead, many := r.Intn(3) == 0, r.Intn(40) == 0
	if dead {
		did("rules which never apply")
	}
	for name, ids := range map[string]map[int]int{"rewrite": a.rewrite, "transcribe": a.transcribe} {
		if d[name] == nil {
			continue
		}
		var out []model.Pair
		if dead && many {
			for k := 300 + r.Intn(4000); k > 0; k-- {
				out = append(out, model.Pair{Left: string(deadLetter), Right: []string{""}})
			}
		}
		for i, p := range d[name].Pairs {
			for dead && r.Intn(4) == 0 {
				x := model.Pair{Left: pick(r, []string{"^", ""}) + string(deadLetter), Right: []string{pick(r, []string{"", "ㅏ", "x"})}}
				if hidden != "" {
					x = model.Pair{Left: string(deadLetter), Right: []string{""}}
				}
				out = append(out, x)
			}
			ids[len(out)] = i
			out = append(out, p)
		}
		d[name].Pairs = out
	}
	a.text = writeArranged(r, d)
	sort.Strings(a.did)
	return a
}

// original tells the traces with the rules of the original.
func (a *arrangement) original(ts []model.Trace) []model.Trace {
	out := append([]model.Trace{}, ts...)
	for i := range out {
		ids := a.rewrite
		switch out[i].Step {
		case "Rewrite":
		case "Transcribe":
			ids = a.transcribe
		default:
			continue
		}
		if out[i].RuleID >= 0 {
			id, ok := ids[out[i].RuleID]
			if !ok {
				id = -99
			}
			out[i].RuleID = id
		}
	}
	return out
}

func checkArrange(c *Ctx) {
	c.Rule = "a case is a text and a spec, a bundled or a generated one, which is written in another way that means the same: sections in another order and in pieces, dictionaries in another order, other quoting, spaces, comments and line ends, macros written out, renamed (also to names of which one starts another) or made from any part of a rule, vars renamed, macros, vars, sections and tests without use, other meta data, variants in another order, rules in between which never apply. Observed: the other spec is accepted, and gives the same result, error and traces, with the same rules at them"
	installDefault()
	langs := Langs()
	for _, l := range langs {
		l.prepare()
	}
	n := c.N(8000, 120000)
	var mu sync.Mutex
	changed := map[string]int{}
	Parallel(n, func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("arrange", i))
		var text, name string
		var words []string
		if i%3 == 0 {
			l := langs[(i/3)%len(langs)]
			text, name = l.Source, l.Name
			for k := 0; k < 10; k++ {
				if k%3 == 2 {
					words = append(words, l.Word(r))
				} else {
					words = append(words, l.NativeWord(r))
				}
			}
		} else {
			g := randSpec(r, r.Intn(7), r.Intn(7))
			text, name = g.Text(), "generated"
			m, err := model.NewSpec(text)
			if err != nil {
				return
			}
			for _, w := range genWords(r, g.G, m, 14) {
				// Rules may make a word longer and longer.
				if Try(func() { m.Run(w, nil) }) == nil {
					words = append(words, w)
				}
			}
		}
		doc, err := model.ParseHSL(text)
		if err != nil {
			return
		}
		spec, err := hangulize.ParseSpec(strings.NewReader(text))
		if err != nil {
			return
		}
		h := hangulize.New(spec)
		for k := 0; k < 2; k++ {
			a := rearrange(r, doc)
			info := map[string]any{"spec": name, "changes": a.did, "text": a.text}
			if name == "generated" {
				info["original"] = text
			}
			spec2, err, panicked := parseSpec(c, strings.NewReader(a.text), "arranged")
			if panicked != nil || err != nil {
				info["error"] = fmt.Sprint(err, panicked)
				c.Fail("a spec is rejected when it is written in another way", info)
				return
			}
			h2 := hangulize.New(spec2)
			for _, w := range words {
				// A NUL is shown as a dot at the first rule.
				if strings.ContainsRune(w, deadLetter) || strings.ContainsRune(w, 0) || len(w) > 400 {
					continue
				}
				want, got := observe(h, w), observe(h2, w)
				if len(want.Traces) > 4 {
					c.Case(fmt.Sprint(i, k, w))
				} else {
					c.Case("")
				}
				if got.Word != want.Word || (got.Err != "") != (want.Err != "") || (got.Panic != "") != (want.Panic != "") {
					info["word"], info["got"], info["want"] = w, fmt.Sprint(got), fmt.Sprint(want)
					c.Fail("a spec gives another result when it is written in another way", info)
					return
				}
				if d := diffTraces(a.original(got.Traces), want.Traces); d != "" {
					info["word"], info["diff"] = w, d
					c.Fail("a spec gives other traces when it is written in another way", info)
					return
				}
			}
			mu.Lock()
			for _, x := range a.did {
				changed[x]++
			}
			mu.Unlock()
			c.Seen("changes", strings.Join(a.did, ", "))
			c.Seen("specs", name)
			if i < 6 {
				c.Sample(map[string]any{"spec": name, "changes": a.did, "words": words[:min(3, len(words))]})
			}
		}
	})
	for k, v := range changed {
		c.Count(k, v)
	}
}
