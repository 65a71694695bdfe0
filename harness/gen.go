package main

import (
	"fmt"
	"math/rand"
	"regexp/syntax"
	"sort"
	"strings"

	"github.com/hangulize/hangulize/verifharness/model"
)

// Grammar describes what random patterns are made of.
type Grammar struct {
	Letters []string // single characters
	Macros  map[string]string
	Vars    map[string][]string
}

var alphabets = [][]string{
	{"a", "b", "c", "d"},
	{"a", "b", "é", "ß"},
	{"а", "б", "в", "ъ"},
	{"カ", "ナ", "ー", "ン"},
	{"ა", "ბ", "გ", "a"},
	{"α", "β", "ς", "ω"},
	{"a", "ñ", "ж", "日"},
}

// alphabetFor gives letters which the script keeps as they are.
func alphabetFor(script string) []string {
	switch script {
	case "Cyrl":
		return []string{"а", "б", "в", "г", "ж"}
	case "Geor":
		return []string{"ა", "ბ", "გ", "დ", "ე"}
	case "Grek":
		return []string{"α", "β", "γ", "δ", "ς"}
	case "Hrkt":
		return []string{"ア", "カ", "ナ", "ー", "ン"}
	}
	return []string{"a", "b", "c", "d", "e"}
}

var varNames = []string{"v", "vow", "V2", "자음", "x y"}
var macroNames = []string{"@", "@@", "§", "%%", "C!"}

// randGrammar makes random vars and macros over the letters.
func randGrammar(r *rand.Rand, letters []string) *Grammar {
	if r.Intn(12) == 0 {
		letters = append(append([]string{}, letters...), pick(r, []string{"\ufffd", "\u00ad", "\u0301", "😀", "\u200b"}))
	}
	g := &Grammar{Letters: letters, Vars: map[string][]string{}, Macros: map[string]string{}}
	for _, n := range varNames[:r.Intn(len(varNames))] {
		var vals []string
		seen := map[string]bool{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			v := ""
			for m := 1 + r.Intn(2); m > 0; m-- {
				v += pick(r, letters)
			}
			if r.Intn(6) == 0 {
				v = pick(r, []string{".", "a.", "a+", "(", "$", "[b]", "\\", "|", "*"})
			}
			if !seen[v] || r.Intn(4) == 0 {
				vals = append(vals, v)
			}
			seen[v] = true
		}
		g.Vars[n] = vals
	}
	for _, n := range macroNames[:r.Intn(len(macroNames))] {
		var m string
		switch names := sortedKeys(g.Vars); {
		case len(names) > 0 && r.Intn(2) == 0:
			m = "<" + pick(r, names) + ">"
		case r.Intn(2) == 0:
			m = "(?:" + pick(r, letters) + "|" + pick(r, letters) + ")"
		default:
			m = pick(r, letters) + pick(r, letters)
		}
		g.Macros[n] = m
	}
	return g
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// alt is a bounded expression of one or two alternatives.
// class makes the content of a character class.
func (g *Grammar) class(r *rand.Rand) string {
	a, b := pick(r, g.Letters), pick(r, g.Letters)
	if r.Intn(3) == 0 {
		x, y := []rune(a), []rune(b)
		if len(x) == 1 && len(y) == 1 && x[0] < y[0] && y[0]-x[0] < 64 {
			return a + "-" + b
		}
	}
	return a + b
}

func (g *Grammar) alt(r *rand.Rand, simple bool) string {
	one := func() string {
		s := ""
		for n := 1 + r.Intn(2); n > 0; n-- {
			switch k := r.Intn(10); {
			case k == 0 && len(g.Vars) > 0 && !simple:
				s += "<" + pick(r, sortedKeys(g.Vars)) + ">"
			case k == 1 && len(g.Macros) > 0 && !simple:
				s += pick(r, sortedKeys(g.Macros))
			case k == 2:
				s += "[" + pick(r, []string{"", "", "^"}) + g.class(r) + "]"
			case k == 3 && s != "":
				s += pick(r, g.Letters) + "?"
			case k == 4 && r.Intn(4) == 0 && !simple:
				s += "."
			default:
				s += pick(r, g.Letters)
			}
		}
		return s
	}
	s := one()
	for r.Intn(2) == 0 {
		s += "|" + one()
	}
	return s
}

// PatternParts is a random pattern in parts.
type PatternParts struct {
	EdgeL, LookL, Core, LookR, EdgeR string
	Vars                             []string // names of the vars in the core, in order
}

func (p PatternParts) String() string { return p.EdgeL + p.LookL + p.Core + p.LookR + p.EdgeR }

// core makes an expression which never matches an empty text.
func (g *Grammar) core(r *rand.Rand) (string, []string) {
	var b strings.Builder
	var vars []string
	group := pick(r, []string{"(", "(?:"})
	withVars := len(g.Vars) > 0 && r.Intn(2) == 0
	var names []string
	if withVars {
		names = sortedKeys(g.Vars)
	}
	macros := sortedKeys(g.Macros)
	n := 1 + r.Intn(3)
	must := r.Intn(n)
	for i := 0; i < n; i++ {
		switch k := r.Intn(12); {
		case k < 3 && withVars:
			v := pick(r, names)
			vars = append(vars, v)
			if r.Intn(5) == 0 {
				// A var in a group, perhaps beside a group.
				b.WriteString(group + pick(r, []string{"", pick(r, g.Letters), "(" + pick(r, g.Letters) + ")?", "\\(?", "[(]?"}) + "<" + v + ">)")
			} else {
				b.WriteString("<" + v + ">")
			}
		case k == 3 && len(macros) > 0:
			m := pick(r, macros)
			b.WriteString(m)
			if s := g.Macros[m]; strings.HasPrefix(s, "<") {
				vars = append(vars, strings.Trim(s, "<>"))
			}
		case k == 4:
			b.WriteString("[" + g.class(r) + "]")
		case k == 5:
			b.WriteString(group + g.alt(r, true) + ")")
		case k == 6:
			b.WriteString(pick(r, g.Letters) + "+")
		case k == 7 && i != must:
			b.WriteString(pick(r, g.Letters) + pick(r, []string{"*", "?", "*?"}))
		case k == 8 && i != must:
			b.WriteString(group + g.alt(r, true) + ")" + pick(r, []string{"?", "*", "+"}))
		case k == 9 && r.Intn(3) == 0:
			b.WriteString(pick(r, []string{".", "\\s", "\\."}))
		default:
			b.WriteString(pick(r, g.Letters))
		}
	}
	return b.String(), vars
}

// Pattern makes a random pattern.
func (g *Grammar) Pattern(r *rand.Rand) PatternParts {
	var p PatternParts
	p.Core, p.Vars = g.core(r)
	if r.Intn(12) == 0 {
		// Alternatives of the whole pattern, as in ";|-".
		core, vars := g.core(r)
		p.Core, p.Vars = p.Core+"|"+core, append(p.Vars, vars...)
		return p
	}
	side := func(edge, lookable string) (string, string) {
		switch k := r.Intn(10); {
		case k < 1:
			return edge, ""
		case k < 2:
			return edge + edge, ""
		case k < 4:
			return "", "{" + g.alt(r, false) + "}"
		case k < 6:
			return "", "{~" + g.alt(r, false) + "}"
		}
		return "", ""
	}
	p.EdgeL, p.LookL = side("^", "")
	p.EdgeR, p.LookR = side("$", "")
	return p
}

// RPattern makes a random replacement for the pattern.
func (g *Grammar) RPattern(r *rand.Rand, p PatternParts, outs []string) string {
	s := ""
	for n := r.Intn(4); n > 0; n-- {
		switch {
		case len(p.Vars) > 0 && r.Intn(2) == 0:
			s += "<" + pick(r, sortedKeys(g.Vars)) + ">"
		default:
			s += pick(r, outs)
		}
	}
	return s
}

// text makes a text that the patterns are likely to match.
func (g *Grammar) text(r *rand.Rand, asts []*syntax.Regexp, marks bool) string {
	var b strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		switch k := r.Intn(12); {
		case k < 5 && len(asts) > 0:
			sampleRegexp(r, asts[r.Intn(len(asts))], &b, 0)
		case k < 9:
			for m := 1 + r.Intn(4); m > 0; m-- {
				b.WriteString(pick(r, g.Letters))
			}
		case k < 10:
			b.WriteString(pick(r, []string{" ", " ", "  ", "\t"}))
		case k < 11 && marks:
			b.WriteString("{}")
		case r.Intn(3) == 0:
			b.WriteString(pick(r, []string{"\ufffd", "\xff", "\xe3\x81", "\u0301", "\u200b", "\x00", "\n", "\u3000", "😀"}))
		default:
			if names := sortedKeys(g.Vars); len(names) > 0 {
				b.WriteString(pick(r, g.Vars[pick(r, names)]))
			}
		}
	}
	return b.String()
}

// GenSpec is a random spec.
type GenSpec struct {
	Script     string
	Translit   []string
	G          *Grammar
	Normalize  map[string][]string
	Rewrite    [][2]string
	Transcribe [][2]string
	Test       [][2]string
}

func quoteHSL(s string) string { return `"` + strings.ReplaceAll(s, `"`, `\"`) + `"` }

// Text writes the spec as HSL.
func (s *GenSpec) Text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "lang:\n  id = \"gen\"\n  codes = \"xx\", \"xxx\"\n  english = \"Generated\"\n  korean = \"생성\"\n  script = %s\n", quoteHSL(s.Script))
	list := func(vals []string) string {
		var q []string
		for _, v := range vals {
			q = append(q, quoteHSL(v))
		}
		return strings.Join(q, ", ")
	}
	if len(s.Translit) > 0 {
		fmt.Fprintf(&b, "  translit = %s\n", list(s.Translit))
	}
	b.WriteString("\nconfig:\n  author = \"nobody\"\n  stage = \"draft\"\n")
	dict := func(name string, m map[string][]string) {
		if len(m) == 0 {
			return
		}
		fmt.Fprintf(&b, "\n%s:\n", name)
		for _, k := range sortedKeys(m) {
			fmt.Fprintf(&b, "  %s = %s\n", quoteHSL(k), list(m[k]))
		}
	}
	macros := map[string][]string{}
	for k, v := range s.G.Macros {
		macros[k] = []string{v}
	}
	dict("macros", macros)
	dict("vars", s.G.Vars)
	dict("normalize", s.Normalize)
	pairs := func(name string, ps [][2]string) {
		if len(ps) == 0 {
			return
		}
		fmt.Fprintf(&b, "\n%s:\n", name)
		for _, p := range ps {
			fmt.Fprintf(&b, "  %s -> %s\n", quoteHSL(p[0]), quoteHSL(p[1]))
		}
	}
	pairs("rewrite", s.Rewrite)
	pairs("transcribe", s.Transcribe)
	pairs("test", s.Test)
	return b.String()
}

var genJamo = []string{"ㄱㅏ", "ㄴㅓ", "ㄷㅗ", "ㄹㅜ", "ㅁㅡ", "ㅂㅣ", "ㅅㅐ", "ㅇㅔ", "ㅈ", "ㅊ", "-ㄴ", "-ㄹ", "-ㅁ", "ㅏ", "ㅗ", "ㄹㄹㅏ", "ㄸㅢ", "한"}

// randSpec makes a random spec. hints are characters which rewrite rules may
// produce besides the letters.
func randSpec(r *rand.Rand, rewrites, transcribes int) *GenSpec {
	s := &GenSpec{Script: pick(r, model.Scripts)}
	letters := alphabetFor(s.Script)
	s.G = randGrammar(r, letters)
	for _, vals := range s.G.Vars {
		for i := range vals {
			if strings.Contains(vals[i], "\\") {
				vals[i] = "+" // a backslash before a quote is an escape in HSL
			}
		}
	}
	if r.Intn(2) == 0 {
		s.G.Vars["ja"] = []string{"ㄱㅏ", "-ㄴ", "ㅗ", "ㄹㄹㅏ", "ㅊ"}[:1+r.Intn(5)]
	}
	if r.Intn(2) == 0 {
		s.Normalize = map[string][]string{}
		variants := []string{"x", "q", "qx", "xq", "Ä", "ц", "ЦЦ", "ვ", "ψ", "テ", "ﬁ", "é"}
		r.Shuffle(len(variants), func(i, j int) { variants[i], variants[j] = variants[j], variants[i] })
		for i := 0; i < 1+r.Intn(3); i++ {
			to := pick(r, letters)
			if _, dup := s.Normalize[to]; !dup {
				s.Normalize[to] = []string{variants[2*i], variants[2*i+1]}
			}
		}
	}
	outs := append([]string{"{}", "'", "~", "-"}, letters...)
	// The rewrite rules may also match hints.
	rg := *s.G
	rg.Letters = append(append([]string{}, letters...), letters...)
	rg.Letters = append(rg.Letters, "'", "~")
	// Sometimes also other marks.
	tg := *s.G
	if r.Intn(3) == 0 {
		mark := pick(r, []string{",", "!", "/", "·", "—", "。", "%", "_"})
		rg.Letters = append(rg.Letters, mark)
		if r.Intn(2) == 0 {
			tg.Letters = append(append([]string{}, letters...), mark)
		}
	}
	for i := 0; i < rewrites; i++ {
		p := rg.Pattern(r)
		s.Rewrite = append(s.Rewrite, [2]string{p.String(), rg.RPattern(r, p, outs)})
	}
	for i := 0; i < transcribes; i++ {
		p := tg.Pattern(r)
		if r.Intn(2) == 0 {
			p.Vars = nil
		}
		s.Transcribe = append(s.Transcribe, [2]string{p.String(), tg.RPattern(r, p, genJamo)})
	}
	if r.Intn(3) > 0 {
		for i, l := range letters {
			s.Transcribe = append(s.Transcribe, [2]string{l, genJamo[(i*3)%8]})
		}
	}
	s.Rewrite, s.Transcribe = repeatRules(r, s.Rewrite), repeatRules(r, s.Transcribe)
	return s
}

// repeatRules sometimes writes rules again at other places, and sometimes
// makes a long list of them.
func repeatRules(r *rand.Rand, rules [][2]string) [][2]string {
	if len(rules) == 0 {
		return rules
	}
	n := 0
	switch r.Intn(24) {
	case 0:
		n = 60 + r.Intn(200)
	case 1, 2, 3, 4, 5, 6, 7, 8:
		n = 1 + r.Intn(4)
	}
	out := append([][2]string{}, rules...)
	for ; n > 0; n-- {
		rule := pick(r, rules)
		if r.Intn(4) == 0 {
			rule[1] = pick(r, rules)[1]
			if strings.Contains(rule[1], "<") {
				continue
			}
		}
		at := r.Intn(len(out) + 1)
		out = append(out[:at], append([][2]string{rule}, out[at:]...)...)
	}
	return out
}

// longText makes a text of at least size bytes.
func (g *Grammar) longText(r *rand.Rand, asts []*syntax.Regexp, marks bool, size int) string {
	var b strings.Builder
	for b.Len() < size {
		t := g.text(r, asts, marks)
		for n := r.Intn(6) * r.Intn(6) * r.Intn(12); n >= 0 && b.Len() < size; n-- {
			b.WriteString(t)
		}
		if t == "" {
			b.WriteString(pick(r, g.Letters))
		}
	}
	return b.String()
}

// genWords makes words for a spec.
func genWords(r *rand.Rand, g *Grammar, m *model.Spec, n int) []string {
	var asts []*syntax.Regexp
	for _, rules := range [][]*model.Rule{m.Rewrite, m.Transcribe} {
		for _, x := range rules {
			if x.From.Re != nil {
				asts = append(asts, x.From.Re.AST)
			}
		}
	}
	var out []string
	for i := 0; i < n; i++ {
		w := ""
		for k := 1 + r.Intn(3); k > 0; k-- {
			w += g.text(r, asts, false)
			switch r.Intn(8) {
			case 0:
				w += string(pickRune(r, foreignPool))
			case 1:
				w += string(pickRune(r, punctPool))
			case 2:
				w += pick(r, spacePool)
			case 3:
				if len(m.Normalize) > 0 {
					to := pick(r, sortedKeys(m.Normalize))
					w += pick(r, m.Normalize[to])
				}
			}
		}
		out = append(out, w)
	}
	return out
}
