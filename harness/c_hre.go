package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() {
	checks["C08"] = checkFind
	checks["C09"] = checkNegative
	checks["C10"] = checkWidths
	checks["C11"] = checkReplace
}

// bothPatterns compiles a pattern with the code and with the model.
func bothPatterns(c *Ctx, expr string, g *Grammar) (*hre.Pattern, *model.Pattern) {
	var p *hre.Pattern
	var err error
	if e := Try(func() { p, err = hre.NewPattern(expr, g.Macros, g.Vars) }); e != nil {
		c.Fail("compiling a pattern panics", map[string]any{"pattern": expr, "macros": g.Macros, "vars": g.Vars, "panic": e})
		return nil, nil
	}
	m, merr := model.NewPattern(expr, g.Macros, g.Vars)
	if merr != nil {
		c.Count("out_of_model", 1)
		return nil, nil
	}
	if err != nil {
		c.Fail("a well-formed pattern is rejected", map[string]any{"pattern": expr, "macros": g.Macros, "vars": g.Vars, "error": err})
		return nil, nil
	}
	return p, m
}

func spans(ms [][]int) string {
	var b strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&b, "[%d %d]", m[0], m[1])
	}
	return b.String()
}

// find runs Find of the code.
func find(c *Ctx, p *hre.Pattern, expr, word string, n int) ([][]int, bool) {
	var ms [][]int
	var e error
	c.Guard(fmt.Sprintf("%q on %q", expr, truncate(word, 500)), func() { e = Try(func() { ms = p.Find(word, n) }) })
	if e != nil {
		c.Fail("Find panics", map[string]any{"pattern": expr, "word": word, "panic": e})
		return nil, false
	}
	return ms, true
}

// modelFind runs the model. false if the pattern matches nothing somewhere.
func modelFind(m *model.Pattern, word string, n int) (ms [][]int, ok bool) {
	ok = Try(func() { ms = m.Find(word, n) }) == nil
	return
}

// ---------------------------------------------------------------------------
// C08

func checkFind(c *Ctx) {
	c.Rule = "a case is a (pattern, word, n) triple with at least one match; random patterns with macros, vars, edges and assertions in seven alphabets, and a grid of all edge/assertion/core shapes against every word of up to 6 units. Observed: spans returned by Find against a backtracking reference matcher, at most n matches, ascending and disjoint spans"
	test := func(p *hre.Pattern, m *model.Pattern, expr string, g *Grammar, w string, n int) {
		want, ok := modelFind(m, w, n)
		if !ok {
			c.Count("zero_width", 1)
			return
		}
		got, ok := find(c, p, expr, w, n)
		if !ok {
			return
		}
		key := ""
		if len(want) > 0 {
			key = fmt.Sprint(expr, "\x00", w, n, g.Vars, g.Macros)
		}
		c.Case(key)
		c.Count("matches", len(want))
		if spans(got) == spans(want) {
			return
		}
		// A Find that looks at the whole word instead of the rest of it
		// behaves as documented, too.
		if full, ok := m.FindFull(w, n); ok && spans(got) == spans(full) {
			c.Count("whole_word_semantics", 1)
			return
		}
		c.Fail("Find does not return the documented matches", map[string]any{"pattern": expr, "macros": g.Macros, "vars": g.Vars, "word": w, "n": n, "spans": spans(got), "want": spans(want), "explain": p.Explain()})
	}
	Parallel(c.N(30000, 400000), func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("find", i))
		g := randGrammar(r, alphabets[i%len(alphabets)])
		expr := g.Pattern(r).String()
		p, m := bothPatterns(c, expr, g)
		if p == nil {
			return
		}
		var asts []*syntax.Regexp
		if m.Re != nil {
			asts = append(asts, m.Re.AST)
		}
		for k := 0; k < 20; k++ {
			w := g.text(r, asts, true)
			if k == 0 {
				w = ""
			}
			if k == 1 && i%50 == 0 {
				w = g.longText(r, asts, true, c.N(3000, 8000))
				c.Max("longest_word", len(w))
			}
			n := -1
			if r.Intn(3) == 0 {
				n = r.Intn(4)
			}
			test(p, m, expr, g, w, n)
			if i < 3 && k == 5 {
				c.Sample(map[string]any{"pattern": expr, "macros": g.Macros, "vars": g.Vars, "word": w, "n": n})
			}
		}
	})
	// The grid.
	type set struct{ a, b string }
	for _, s := range []set{{"a", "b"}, {"é", "日"}} {
		sides := func(edge string) []string {
			return []string{"", edge, edge + edge, "{" + s.a + "}", "{~" + s.a + "}", "{~" + s.a + s.b + "|" + s.b + "}", "{<v>}"}
		}
		g := &Grammar{Letters: []string{s.a, s.b}, Vars: map[string][]string{"v": {s.a + s.b, s.b}}, Macros: map[string]string{"@": s.b + "+"}}
		var words []string
		units := []string{s.a, s.b, " ", "{}"}
		var rec func(w string, n int)
		rec = func(w string, n int) {
			words = append(words, w)
			if n < c.N(5, 6) {
				for _, u := range units {
					rec(w+u, n+1)
				}
			}
		}
		rec("", 0)
		var exprs []string
		for _, l := range sides("^") {
			for _, core := range []string{s.a, s.a + s.b, s.a + "+", "[" + s.a + s.b + "]", "(?:" + s.a + "|" + s.b + ")" + s.b + "?", "<v>", "@"} {
				for _, rr := range sides("$") {
					exprs = append(exprs, l+core+rr)
				}
			}
		}
		c.Count("grid_patterns", len(exprs))
		Parallel(len(exprs), func(i int) {
			p, m := bothPatterns(c, exprs[i], g)
			if p == nil {
				return
			}
			for _, w := range words {
				if c.Failed() {
					return
				}
				test(p, m, exprs[i], g, w, -1)
			}
			test(p, m, exprs[i], g, words[len(words)-1], 1)
		})
	}
	// Known: matches are searched in the rest of the word.
	for _, k := range []struct{ key, expr, word, want, known string }{
		{"edge-at-cursor", "^cat", "catcat", "[0 3]", "[0 3][3 6]"},
		{"lookbehind-at-cursor", "{b}b", "bbb", "[1 2][2 3]", "[1 2]"},
	} {
		p, err := hre.NewPattern(k.expr, nil, nil)
		if err != nil {
			c.Fail("a plain pattern is rejected", map[string]any{"pattern": k.expr, "error": err})
			continue
		}
		ms, ok := find(c, p, k.expr, k.word, -1)
		d := map[string]any{"pattern": k.expr, "word": k.word, "spans": spans(ms), "want": k.want}
		switch {
		case !ok || spans(ms) == k.want:
		case spans(ms) == k.known:
			c.Known(k.key, fmt.Sprintf("%q finds %s in %q, documented: %s", k.expr, spans(ms), k.word, k.want), d)
		default:
			c.Fail("Find does not return the documented matches", d)
		}
		c.Case(k.key)
	}
}

// ---------------------------------------------------------------------------
// C09

func checkNegative(c *Ctx) {
	c.Rule = "a case is a (pattern with {~x} on one or both sides, word) pair where {~x} excludes at least one match or stands beside one; alphabets of seven scripts, alternatives of different lengths, ends of the word. Observed: matches with {~x} = matches of the pattern without it, minus those next to text that the reference matcher matches with x"
	test := func(core, edgeL, lookL, negB, lookR, negA, edgeR string, g *Grammar, texts []string) {
		mk := func(neg bool) string {
			s := edgeL + lookL
			if neg && negB != "" {
				s += "{~" + negB + "}"
			}
			s += core
			if neg && negA != "" {
				s += "{~" + negA + "}"
			}
			return s + lookR + edgeR
		}
		expr, plain := mk(true), mk(false)
		p, m := bothPatterns(c, expr, g)
		q, qm := bothPatterns(c, plain, g)
		if p == nil || q == nil {
			return
		}
		x := func(src, prefix, suffix string) *model.Regex {
			if src == "" {
				return nil
			}
			// A bare pattern gives the expression of x.
			xp, err := model.NewPattern("("+src+")", g.Macros, g.Vars)
			if err != nil {
				return nil
			}
			re, err := model.CompileRegex(prefix + "(?:" + xp.Core + ")" + suffix)
			if err != nil {
				return nil
			}
			return re
		}
		xa, xb := x(negA, "", ""), x(negB, "", "$")
		if negA != "" && xa == nil || negB != "" && xb == nil {
			return
		}
		for _, w := range texts {
			if _, ok := modelFind(qm, w, -1); !ok {
				continue
			}
			if _, ok := modelFind(m, w, -1); !ok {
				continue
			}
			base, ok := find(c, q, plain, w, -1)
			if !ok {
				return
			}
			got, ok := find(c, p, expr, w, -1)
			if !ok {
				return
			}
			var want [][]int
			excluded := 0
			for _, s := range base {
				if xa != nil && xa.MatchAt(w[s[1]:], 0) != nil || xb != nil && xb.Match(w[:s[0]], 0) != nil {
					excluded++
					continue
				}
				want = append(want, s)
			}
			key := ""
			if len(base) > 0 {
				key = fmt.Sprint(expr, "\x00", w, g.Vars, g.Macros)
			}
			c.Case(key)
			c.Count("excluded", excluded)
			c.Count("kept", len(want))
			if spans(got) != spans(want) {
				c.Fail("a negative lookaround excludes the wrong matches", map[string]any{"pattern": expr, "without": plain, "macros": g.Macros, "vars": g.Vars, "word": w, "spans": spans(got), "without_spans": spans(base), "want": spans(want), "explain": p.Explain()})
				return
			}
		}
	}
	Parallel(c.N(30000, 400000), func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("neg", i))
		g := randGrammar(r, alphabets[i%len(alphabets)])
		core, _ := g.core(r)
		var edgeL, lookL, negB, lookR, negA, edgeR string
		neg := func() string {
			s := g.alt(r, false)
			for r.Intn(3) == 0 {
				s = "(" + s + ")" + pick(r, g.Letters) + pick(r, []string{"", "?"})
			}
			if r.Intn(8) == 0 {
				// Of no width limit. A spec may not have these, but a pattern may.
				s = pick(r, []string{"(" + s + ")+", pick(r, g.Letters) + ".*(" + s + ")", pick(r, g.Letters) + pick(r, g.Letters) + "*(" + s + ")"})
			}
			return s
		}
		other := func(edge string) (string, string) {
			switch r.Intn(5) {
			case 0:
				return edge, ""
			case 1:
				return edge + edge, ""
			case 2:
				return "", "{" + g.alt(r, false) + "}"
			}
			return "", ""
		}
		switch r.Intn(3) {
		case 0:
			negA = neg()
			edgeL, lookL = other("^")
		case 1:
			negB = neg()
			edgeR, lookR = other("$")
		default:
			negA, negB = neg(), neg()
		}
		_, m := bothPatterns(c, edgeL+lookL+core+lookR+edgeR, g)
		if m == nil {
			return
		}
		var asts []*syntax.Regexp
		if m.Re != nil {
			asts = append(asts, m.Re.AST)
		}
		for _, n := range []string{negA, negB} {
			if n != "" {
				if _, xm := bothPatterns(c, "("+n+")", g); xm != nil && xm.Re != nil {
					asts = append(asts, xm.Re.AST)
				}
			}
		}
		var texts []string
		for k := 0; k < 12; k++ {
			texts = append(texts, g.text(r, asts, true))
			// Right beside each other.
			var b strings.Builder
			for m := 2 + r.Intn(4); m > 0 && len(asts) > 0; m-- {
				sampleRegexp(r, asts[r.Intn(len(asts))], &b, 0)
			}
			texts = append(texts, b.String())
		}
		if i%100 == 0 {
			w := g.longText(r, asts, true, c.N(1500, 4000))
			c.Max("longest_word", len(w))
			texts = append(texts, w)
		}
		if i < 4 {
			c.Sample(map[string]any{"negative_behind": negB, "core": core, "negative_ahead": negA, "vars": g.Vars, "words": texts[:4]})
		}
		test(core, edgeL, lookL, negB, lookR, negA, edgeR, g, texts)
	})
	// A grid with all short words.
	for _, s := range [][2]string{{"a", "b"}, {"é", "日"}, {"б", "ж"}} {
		g := &Grammar{Letters: s[:], Vars: map[string][]string{"v": {s[0] + s[1], s[0]}}, Macros: map[string]string{"@": s[0] + s[0] + "|" + s[1]}}
		xs := []string{"", s[0], s[1] + s[0], s[0] + "|" + s[1] + s[1] + s[0], "<v>" + s[1], "@", "[" + s[0] + s[1] + "]" + s[1], s[0] + s[1] + "?" + s[0], "(" + s[0] + "|" + s[1] + ")" + s[0]}
		var texts []string
		var rec func(w string, n int)
		rec = func(w string, n int) {
			texts = append(texts, w)
			if n < c.N(5, 6) {
				for _, u := range []string{s[0], s[1], "c"} {
					rec(w+u, n+1)
				}
			}
		}
		rec("", 0)
		Parallel(len(xs)*len(xs), func(i int) {
			negB, negA := xs[i/len(xs)], xs[i%len(xs)]
			for _, core := range []string{"c", s[0], "c" + s[0] + "?"} {
				test(core, "", "", negB, "", negA, "", g, texts)
				if negA == "" {
					test(core, "", "", negB, "", "", "$", g, texts)
					test(core, "", "", negB, "{c}", "", "", g, texts)
				}
				if negB == "" {
					test(core, "^", "", "", "", negA, "", g, texts)
					test(core, "", "{c}", "", "", negA, "", g, texts)
				}
			}
		})
	}
}

// ---------------------------------------------------------------------------
// C10

// lookExpr makes an expression for a lookaround.
func lookExpr(r *rand.Rand, letters []string, depth int, unlimited bool) string {
	atom := func() string {
		switch k := r.Intn(8); {
		case k == 0 && depth < 3:
			return "(" + lookExpr(r, letters, depth+1, false) + ")"
		case k == 1 && depth < 3:
			return "(" + lookExpr(r, letters, depth+1, false) + ")?"
		case k == 2:
			return "[" + pick(r, letters) + pick(r, letters) + "]"
		case k == 3:
			return pick(r, letters) + "?"
		case k == 4:
			return "."
		}
		return pick(r, letters)
	}
	n := 1 + r.Intn(3)
	at := -1
	if unlimited {
		at = r.Intn(n)
	}
	s := ""
	for i := 0; i < n; i++ {
		if i != at {
			s += atom()
			continue
		}
		switch r.Intn(5) {
		case 0:
			s += "(" + lookExpr(r, letters, depth+1, false) + ")" + pick(r, []string{"*", "+", "+?"})
		case 1:
			if depth < 3 {
				s += "(" + lookExpr(r, letters, depth+1, true) + ")" + pick(r, []string{"", "?"})
				break
			}
			fallthrough
		case 2:
			s += "[" + pick(r, letters) + pick(r, letters) + "]" + pick(r, []string{"*", "+"})
		case 3:
			s += "(" + pick(r, letters) + "|" + pick(r, letters) + pick(r, letters) + "+)"
		default:
			s += pick(r, letters) + pick(r, []string{"*", "+", "*?"})
		}
	}
	for r.Intn(3) == 0 {
		o := lookExpr(r, letters, depth+1, false)
		if r.Intn(2) == 0 {
			s = s + "|" + o
		} else {
			s = o + "|" + s
		}
	}
	return s
}

// randAST writes a random regular expression.
func randRegexp(r *rand.Rand, depth int, unlimited bool) string {
	if depth > 3 || r.Intn(4) == 0 {
		switch r.Intn(8) {
		case 0:
			return regexp.QuoteMeta(string(randomRune(r)))
		case 1:
			// A literal of several characters of any kind.
			s := ""
			for n := 2 + r.Intn(5); n > 0; n-- {
				s += string(randomRune(r))
			}
			return regexp.QuoteMeta(s)
		case 2:
			return regexp.QuoteMeta(pick(r, widthPool))
		}
		return pick(r, []string{"a", "ab", "é", "日本", "[ab]", "[^a]", ".", "(?s:.)", "\\w", "\\d", "^", "$", "\\b", "\\B", "(?:)", "\\x{1F642}", "(?i:k)", "\\pL", "(?m:^)", "\\A", "\\z"})
	}
	sub := func() string { return "(?:" + randRegexp(r, depth+1, unlimited) + ")" }
	switch r.Intn(9) {
	case 0, 1:
		return sub() + sub()
	case 2:
		return sub() + "|" + sub()
	case 3:
		return "(" + randRegexp(r, depth+1, unlimited) + ")"
	case 4:
		return sub() + "?"
	case 5:
		lo := r.Intn(3)
		return fmt.Sprintf("%s{%d,%d}", sub(), lo, lo+r.Intn(3))
	case 6:
		if depth == 0 && r.Intn(4) == 0 {
			return fmt.Sprintf("%s{%d}", sub(), 1<<r.Intn(8))
		}
		return fmt.Sprintf("%s{%d}", sub(), r.Intn(4))
	case 7:
		if unlimited {
			return sub() + pick(r, []string{"*", "+", "{2,}", "*?", "+?", "{0,}", "{1,}"})
		}
		return sub() + "??"
	}
	return sub() + sub() + sub()
}

func hasUnlimited(re *syntax.Regexp) bool {
	if re.Op == syntax.OpStar || re.Op == syntax.OpPlus || re.Op == syntax.OpRepeat && re.Max == -1 {
		return true
	}
	for _, s := range re.Sub {
		if hasUnlimited(s) {
			return true
		}
	}
	return false
}

func checkWidths(c *Ctx) {
	linearWidths(c)
	c.Rule = "a case is a spec with one rule whose negative lookaround is bounded or unlimited by construction (through alternatives, groups, macros and vars, ahead and behind, in either section), or a (regular expression, text) pair where the reference matcher matches the text in full, or a (pattern with bounded negative lookarounds, repeated text) pair. Observed: the CPU time to match texts of 1500 and 18000 bytes; whether ParseSpec rejects the spec; RegexpMaxWidth against the number of characters of the texts"
	Parallel(c.N(40000, 500000), func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("spec", i))
		script := pick(r, model.Scripts)
		letters := alphabetFor(script)
		unlimited := i%2 == 0
		x := lookExpr(r, letters, 0, unlimited)
		var other string
		g := &GenSpec{Script: script, G: &Grammar{Vars: map[string][]string{"v": {letters[0], letters[1] + letters[2]}}, Macros: map[string]string{}}}
		if !unlimited && r.Intn(3) == 0 {
			x += "<v>" // quoted values are always bounded
			g.G.Vars["v"] = append(g.G.Vars["v"], "a+", "b*")
		}
		if r.Intn(3) == 0 {
			g.G.Macros["@"] = "(" + x + ")"
			x = "@"
		}
		if r.Intn(4) == 0 {
			other = lookExpr(r, letters, 0, false)
		}
		core := letters[0] + pick(r, []string{"", "+", letters[1]})
		expr := ""
		if i%4 < 2 {
			expr = "{~" + x + "}" + core
			if other != "" {
				expr += pick(r, []string{"{~" + other + "}", "{" + other + "}", "$"})
			}
		} else {
			expr = core + "{~" + x + "}"
			if other != "" {
				expr = pick(r, []string{"{~" + other + "}", "{" + other + "}", "^"}) + expr
			}
		}
		rule := [2]string{expr, "ㅏ"}
		plain := [2]string{letters[0], "ㅏ"}
		if r.Intn(2) == 0 {
			g.Rewrite = [][2]string{{letters[0], letters[1]}, rule}
			g.Transcribe = [][2]string{plain}
		} else {
			g.Rewrite = [][2]string{{letters[1], letters[2]}}
			g.Transcribe = [][2]string{plain, plain, rule}
			if r.Intn(2) == 0 {
				g.Transcribe = append(g.Transcribe, plain)
			}
		}
		text := g.Text()
		var err error
		p := Try(func() { _, err = hangulize.ParseSpec(strings.NewReader(text)) })
		c.Case(text)
		if unlimited {
			c.Count("unlimited", 1)
		} else {
			c.Count("bounded", 1)
		}
		if i < 4 {
			c.Sample(map[string]any{"rule": expr, "macros": g.G.Macros, "unlimited": unlimited})
		}
		switch {
		case p != nil:
			c.Fail("parsing panics", map[string]any{"spec": text, "panic": p})
		case unlimited && err == nil:
			c.Fail("an unlimited negative lookaround is accepted", map[string]any{"rule": expr, "spec": text})
		case !unlimited && err != nil:
			c.Fail("a bounded negative lookaround is rejected", map[string]any{"rule": expr, "spec": text, "error": err})
		}
	})
	Parallel(c.N(30000, 500000), func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("width", i))
		expr := randRegexp(r, 0, i%2 == 0)
		ast, err := syntax.Parse(expr, syntax.Perl)
		if err != nil {
			return
		}
		if i%3 == 0 {
			ast = ast.Simplify()
		}
		var width int
		if p := Try(func() { width = hre.RegexpMaxWidth(ast) }); p != nil {
			c.Fail("RegexpMaxWidth panics", map[string]any{"expr": expr, "panic": p})
			return
		}
		if width < -1 {
			c.Fail("the width is negative", map[string]any{"expr": expr, "width": width})
		}
		if width == -1 && !hasUnlimited(ast) {
			c.Fail("a bounded expression has no limit", map[string]any{"expr": expr})
			return
		}
		full, err := model.CompileRegex(`\A(?:` + expr + `)\z`)
		if err != nil {
			return
		}
		for k := 0; k < 10; k++ {
			var b strings.Builder
			sampleDeep(r, ast, &b)
			t := b.String()
			if b.Len() > 3000 || full.MatchAt(t, 0) == nil {
				continue
			}
			c.Case(expr + "\x00" + t)
			c.Count("matched_texts", 1)
			if n := utf8.RuneCountInString(t); width != -1 && n > width {
				c.Fail("the width is smaller than a matched text", map[string]any{"expr": expr, "width": width, "text": t, "characters": n})
				return
			}
		}
		if i == 5 {
			c.Sample(map[string]any{"expr": expr, "width": width})
		}
	})
}

// sampleDeep makes a text the expression is likely to match, as long as it can
// be now and then.
func sampleDeep(r *rand.Rand, re *syntax.Regexp, b *strings.Builder) {
	if b.Len() > 3000 {
		return
	}
	rep := func(min, max int) {
		n := min
		switch {
		case max < 0:
			n += []int{0, 1, 3, 12}[r.Intn(4)]
		case r.Intn(3) > 0:
			n = max
		case max > min:
			n += r.Intn(max - min + 1)
		}
		for i := 0; i < n; i++ {
			sampleDeep(r, re.Sub[0], b)
		}
	}
	switch re.Op {
	case syntax.OpStar:
		rep(0, -1)
	case syntax.OpPlus:
		rep(1, -1)
	case syntax.OpQuest:
		rep(0, 1)
	case syntax.OpRepeat:
		rep(re.Min, re.Max)
	case syntax.OpCapture:
		sampleDeep(r, re.Sub[0], b)
	case syntax.OpConcat:
		for _, s := range re.Sub {
			sampleDeep(r, s, b)
		}
	case syntax.OpAlternate:
		sampleDeep(r, re.Sub[r.Intn(len(re.Sub))], b)
	default:
		sampleRegexp(r, re, b, 0)
	}
}

// ---------------------------------------------------------------------------
// C11

func checkReplace(c *Ctx) {
	c.Rule = "a case is a (pattern, replacement, word, n) quadruple with at least one match; vars of different lengths, repeated values, more or fewer vars on the right than on the left, unknown vars, literals. groups and alternatives of the user around and before the vars; besides, rules made of random pieces of the syntax, which must not fail with a run-time error. Observed: Pattern.Replace, Interpolate and Rule.Replace against the reference replacement of the matched spans"
	outs := []string{"x", "{}", "ㅎ", "", "-", "zz", "é", "1", "$1", "\\"}
	Parallel(c.N(40000, 500000), func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("rep", i))
		g := randGrammar(r, alphabets[i%len(alphabets)])
		if len(g.Vars) == 0 || r.Intn(2) == 0 {
			g.Vars["v"] = []string{g.Letters[0], g.Letters[1], g.Letters[2]}[:1+r.Intn(3)]
			outs := []string{"x", "yy", "ㅎ", "é", ""}
			if r.Intn(2) == 0 {
				// The empty value is at any index.
				r.Shuffle(len(outs), func(i, j int) { outs[i], outs[j] = outs[j], outs[i] })
			}
			g.Vars["w"] = outs[:1+r.Intn(5)]
		}
		pg := *g
		if _, ok := g.Vars["w"]; ok {
			// The right-only var may have an empty value.
			pg.Vars = map[string][]string{}
			for k, v := range g.Vars {
				if k != "w" {
					pg.Vars[k] = v
				}
			}
		}
		pp := pg.Pattern(r)
		expr := pp.String()
		right := g.RPattern(r, pp, outs)
		switch r.Intn(12) {
		case 0:
			right += "<nope>"
		case 1:
			right += "<" + pick(r, sortedKeys(g.Vars)) + ">"
		case 2:
			if len(g.Macros) > 0 {
				right += pick(r, sortedKeys(g.Macros))
			}
		}
		p, m := bothPatterns(c, expr, g)
		if p == nil {
			return
		}
		rp := hre.NewRPattern(right, g.Macros, g.Vars)
		mr := model.NewRPattern(right, g.Macros, g.Vars)
		rule := &model.Rule{From: m, To: mr}
		// Other patterns use the same replacement.
		type other struct {
			expr string
			p    *hre.Pattern
			rule *model.Rule
		}
		rules := []other{{expr, p, rule}}
		if i%2 == 0 {
			exprs := []string{pg.Pattern(r).String()}
			for _, v := range sortedKeys(pg.Vars) {
				exprs = append(exprs, "<"+v+">")
			}
			for _, e := range exprs {
				if p2, m2 := bothPatterns(c, e, g); p2 != nil {
					rules = append(rules, other{e, p2, &model.Rule{From: m2, To: mr}})
				}
			}
		}
		var asts []*syntax.Regexp
		if m.Re != nil {
			asts = append(asts, m.Re.AST)
		}
		for k := 0; k < 15; k++ {
			w := g.text(r, asts, true)
			o := rules[0]
			if k%3 == 2 {
				o = pick(r, rules)
			}
			expr, p, m, rule := o.expr, o.p, o.rule.From, o.rule
			if k == 1 && i%50 == 0 {
				w = g.longText(r, asts, true, c.N(3000, 8000))
				c.Max("longest_word", len(w))
			}
			n := -1
			if r.Intn(4) == 0 {
				n = r.Intn(3)
			}
			want, ok := modelFind(m, w, n)
			if !ok {
				return
			}
			got, ok := find(c, p, expr, w, n)
			if !ok {
				return
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Count("find_differs", 1)
				continue
			}
			key := ""
			if len(want) > 0 {
				key = fmt.Sprint(expr, "\x00", right, "\x00", w, n, g.Vars, g.Macros)
			}
			c.Case(key)
			c.Count("matches", len(want))
			repls := rule.Repls(w)
			wantWord := model.ApplyFirst(w, want, repls)
			var res string
			if e := Try(func() { res = p.Replace(w, rp, n) }); e != nil {
				c.Fail("Replace panics", map[string]any{"pattern": expr, "right": right, "vars": g.Vars, "macros": g.Macros, "word": w, "panic": e})
				return
			}
			if res != wantWord {
				c.Fail("a replacement gives the wrong text", map[string]any{"pattern": expr, "right": right, "vars": g.Vars, "macros": g.Macros, "word": w, "n": n, "spans": spans(got), "result": res, "want": wantWord})
				return
			}
			if len(repls) < len(want) {
				c.Count("impossible_mappings", len(want)-len(repls))
			}
			if n == -1 {
				// Rule.Replace must agree.
				var res2 string
				if e := Try(func() { res2 = hangulize.Rule{ID: 0, From: p, To: rp}.Replace(w) }); e != nil || res2 != wantWord {
					c.Fail("Rule.Replace gives the wrong text", map[string]any{"pattern": expr, "right": right, "vars": g.Vars, "macros": g.Macros, "word": w, "result": res2, "want": wantWord, "panic": fmt.Sprint(e)})
					return
				}
			}
			if i < 4 && k == 3 {
				c.Sample(map[string]any{"pattern": expr, "right": right, "vars": g.Vars, "word": w, "want": wantWord})
			}
		}
	})
	replaceSoup(c)
}

// soup is what odd patterns are made of.
var soup = []string{"a", "b", "c", "é", "[", "]", "[^", "(", ")", "(?:", "{", "}", "{}", "{~", "~", "^", "$", "^^", "$$", "\\", "\\(", "|", "*", "+", "?", ".", "<v>", "<w>", "<e>", "<nope>", "@", "<", ">", "{2}", "{1,3}"}

// replaceSoup replaces by rules with odd patterns. What they mean isn't
// specified, nor whether they are rejected. But a rule which was accepted
// mustn't read outside of its tables and the word.
func replaceSoup(c *Ctx) {
	macros := map[string]string{"@": "<v>"}
	vars := map[string][]string{"v": {"a", "b"}, "w": {"1", "2", "x"}, "e": {""}}
	words := []string{"a", "b", "ca", "cb", "(b", "bc", "db", "dbe", "a b", "{}ab{}", "éaé", "(a", "aaa bbb", "1a2b", "\\", "<v>", "a\xff"}
	Parallel(c.N(20000, 400000), func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("soup", i))
		mix := func(n int) string {
			s := ""
			for ; n > 0; n-- {
				s += pick(r, soup)
			}
			return s
		}
		left, right := mix(1+r.Intn(6)), mix(r.Intn(4))
		word := ""
		err := Try(func() {
			p, err := hre.NewPattern(left, macros, vars)
			if err != nil {
				c.Count("odd_patterns_rejected", 1)
				return
			}
			c.Count("odd_patterns", 1)
			rp := hre.NewRPattern(right, macros, vars)
			for _, word = range words {
				p.Replace(word, rp, -1)
				hangulize.Rule{ID: 0, From: p, To: rp}.Replace(word)
			}
		})
		// The code panics with its own error if a pattern matches nothing.
		if err != nil && strings.Contains(err.Error(), "runtime error") {
			c.Fail("an accepted rule panics", map[string]any{"pattern": left, "right": right, "vars": vars, "macros": macros, "word": word, "panic": err})
		}
	})
}
