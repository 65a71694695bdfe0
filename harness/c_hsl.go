package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hsl"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() {
	checks["C15"] = checkHSLContent
	checks["C16"] = checkHSLMalformed
	checks["C17"] = checkHSLReader
	checks["C18"] = checkHSLLines
}

// written is a document which the writer wrote, along with what it says.
type written struct {
	text    string
	doc     model.Doc
	headers map[string]int // lines of headings, also of empty sections
	twice   map[string]bool
}

// docOpts restricts the writer.
type docOpts struct {
	multiline bool // quoted values may contain line ends
	big       bool
}

var hslSpaces = []string{"", " ", "  ", "\t", " \t", "\u00a0", "\u3000", "\u2003", "\r", "\v", "\f", "\u0085", "\u2028"}

var hslChunks = []string{
	"a", "b", "Z", "é", "ß", "가", "나", "日", "ж", "α", "\U0001F363", "𝄞", "\u0301", "1", "23", "_", ".", "-", "->", "=", ":", ",", "#", "# x",
	" ", "  ", "\t", "\u3000", "'", "{}", "{", "}", "<", ">", "^", "$", "|", "(", "[", "\"", "\u200b", "\ufeff", "\x00", "\ufffd", "\r", "lang:", "\\", "\\.", "ʼ", "«", "、",
}

func hslString(r *rand.Rand, o docOpts) string {
	if r.Intn(20) == 0 {
		return ""
	}
	var b strings.Builder
	n := 1 + r.Intn(5)
	if o.big && r.Intn(40) == 0 {
		n = 3000 + r.Intn(3000)
	}
	for ; n > 0; n-- {
		if r.Intn(12) == 0 {
			ch := randomRune(r)
			for ch == '\n' {
				ch = randomRune(r)
			}
			b.WriteRune(ch)
		} else {
			b.WriteString(pick(r, hslChunks))
		}
		if o.multiline && r.Intn(10) == 0 {
			b.WriteString(pick(r, []string{"\n", "\r\n", "\n\n"}))
		}
	}
	if s := b.String(); strings.HasSuffix(s, "\\") {
		b.WriteString("z") // it would escape the closing quote
	}
	return b.String()
}

var hslWords = []string{"id", "lang", "rewrite", "a", "foo_bar_123", "_x", "é", "한국어", "ключ", "日本", "x1", "ª", "test", "vars", "_", "a٣", "Ⅷa"}

// bare tells whether a string may be written without quotes.
func bare(s string) bool {
	for i, ch := range s {
		letter := ch == '_' || unicode.IsLetter(ch)
		if !letter && (i == 0 || !unicode.IsDigit(ch)) {
			return false
		}
	}
	return s != ""
}

// writeDoc writes a random well-formed document.
func writeDoc(r *rand.Rand, o docOpts) written {
	w := written{doc: model.Doc{}, headers: map[string]int{}, twice: map[string]bool{}}
	var b strings.Builder
	line := 1
	eol := pick(r, []string{"\n", "\n", "\n", "\r\n"})
	put := func(s string) {
		b.WriteString(s)
		line += strings.Count(s, "\n")
	}
	sp := func() {
		if r.Intn(3) == 0 {
			put(pick(r, hslSpaces))
		}
	}
	comment := func() string {
		s := "#" + pick(r, []string{"", " ", " comment", "# \"open", " 한글 a: b = c -> d", "\t\"", " x,", "!", " é\u2028y"})
		return s
	}
	str := func(s string) {
		if bare(s) && r.Intn(2) == 0 {
			put(s)
		} else {
			put(quoteHSL(s))
		}
	}
	filler := func() {
		for r.Intn(3) == 0 {
			put(pick(r, hslSpaces))
			if r.Intn(2) == 0 {
				put(comment())
			}
			put(eol)
		}
	}
	nl := func() {
		if r.Intn(6) == 0 {
			put(pick(r, hslSpaces))
			put(comment())
		} else if r.Intn(6) == 0 {
			put(pick(r, hslSpaces))
		}
		put(eol)
	}
	filler()
	sections := 1 + r.Intn(5)
	used := map[string]bool{}
	keys := map[string]map[string]bool{} // of each section
	for i := 0; i < sections; i++ {
		name := pick(r, hslWords)
		var sec *model.Section
		if len(w.doc) > 0 && r.Intn(5) == 0 {
			// Another part of an earlier section.
			sec = w.doc[pick(r, sortedKeys(w.doc))]
			name = sec.Name
			used[name] = false
		}
		if sec == nil && r.Intn(6) == 0 {
			name = strings.Trim(hslString(r, docOpts{}), "\n")
		}
		if name == "" || used[name] {
			continue
		}
		used[name] = true
		filler()
		sp()
		if sec == nil {
			w.headers[name] = line
			keys[name] = map[string]bool{}
		}
		str(name)
		sp()
		put(":")
		nl()
		n := r.Intn(7)
		if o.big && r.Intn(10) == 0 {
			n = 200 + r.Intn(200)
		}
		if sec == nil {
			sec = &model.Section{Name: name, List: r.Intn(2) == 0, Line: w.headers[name]}
		}
		list, seen := sec.List, keys[name]
		for k := 0; k < n; k++ {
			left := pick(r, hslWords)
			if r.Intn(2) == 0 || n > 10 {
				left = hslString(r, docOpts{big: o.big})
			}
			if !list && seen[left] {
				continue
			}
			seen[left] = true
			filler()
			put(pick(r, []string{"", "  ", "\t", "    ", "\u3000"}))
			p := model.Pair{Left: left, Line: line}
			str(left)
			sp()
			if list {
				put("->")
			} else {
				put("=")
			}
			vals := 1
			if r.Intn(3) == 0 {
				vals = 2 + r.Intn(3)
			}
			for v := 0; v < vals; v++ {
				sp()
				s := hslString(r, o)
				if r.Intn(3) == 0 {
					s = pick(r, hslWords)
				}
				if r.Intn(30) == 0 {
					s = left
				}
				p.Right = append(p.Right, s)
				str(s)
				sp()
				if v+1 < vals || r.Intn(20) == 0 {
					put(",") // the values end with their line anyway
				}
			}
			sec.Pairs = append(sec.Pairs, p)
			nl()
		}
		if len(sec.Pairs) > 0 {
			w.doc[name] = sec
		}
	}
	filler()
	w.text = b.String()
	if r.Intn(3) == 0 {
		// The last line may lack its end, unless that opens a comment which
		// would swallow nothing anyway.
		w.text = strings.TrimRight(w.text, "\r\n")
	}
	return w
}

func pairsOf(s hsl.Section) []model.Pair {
	out := []model.Pair{}
	for _, p := range s.Pairs() {
		out = append(out, model.Pair{Left: p.Left(), Right: append([]string{}, p.Right()...), Line: p.Line()})
	}
	return out
}

// compareDoc tells how a parsed document differs from the written one.
func compareDoc(got hsl.HSL, want model.Doc, headers map[string]int, lines bool) string {
	for name, s := range got {
		if _, ok := want[name]; ok {
			continue
		}
		if _, ok := headers[name]; ok && len(s.Pairs()) == 0 {
			continue // an empty section may appear or not
		}
		return fmt.Sprintf("there is a section %+q which was not written", name)
	}
	for _, name := range sortedKeys(want) {
		ws := want[name]
		gs, ok := got[name]
		if !ok {
			return fmt.Sprintf("section %+q is missing", name)
		}
		gp := pairsOf(gs)
		wp := append([]model.Pair{}, ws.Pairs...)
		switch s := gs.(type) {
		case *hsl.ListSection:
			if !ws.List {
				return fmt.Sprintf("section %+q is a list", name)
			}
		case *hsl.DictSection:
			if ws.List {
				return fmt.Sprintf("section %+q is a dictionary", name)
			}
			m := s.Map()
			if len(m) != len(wp) {
				return fmt.Sprintf("Map of section %+q has %d keys, want %d", name, len(m), len(wp))
			}
			single := true
			for _, p := range wp {
				if !reflect.DeepEqual(append([]string{}, m[p.Left]...), p.Right) {
					return fmt.Sprintf("Map of section %+q has %+q for %+q, want %+q", name, m[p.Left], p.Left, p.Right)
				}
				if a := s.All(p.Left); !reflect.DeepEqual(append([]string{}, a...), p.Right) {
					return fmt.Sprintf("All(%+q) of section %+q is %+q, want %+q", p.Left, name, a, p.Right)
				}
				if o := s.One(p.Left); o != p.Right[0] {
					return fmt.Sprintf("One(%+q) of section %+q is %+q, want %+q", p.Left, name, o, p.Right[0])
				}
				if len(p.Right) != 1 {
					single = false
				}
			}
			inj, err := s.Injective()
			if (err == nil) != single {
				return fmt.Sprintf("Injective of section %+q: %v", name, err)
			}
			if single {
				for _, p := range wp {
					if v, ok := inj[p.Left]; !ok || v != p.Right[0] || len(inj) != len(wp) {
						return fmt.Sprintf("Injective of section %+q is %+q", name, inj)
					}
				}
			}
			sort.Slice(gp, func(i, j int) bool { return gp[i].Left < gp[j].Left })
			sort.Slice(wp, func(i, j int) bool { return wp[i].Left < wp[j].Left })
		default:
			return fmt.Sprintf("section %+q has an unknown kind %T", name, gs)
		}
		if len(gp) != len(wp) {
			return fmt.Sprintf("section %+q has %d pairs, want %d", name, len(gp), len(wp))
		}
		for i := range wp {
			if gp[i].Left != wp[i].Left || !reflect.DeepEqual(gp[i].Right, wp[i].Right) {
				return fmt.Sprintf("pair %d of section %+q is %+q = %+q, want %+q = %+q", i, name, gp[i].Left, gp[i].Right, wp[i].Left, wp[i].Right)
			}
			if lines && gp[i].Line != wp[i].Line {
				return fmt.Sprintf("pair %+q of section %+q is on line %d, want %d", gp[i].Left, name, gp[i].Line, wp[i].Line)
			}
		}
		if lines && gs.Line() != ws.Line {
			return fmt.Sprintf("section %+q is on line %d, want %d", name, gs.Line(), ws.Line)
		}
	}
	return ""
}

// parseHSL parses under the watchdog.
func parseHSL(c *Ctx, rd io.Reader, desc string) (doc hsl.HSL, err error, panicked error) {
	c.Guard("hsl.Parse "+truncate(fmt.Sprintf("%+q", desc), 1500), func() {
		panicked = Try(func() { doc, err = hsl.Parse(rd) })
	})
	return
}

func parseSpec(c *Ctx, rd io.Reader, desc string) (spec *hangulize.Spec, err error, panicked error) {
	c.Guard("ParseSpec "+truncate(fmt.Sprintf("%+q", desc), 1500), func() {
		panicked = Try(func() { spec, err = hangulize.ParseSpec(rd) })
	})
	return
}

func checkWritten(c *Ctx, lines bool) {
	n := c.N(100000, 1500000)
	Parallel(n, func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprintf("doc/%d", i))
		w := writeDoc(r, docOpts{multiline: r.Intn(3) == 0, big: r.Intn(50) == 0})
		key := ""
		if len(w.doc) > 0 {
			key = w.text
		}
		c.Case(key)
		for _, s := range w.doc {
			c.Count("pairs", len(s.Pairs))
			c.Count("sections", 1)
		}
		doc, err, p := parseHSL(c, strings.NewReader(w.text), w.text)
		if p != nil || err != nil {
			c.Fail("a well-formed document is not parsed", map[string]any{"text": w.text, "error": fmt.Sprint(err), "panic": fmt.Sprint(p)})
			return
		}
		if d := compareDoc(doc, w.doc, w.headers, lines); d != "" {
			c.Fail("the parsed document differs from the written one: "+d, map[string]any{"text": w.text})
		}
		c.SampleEvery(i, n/6, func() any { return truncate(fmt.Sprintf("%+q", w.text), 300) })
	})
}

func checkHSLContent(c *Ctx) {
	c.Rule = "a writer writes random well-formed documents (both kinds of sections, bare and quoted strings of any characters, escaped quotes, several values, comments, blank lines, any spaces and line ends) and records what it wrote; the parsed document must say the same. Every bundled spec and generated specs are compared in the same way with an independent reader, also through ParseSpec. A case is non-trivial when the document has a pair."
	checkWritten(c, false)

	// Bundled specs against an independent reader.
	for _, l := range Langs() {
		want, err := model.ParseHSL(l.Source)
		if err != nil {
			c.Count("unreadable_specs", 1)
			continue
		}
		c.Case("bundled/" + l.Name)
		doc, err, p := parseHSL(c, strings.NewReader(l.Source), l.Name)
		if p != nil || err != nil {
			c.Fail("a bundled spec is not parsed", map[string]any{"lang": l.Name, "error": fmt.Sprint(err, p)})
			continue
		}
		if d := compareDoc(doc, want, nil, false); d != "" {
			c.Fail("the parsed spec differs from its text: "+d, map[string]any{"lang": l.Name})
		}
		spec, err, p := parseSpec(c, strings.NewReader(l.Source), l.Name)
		if p != nil || err != nil {
			c.Fail("a bundled spec is not parsed", map[string]any{"lang": l.Name, "error": fmt.Sprint(err, p)})
			continue
		}
		if d := compareSpec(spec, want, l.Source); d != "" {
			c.Fail("the spec differs from its text: "+d, map[string]any{"lang": l.Name})
		}
	}

	// Generated specs in a random layout.
	n := c.N(12000, 200000)
	Parallel(n, func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprintf("spec/%d", i))
		text, want := layoutSpec(r)
		spec, err, p := parseSpec(c, strings.NewReader(text), text)
		if p != nil {
			c.Fail("parsing a spec panics", map[string]any{"text": text, "panic": p})
			return
		}
		if err != nil {
			c.Count("rejected_specs", 1)
			c.Seen("rejections", err.Error())
			return
		}
		c.Case(text)
		if d := compareSpec(spec, want, text); d != "" {
			c.Fail("the spec differs from its text: "+d, map[string]any{"text": text})
		}
	})
}

// layoutSpec writes a spec with every section in a random order and layout.
func layoutSpec(r *rand.Rand) (string, model.Doc) {
	g := randSpec(r, r.Intn(5), r.Intn(5))
	for k := r.Intn(4); k > 0; k-- {
		g.Test = append(g.Test, [2]string{strings.Trim(hslString(r, docOpts{}), "\n"), hslString(r, docOpts{})})
	}
	if r.Intn(2) == 0 {
		g.Translit = append(g.Translit, "b", "a", "b")[:1+r.Intn(3)]
	}
	base, err := model.ParseHSL(g.Text())
	if err != nil {
		panic(err)
	}
	base["lang"].Pairs[0].Right = []string{hslString(r, docOpts{})}
	base["lang"].Pairs[2].Right = []string{hslString(r, docOpts{})}
	base["config"].Pairs[0].Right = []string{hslString(r, docOpts{}), hslString(r, docOpts{}), "x"}[:1+r.Intn(3)]
	names := sortedKeys(base)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var b strings.Builder
	for _, name := range names {
		s := base[name]
		for r.Intn(3) == 0 {
			b.WriteString(pick(r, []string{"\n", "# c\n", "  # \"x\n"}))
		}
		b.WriteString(name + pick(r, []string{":\n", " :\n", ": # c\n"}))
		op := " = "
		if s.List {
			op = " -> "
		} else {
			r.Shuffle(len(s.Pairs), func(i, j int) { s.Pairs[i], s.Pairs[j] = s.Pairs[j], s.Pairs[i] })
		}
		for _, p := range s.Pairs {
			var q []string
			for _, v := range p.Right {
				q = append(q, quoteHSL(v))
			}
			b.WriteString("  " + quoteHSL(p.Left) + op + strings.Join(q, pick(r, []string{", ", ","})) + pick(r, []string{"\n", " # x\n", "\n\n", "\r\n"}))
		}
	}
	return b.String(), base
}

// compareSpec tells how a spec differs from the document.
func compareSpec(s *hangulize.Spec, doc model.Doc, text string) string {
	lang := doc["lang"]
	one := func(sec *model.Section, k string) string {
		if v := sec.Get(k); len(v) > 0 {
			return v[0]
		}
		return ""
	}
	same := func(a, b []string) bool {
		return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
	}
	if s.Source != text {
		return "Source is not the text"
	}
	for _, x := range [][3]string{
		{"Lang.ID", s.Lang.ID, one(lang, "id")},
		{"Lang.English", s.Lang.English, one(lang, "english")},
		{"Lang.Korean", s.Lang.Korean, one(lang, "korean")},
		{"Lang.Script", s.Lang.Script, one(lang, "script")},
		{"Config.Stage", s.Config.Stage, one(doc["config"], "stage")},
	} {
		if x[1] != x[2] {
			return fmt.Sprintf("%s is %+q, want %+q", x[0], x[1], x[2])
		}
	}
	if !same(s.Lang.Codes[:], lang.Get("codes")) {
		return fmt.Sprintf("Lang.Codes is %+q", s.Lang.Codes)
	}
	if !same(s.Lang.Translit, lang.Get("translit")) {
		return fmt.Sprintf("Lang.Translit is %+q, want %+q", s.Lang.Translit, lang.Get("translit"))
	}
	if !same(s.Config.Authors, doc["config"].Get("author")) {
		return fmt.Sprintf("Config.Authors is %+q, want %+q", s.Config.Authors, doc["config"].Get("author"))
	}
	macros := map[string][]string{}
	for k, v := range s.Macros {
		macros[k] = []string{v}
	}
	for _, x := range []struct {
		name string
		got  map[string][]string
	}{{"macros", macros}, {"vars", s.Vars}, {"normalize", s.Normalize}} {
		want := doc[x.name].Table()
		if len(want) != len(x.got) {
			return fmt.Sprintf("%s has %d keys, want %d", x.name, len(x.got), len(want))
		}
		for k, v := range want {
			if !same(x.got[k], v) {
				return fmt.Sprintf("%s has %+q for %+q, want %+q", x.name, x.got[k], k, v)
			}
		}
	}
	rules := func(name string, got []hangulize.Rule) string {
		var want []model.Pair
		if doc[name] != nil {
			want = doc[name].Pairs
		}
		if len(got) != len(want) {
			return fmt.Sprintf("there are %d %s rules, want %d", len(got), name, len(want))
		}
		for i, p := range want {
			if got[i].ID != i || got[i].From.String() != p.Left || got[i].To.String() != p.Right[0] {
				return fmt.Sprintf("%s rule %d is %d: %+q -> %+q, want %+q -> %+q", name, i, got[i].ID, got[i].From.String(), got[i].To.String(), p.Left, p.Right[0])
			}
		}
		return ""
	}
	if d := rules("rewrite", s.Rewrite); d != "" {
		return d
	}
	if d := rules("transcribe", s.Transcribe); d != "" {
		return d
	}
	var want []model.Pair
	if doc["test"] != nil {
		want = doc["test"].Pairs
	}
	if len(s.Test) != len(want) {
		return fmt.Sprintf("there are %d examples, want %d", len(s.Test), len(want))
	}
	for i, p := range want {
		if s.Test[i] != [2]string{p.Left, p.Right[0]} {
			return fmt.Sprintf("example %d is %+q, want %+q", i, s.Test[i], p)
		}
	}
	return ""
}

func checkHSLLines(c *Ctx) {
	c.Rule = "the writer of C15 records the line of each heading and pair; the parsed sections and pairs must report it. Bundled specs are compared with the lines which an independent reader finds. A case is non-trivial when the document has a pair."
	checkWritten(c, true)
	for _, l := range Langs() {
		want, err := model.ParseHSL(l.Source)
		if err != nil {
			continue
		}
		c.Case("bundled/" + l.Name)
		variants := []string{l.Source, strings.ReplaceAll(l.Source, "\n", "\r\n"), strings.ReplaceAll(l.Source, "\n", " # x\n")}
		if l.Name == "ita" || l.Name == "fin" {
			// Very many lines.
			variants = append(variants, strings.Repeat("# x\n\n", 40000)+l.Source, l.Source+strings.Repeat("\n\t\"many\" -> \"lines\"", 140000)+"\n")
		}
		for n, variant := range variants {
			doc, err, p := parseHSL(c, strings.NewReader(variant), l.Name)
			if p != nil || err != nil {
				c.Fail("a bundled spec is not parsed", map[string]any{"lang": l.Name, "error": fmt.Sprint(err, p)})
				continue
			}
			want := want
			if n > 2 {
				if want, err = model.ParseHSL(variant); err != nil {
					continue
				}
				c.Max("lines", strings.Count(variant, "\n"))
			}
			if d := compareDoc(doc, want, nil, true); d != "" {
				c.Fail("wrong line: "+d, map[string]any{"lang": l.Name, "variant": n})
			}
		}
	}
}

const specHead = "lang:\n  id = \"x\"\n  codes = \"xx\", \"xxx\"\n  script = \"Latn\"\n"

// mutate changes a text at random.
func mutate(r *rand.Rand, s string, others []string) string {
	toks := []string{"\"", "->", "=", ":", ",", "#", "\n", "\\", "\\\"", "{", "}", "{~", "{}", "(", ")", "[", "]", "*", "+", "?", "|", "^", "$", "^^", "$$", "<", ">", "<a>", "x{2,}", "\x00", "\xff", "\xe3\x81", "\u2028", "\ufeff", "lang:\n", "rewrite:\n", "vars:\n", "macros:\n", "{1000}", "(?i)", "(?P<a>", "\\Q", "\\p{L}", "(((((((((", "[[:", "[^", "-", "<>", "{a*}", "{~a*}", "{~(a|b{3})+}"}
	b := []byte(s)
	for n := 1 + r.Intn(4); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		j := i
		if len(b) > 0 {
			j = i + r.Intn(min(len(b)-i, 40))
		}
		var repl []byte
		switch r.Intn(9) {
		case 0: // delete
		case 1:
			repl = append([]byte(pick(r, toks)), b[i:j]...)
		case 2:
			repl = []byte(pick(r, toks))
		case 3:
			repl = append(append([]byte{}, b[i:j]...), b[i:j]...)
		case 4:
			repl = []byte(randomBytes(r, 1+r.Intn(4)))
		case 5:
			b = b[:i]
			j = i
		case 6:
			o := pick(r, others)
			if o != "" {
				k := r.Intn(len(o))
				repl = []byte(o[k : k+r.Intn(min(len(o)-k, 60))])
			}
		case 7:
			for k := 0; k < 3; k++ {
				repl = append(repl, pick(r, toks)...)
			}
		default:
			if i < len(b) {
				b[i] ^= 1 << r.Intn(8)
			}
			j = i
		}
		nb := append([]byte{}, b[:i]...)
		nb = append(nb, repl...)
		b = append(nb, b[j:]...)
	}
	return string(b)
}

func checkHSLMalformed(c *Ctx) {
	c.Rule = "any bytes (mutated, truncated and spliced bundled specs, token soup, random bytes) must parse to a document or an error, without a panic and within the limits of a watchdog on CPU time and memory; and documents with one known defect placed in a random well-formed context must give an error, whereas the same document without the defect gives none. Every text is a non-trivial case."
	c.Assume("the defect classes are those which the statement lists")
	var sources []string
	for _, l := range Langs() {
		sources = append(sources, l.Source)
	}

	robust := func(text string) {
		c.Case("any/" + text)
		doc, err, p := parseHSL(c, strings.NewReader(text), text)
		if p != nil {
			c.Fail("hsl.Parse panics", map[string]any{"text": text, "panic": p})
			return
		}
		if (doc == nil) == (err == nil) {
			c.Fail("hsl.Parse returns neither or both of a document and an error", map[string]any{"text": text, "error": fmt.Sprint(err), "doc": doc != nil})
		}
		if err != nil {
			c.Count("hsl_errors", 1)
		} else {
			c.Count("hsl_documents", 1)
		}
		spec, serr, p := parseSpec(c, strings.NewReader(text), text)
		if p != nil {
			c.Fail("ParseSpec panics", map[string]any{"text": text, "panic": p})
			return
		}
		if (spec == nil) == (serr == nil) {
			c.Fail("ParseSpec returns neither or both of a spec and an error", map[string]any{"text": text, "error": fmt.Sprint(serr)})
		}
		if err != nil && serr == nil {
			c.Fail("ParseSpec accepts what hsl.Parse rejects", map[string]any{"text": text, "error": err})
		}
		if serr != nil {
			c.Count("spec_errors", 1)
			if m := serr.Error(); err == nil {
				if len(m) > 18 {
					m = m[:18]
				}
				c.Seen("spec_error_kinds", m)
			}
		} else {
			c.Count("specs", 1)
		}
	}

	n := c.N(80000, 1500000)
	Parallel(n, func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprintf("any/%d", i))
		var text string
		switch i % 6 {
		case 0: // a part of a bundled spec, or all of a short one
			s := pick(r, sources)
			if i%60 == 0 {
				text = mutate(r, s, sources)
				break
			}
			k := r.Intn(len(s))
			text = mutate(r, s[k:k+r.Intn(min(len(s)-k, 3000))], sources)
		case 1:
			text = randomBytes(r, r.Intn(200))
		case 2: // token soup
			for k := r.Intn(60); k > 0; k-- {
				text += pick(r, hslChunks)
				if r.Intn(5) == 0 {
					text += pick(r, []string{"\n", "a = b\n", "a -> \"b\"\n", "x:\n", "\"", "\\"})
				}
			}
		case 3: // a small spec with a mutated body
			g := randSpec(r, r.Intn(4), r.Intn(4))
			text = mutate(r, g.Text(), sources)
		case 4:
			w := writeDoc(r, docOpts{multiline: true})
			text = mutate(r, w.text, sources)
		default: // a rule of random tokens in a proper spec
			text = specHead + "vars:\n a = \"x\", \"(\"\nmacros:\n \"@\" = \"<a>\"\nrewrite:\n  " +
				quoteHSL(mutate(r, "a{b}<a>@", []string{"{~a|<a>}b", "^^a$$", "(a*)+"})) + " -> " + quoteHSL(mutate(r, "<a>@x", []string{"<b>"})) + "\n"
		}
		robust(text)
		c.SampleEvery(i, n/5, func() any { return truncate(fmt.Sprintf("%+q", text), 200) })
	})

	// All truncations of a few specs, and long ones.
	for i, s := range sources {
		if len(s) > c.N(3000, 20000) {
			continue
		}
		if i%c.N(6, 1) != 0 {
			continue
		}
		Parallel(len(s), func(k int) {
			if !c.Failed() {
				robust(s[:k])
			}
		})
	}
	// Known extremes.
	big := c.N(20000, 400000)
	for _, text := range []string{
		"", "\n", "#", "\"", "\\", "-", ":", "=", ",", "->", "a:", "a:\nb =", "a:\nb ->", "a:\nb = \"", "a:\nb = ,", "a:\n=", "a:\n->", ":\na=b", "a:\na",
		strings.Repeat("#\n", big), strings.Repeat("\n", big), strings.Repeat("#", big), strings.Repeat("\"", big), strings.Repeat("a:", big), strings.Repeat("a:\nb=c\n", 2) + strings.Repeat("d = ,", big),
		strings.Repeat(" ", big), strings.Repeat("a", big), "a:\nb = " + strings.Repeat("\"x\",", big), "a:\n" + strings.Repeat("\"x\" -> \"y\"\n", big),
		strings.Repeat("\\", big), "\"" + strings.Repeat("\\\"", big), "\ufeff" + specHead,
		"test:\n  \"a\" ->\n", "rewrite:\n  \"a\" ->\n", "transcribe:\n \"a\" -> \n", "test = x\n", "lang:\n codes = \n",
		specHead + "rewrite:\n \"" + strings.Repeat("(", 1500) + "\" -> \"\"\n",
		specHead + "rewrite:\n \"" + strings.Repeat("{~", 500) + "\" -> \"\"\n",
		specHead + "rewrite:\n \"{~" + strings.Repeat("(?:a?b?|", 200) + strings.Repeat(")", 200) + "}x\" -> \"\"\n",
		specHead + "vars:\n a = \"x\"\nrewrite:\n \"" + strings.Repeat("<a>", 300) + "\" -> \"" + strings.Repeat("<a>", 300) + "\"\n",
		specHead + "macros:\n \"@\" = \"@@\"\nrewrite:\n \"" + strings.Repeat("@", 300) + "\" -> \"\"\n",
		specHead + "macros:\n \"\" = \"x\"\nrewrite:\n \"a\" -> \"b\"\n",
		specHead + "vars:\n \"\" = \"x\"\nrewrite:\n \"<>\" -> \"<>\"\n",
		specHead + "vars:\n a = \nrewrite:\n \"<a>\" -> \"<a>\"\n",
		specHead + "normalize:\n \"\" = \"x\"\n x = \"\"\n", specHead + "normalize:\n y = \n",
	} {
		robust(text)
	}

	// Known defects.
	defects := []struct {
		name string
		hsl  bool // hsl.Parse itself has to report it
		make func(r *rand.Rand) (good, bad string)
	}{
		{"an unterminated string", true, func(r *rand.Rand) (string, string) {
			w := writeDoc(r, docOpts{})
			s := hslString(r, docOpts{})
			pre := strings.TrimRight(w.text, "\r\n") + "\nzz:\n"
			tail := pick(r, []string{"", "\n", "\nfoo = bar\n", " # c\n"})
			q := quoteHSL(s)
			op := pick(r, []string{" = ", " -> ", "->"})
			open := q[:len(q)-1]
			if r.Intn(3) == 0 { // the text ends within an escape
				open += "\\"
				tail = ""
			}
			if r.Intn(4) == 0 { // the key is open
				return pre + q + op + "v\n", pre + open
			}
			return pre + "k" + op + q + "\n", pre + "k" + op + open + tail
		}},
		{"an illegal character", true, func(r *rand.Rand) (string, string) {
			w := writeDoc(r, docOpts{})
			pre := strings.TrimRight(w.text, "\r\n") + "\nzz:\n"
			ch := pick(r, []string{"@", "(", ";", "1", "!", "'", "-", "- >", ">", "<", "$", ".", "\x00", "\u200b", "\ufeff", "☃", "+", "\\", "·", "、", "-x", "７", "\xff"})
			good, bad := "", ""
			switch r.Intn(5) {
			case 0:
				good, bad = "k = v\n", ch+"\nk = v\n"
			case 1:
				good, bad = "k = v\n", "k = "+ch+"\n"
			case 2:
				good, bad = "k = v\n", "k = v, "+ch+"\n"
			case 3:
				good, bad = "k -> v\n", ch+" -> v\n"
			default:
				good, bad = "k = v\n", "k = v\nl = w\n"+ch
			}
			return pre + good, pre + bad
		}},
		{"a pair outside a section", true, func(r *rand.Rand) (string, string) {
			w := writeDoc(r, docOpts{})
			k := quoteHSL(hslString(r, docOpts{}))
			op := pick(r, []string{" = ", " -> ", "="})
			fill := pick(r, []string{"", "\n", "# x\n", "# a:\n"})
			return fill + "zz:\n" + k + op + "v\n" + w.text, fill + k + op + "v\n" + w.text
		}},
		{"a duplicated dictionary key", true, func(r *rand.Rand) (string, string) {
			k := hslString(r, docOpts{})
			write := func(s string) string {
				if bare(s) && r.Intn(2) == 0 {
					return s
				}
				return quoteHSL(s)
			}
			pre, mid := "zz:\n", ""
			for i := r.Intn(4); i > 0; i-- {
				pre += fmt.Sprintf("p%d = x\n", i)
				mid += fmt.Sprintf("m%d = \"y\", z # c\n", i)
			}
			v := pick(r, []string{"a", "\"\"", "a, b", ""})
			k2 := write(k)
			v1 := pick(r, []string{"a", "a", "\"\"", "", "a, b", v})
			again := pick(r, []string{"", "", "zz:\n", "yy:\nx = y\nzz:\n", "yy:\nx -> y\nzz:\n", "# c\n\"zz\" :\n"})
			good := pre + write(k) + " = " + v1 + "\n" + mid + again + write(k+"2") + " = " + v + "\n"
			bad := pre + write(k) + " = " + v1 + "\n" + mid + again + k2 + " = " + v + "\n"
			w := writeDoc(r, docOpts{})
			return strings.TrimRight(w.text, "\r\n") + "\n" + good, strings.TrimRight(w.text, "\r\n") + "\n" + bad
		}},
		{"a section of the wrong kind", false, func(r *rand.Rand) (string, string) {
			name := pick(r, []string{"lang", "config", "macros", "vars", "normalize", "rewrite", "transcribe", "test"})
			list := name == "rewrite" || name == "transcribe" || name == "test"
			good, bad := " = ", " -> "
			if list {
				good, bad = bad, good
			}
			pre := specHead
			if name == "lang" {
				pre = ""
			}
			body := func(op string) string {
				if name == "lang" {
					return "lang:\n codes" + op + "a, b\n script" + op + "Latn\n"
				}
				return name + ":\n k" + op + "v\n"
			}
			return pre + body(good), pre + body(bad)
		}},
		{"a rule with a bad pattern", false, func(r *rand.Rand) (string, string) {
			sec := pick(r, []string{"rewrite", "transcribe"})
			badp := pick(r, []string{"(", "a(b", "[a", "a)", "a**b(", "(?P<x", "[z-a]", "\\p{Nope}", "(?z)", "{(}a", "a{[}", "{~(}a", "a{~[}", "a{~b)}", "{~(?z)}a", "{~a**}b", "(?:a", "^(^", "{~a*}b", "{~b+}a", "a{~b*}", "{~(a|bc+)}x", "a{~(?:b|c)*}", "[[:nope:]]"})
			pre := specHead + sec + ":\n"
			mid := ""
			for i := r.Intn(4); i > 0; i-- {
				mid += "  \"a\" -> \"b\"\n"
			}
			return pre + mid + "  \"a\" -> \"x\"\n" + mid, pre + mid + "  " + quoteHSL(badp) + " -> \"x\"\n" + mid
		}},
		{"wrong language codes", false, func(r *rand.Rand) (string, string) {
			body := pick(r, []string{"", "rewrite:\n \"a\" -> \"b\"\n"})
			codes := pick(r, []string{"", "  codes = \"xx\"\n", "  codes = \"a\", \"b\", \"c\"\n", "  codes = \n", "  code = \"a\", \"b\"\n"})
			f := func(codes string) string {
				return "lang:\n  id = \"x\"\n" + codes + "  script = \"Latn\"\n" + body
			}
			return f("  codes = \"a\", \"b\"\n"), f(codes)
		}},
		{"an unknown script", false, func(r *rand.Rand) (string, string) {
			s := pick(r, []string{"latn", "LATN", "Latn ", "Roman", "Hang", "Hebr", "Latin", "Cyrl,", "x", "Lat", "LatnX", "Hira"})
			f := func(s string) string {
				return "lang:\n  codes = \"xx\", \"xxx\"\n  script = " + quoteHSL(s) + "\n"
			}
			return f(pick(r, model.Scripts)), f(s)
		}},
		{"a macro with several values", false, func(r *rand.Rand) (string, string) {
			pre, post := specHead, ""
			for i := r.Intn(3); i > 0; i-- {
				post += fmt.Sprintf(" q%d = z\n", i)
			}
			if r.Intn(2) == 0 {
				post += "rewrite:\n \"k\" -> \"b\"\n"
			}
			return pre + "macros:\n a = b\n" + post, pre + "macros:\n a = " + pick(r, []string{"b, c", "b, b", "b, \"\"", "\"\", b", "x, y, z"}) + "\n" + post
		}},
		{"a rule without right", false, func(r *rand.Rand) (string, string) {
			sec := pick(r, []string{"rewrite", "transcribe", "test"})
			return specHead + sec + ":\n a -> b\n", specHead + sec + ":\n a -> b\n c ->\n"
		}},
	}
	for _, d := range defects {
		m := c.N(600, 10000)
		Parallel(m, func(i int) {
			if c.Failed() {
				return
			}
			r := c.Rng(fmt.Sprintf("defect/%s/%d", d.name, i))
			good, bad := d.make(r)
			c.Case("defect/" + bad)
			c.Count("defect: "+d.name, 1)
			try := func(text string) (error, bool) {
				var err, p error
				if d.hsl {
					_, err, p = parseHSL(c, strings.NewReader(text), text)
				} else {
					_, err, p = parseSpec(c, strings.NewReader(text), text)
				}
				if p != nil {
					c.Fail("a malformed document makes it panic", map[string]any{"defect": d.name, "text": text, "panic": p})
					return nil, false
				}
				return err, true
			}
			if err, ok := try(good); ok && err != nil {
				c.Fail("a proper document is rejected", map[string]any{"text": good, "error": err})
			}
			if err, ok := try(bad); ok && err == nil {
				c.Fail(d.name+" is not reported", map[string]any{"text": bad})
			}
			if d.hsl {
				// So is a spec.
				if _, err, p := parseSpec(c, strings.NewReader(bad), bad); p == nil && err == nil {
					c.Fail(d.name+" is not reported by ParseSpec", map[string]any{"text": bad})
				}
			}
		})
	}
}

var errFault = errors.New("injected fault")

// faultReader fails once n bytes have been read. It is legal for a reader to
// return data along with the error.
type faultReader struct {
	s     string
	n     int
	chunk func(left int) int
	with  bool // the error comes along with the last bytes
	err   error
	after int // reads after the fault
	done  bool
	resum bool // reading goes on after the fault
	gone  bool // or rather, it ends
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.done {
		f.after++
		if !f.resum {
			return 0, f.err
		}
		if f.gone {
			return 0, io.EOF
		}
		k := copy(p, f.s[f.n:])
		f.n += k
		if k == 0 && len(p) > 0 {
			return 0, io.EOF
		}
		return k, nil
	}
	left := f.n
	k := f.chunk(left)
	if k > left {
		k = left
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, f.s[:k])
	f.s = f.s[k:]
	f.n -= k
	if f.n == 0 && (f.with || k == 0) {
		f.done = true
		return k, f.err
	}
	return k, nil
}

// chunker splits reading into chunks.
type chunker struct {
	s    string
	pos  int
	next func() int // 0 gives an empty read
	with bool       // io.EOF comes along with the last bytes
}

func (x *chunker) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if x.pos == len(x.s) {
		return 0, io.EOF
	}
	k := x.next()
	k = min(k, len(p), len(x.s)-x.pos)
	copy(p, x.s[x.pos:x.pos+k])
	x.pos += k
	if x.with && x.pos == len(x.s) {
		return k, io.EOF
	}
	return k, nil
}

// render writes everything observable of a document.
func render(doc hsl.HSL) string {
	var b bytes.Buffer
	for _, name := range sortedKeys(doc) {
		s := doc[name]
		ps := pairsOf(s)
		if _, ok := s.(*hsl.DictSection); ok {
			sort.Slice(ps, func(i, j int) bool { return ps[i].Left < ps[j].Left })
		}
		fmt.Fprintf(&b, "%q %T %d %q\n", name, s, s.Line(), ps)
	}
	return b.String()
}

func checkHSLReader(c *Ctx) {
	c.Rule = "documents are read through readers which fail after every number of bytes (at once or along with data, with plain, wrapped, io.ErrUnexpectedEOF and other errors) and through readers which split the text in every way (single bytes, random chunks, empty reads, io.EOF along with data). A fault has to be reported and wrapped, and otherwise the document and the Source must equal those of a plain read. Every combination of text and reader is a non-trivial case."
	type job struct {
		text string
		spec bool
		name string
	}
	var jobs []job
	for i, l := range Langs() {
		if len(l.Source) < c.N(2500, 1<<30) || i%9 == 0 {
			jobs = append(jobs, job{l.Source, true, l.Name})
		}
	}
	for i := 0; i < c.N(600, 8000); i++ {
		r := c.Rng(fmt.Sprintf("doc/%d", i))
		if i%3 == 0 {
			t, _ := layoutSpec(r)
			jobs = append(jobs, job{t, true, "generated"})
		} else {
			w := writeDoc(r, docOpts{multiline: true})
			jobs = append(jobs, job{w.text, false, "generated"})
		}
	}
	// Documents which would be fine if they ended earlier.
	for i := 0; i < 40; i++ {
		r := c.Rng(fmt.Sprintf("bytes/%d", i))
		w := writeDoc(r, docOpts{})
		jobs = append(jobs, job{w.text + "# 한글\xff\xfe\x80 comment\n\"\xff\xe3\": \n k = \"\xed\xa0\x80\"\n# \xe3", false, "bad encoding"})
	}
	faults := []error{errFault, fmt.Errorf("wrapped: %w", errFault), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, fmt.Errorf("looks like %w", io.EOF)}

	Parallel(len(jobs), func(i int) {
		if c.Failed() {
			return
		}
		j := jobs[i]
		r := c.Rng(fmt.Sprintf("reader/%d", i))
		plain, err, p := parseHSL(c, strings.NewReader(j.text), j.text)
		if p != nil {
			c.Fail("parsing panics", map[string]any{"text": j.text, "panic": p})
			return
		}
		want, wantErr := "", ""
		if err != nil {
			wantErr = err.Error()
		} else {
			want = render(plain)
		}

		// Faults. A document with an error of its own may report that.
		fail := func(at int, e error, with, resume bool) {
			c.Case(fmt.Sprintf("fault/%d/%s/%v/%v/%s", at, e, with, resume, j.text))
			// After a fault which comes once, the text goes on or it ends.
			gone := resume && r.Intn(2) == 0
			mk := func() *faultReader {
				k := 1 + r.Intn(64)
				return &faultReader{s: j.text, n: at, chunk: func(int) int { return k }, with: with, err: e, resum: resume, gone: gone}
			}
			doc, err, p := parseHSL(c, mk(), j.text)
			d := map[string]any{"text": j.text, "fault_at": at, "fault": e, "along_with_data": with, "error": fmt.Sprint(err)}
			if p != nil {
				c.Fail("a reading fault makes it panic: "+p.Error(), d)
				return
			}
			// Only a text which is wrong anyway may give another error.
			var own error
			if wantErr != "" {
				_, own = hsl.Parse(strings.NewReader(j.text[:at]))
			}
			if err == nil {
				c.Fail("a reading fault is not reported", d)
				return
			}
			if doc != nil {
				c.Fail("a reading fault gives a partial document", d)
			}
			if !errors.Is(err, e) {
				if own == nil {
					c.Fail("the error does not wrap the fault", d)
				} else {
					c.Count("own_errors", 1)
				}
			}
			c.Count("faults", 1)
			if at%997 == 0 {
				c.Sample(map[string]any{"text": truncate(j.text, 80), "fault_at": at, "fault": e.Error(), "error": err.Error()})
			}
			if j.spec || own != nil {
				spec, err, p := parseSpec(c, mk(), j.text)
				d["error"] = fmt.Sprint(err)
				switch {
				case p != nil:
					c.Fail("a reading fault makes ParseSpec panic: "+p.Error(), d)
				case err == nil || spec != nil:
					c.Fail("ParseSpec does not report a reading fault", d)
				case own == nil && !errors.Is(err, e):
					c.Fail("the error of ParseSpec does not wrap the fault", d)
				}
			}
		}
		step := 1
		if len(j.text) > c.N(1500, 1<<30) {
			step = 1 + len(j.text)/c.N(700, 1<<20)
		}
		for at := r.Intn(step); at <= len(j.text); at += step {
			if c.Failed() {
				return
			}
			e := faults[r.Intn(len(faults))]
			if r.Intn(2) == 0 {
				e = errFault
			}
			fail(at, e, r.Intn(2) == 0, r.Intn(4) == 0)
		}
		fail(len(j.text), errFault, true, false)
		fail(len(j.text), errFault, false, false)
		fail(0, errFault, false, false)
		for at := 0; at <= min(4, len(j.text)); at++ {
			fail(at, errFault, false, true)
			fail(at, errFault, true, true)
		}

		// Chunks.
		for v := 0; v < c.N(6, 30); v++ {
			size := []int{1, 2, 3, 7, 4096, 0}[v%6]
			empty := v%2 == 1
			next := func() int {
				if empty && r.Intn(3) == 0 {
					return 0
				}
				if size == 0 {
					return 1 + r.Intn(20)
				}
				return size
			}
			// Several empty reads in a row are legal but end in
			// io.ErrNoProgress after a hundred of them.
			with := r.Intn(2) == 0
			c.Case(fmt.Sprintf("chunk/%d/%v/%v/%s", size, empty, with, j.text))
			c.Count("chunkings", 1)
			d := map[string]any{"text": j.text, "chunk": size, "empty_reads": empty, "eof_with_data": with}
			doc, err, p := parseHSL(c, &chunker{s: j.text, next: next, with: with}, j.text)
			if p != nil {
				c.Fail("parsing panics: "+p.Error(), d)
				return
			}
			if err != nil {
				if err.Error() != wantErr {
					c.Fail("chunks change the error", d)
				}
			} else if wantErr != "" || render(doc) != want {
				c.Fail("chunks change the document", d)
			}
			if j.spec {
				spec, err, p := parseSpec(c, &chunker{s: j.text, next: next, with: with}, j.text)
				ref, rerr, rp := parseSpec(c, strings.NewReader(j.text), j.text)
				if p != nil || rp != nil {
					c.Fail("ParseSpec panics", d)
					return
				}
				if (err == nil) != (rerr == nil) {
					c.Fail("chunks change the outcome of ParseSpec", d)
				} else if err == nil {
					if spec.Source != j.text || ref.Source != j.text {
						c.Fail("the Source is not the text byte by byte", d)
					}
					c.Count("sources", 1)
				}
			}
		}
	})

	// The Source keeps bytes which are not valid UTF-8.
	for i := 0; i < c.N(300, 3000); i++ {
		r := c.Rng(fmt.Sprintf("source/%d", i))
		junk := strings.ReplaceAll(randomBytes(r, r.Intn(20)), "\n", "")
		text := "# " + junk + "\n" + specHead + "# " + junk + pick(r, []string{"\n", "\r\n", ""})
		if r.Intn(2) == 0 {
			text += "\ntest:\n  \"" + strings.NewReplacer("\"", "", "\\", "").Replace(junk) + "\" -> \"x\""
		}
		if i%50 == 0 {
			text = strings.Repeat("# long comment 한글\n", 1000) + text
		}
		c.Case("source/" + text)
		spec, err, p := parseSpec(c, &chunker{s: text, next: func() int { return 1 + r.Intn(9) }}, text)
		if p != nil || err != nil {
			c.Fail("a spec is not parsed", map[string]any{"text": text, "error": fmt.Sprint(err, p)})
		} else if spec.Source != text {
			c.Fail("the Source is not the text byte by byte", map[string]any{"text": text, "source": spec.Source})
		}
	}
}
