package model

import (
	"errors"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Pattern is the model of an HRE pattern.
type Pattern struct {
	Expr      string
	Re        *Regex // composite positive expression
	NegA      *Regex // forbidden right after the match
	NegB      *Regex // forbidden right before the match
	UsedVars  [][]string
	VarGroups []int // the index of the group of each var among the groups of the core
	Letters   map[rune]bool

	// Parts as text, for generators.
	LeftEdge, LeftLook, Core, RightLook, RightEdge string
	Never                                          bool
}

// ExpandTable replaces each key by its value in one pass from left to right.
// The longest key wins.
func ExpandTable(s string, table map[string]string) string {
	keys := make([]string, 0, len(table))
	for k := range table {
		if k != "" {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) > len(keys[j])
		}
		return keys[i] < keys[j]
	})
	byFirst := map[byte][]string{}
	for _, k := range keys {
		byFirst[k[0]] = append(byFirst[k[0]], k)
	}
	var b strings.Builder
outer:
	for i := 0; i < len(s); {
		for _, k := range byFirst[s[i]] {
			if strings.HasPrefix(s[i:], k) {
				b.WriteString(table[k])
				i += len(k)
				continue outer
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// VarSpan finds the next <var> at or after i.
func VarSpan(s string, i int) (int, int, string) {
	for ; i < len(s); i++ {
		if s[i] != '<' {
			continue
		}
		if i+1 >= len(s) {
			break
		}
		_, size := utf8.DecodeRuneInString(s[i+1:])
		j := strings.IndexByte(s[i+1+size:], '>')
		if j < 0 {
			break
		}
		end := i + 1 + size + j
		return i, end + 1, strings.Trim(s[i:end+1], "<>")
	}
	return -1, -1, ""
}

func quoteMeta(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(`\.+*?()|[]{}^$`, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func expandVars(s string, vars map[string][]string) (string, [][]string) {
	var b strings.Builder
	var used [][]string
	cur := 0
	for {
		i, j, name := VarSpan(s, cur)
		if i < 0 {
			break
		}
		b.WriteString(s[cur:i])
		vals := vars[name]
		used = append(used, vals)
		b.WriteByte('(')
		for k, v := range vals {
			if k > 0 {
				b.WriteByte('|')
			}
			b.WriteString(quoteMeta(v))
		}
		b.WriteByte(')')
		cur = j
	}
	b.WriteString(s[cur:])
	return b.String(), used
}

// splitRight splits off "{look}$$" from the right.
func splitRight(s string) (rest, look, edge string) {
	rest = strings.TrimRight(s, "$")
	edge = s[len(rest):]
	if strings.HasSuffix(rest, "}") {
		body := rest[:len(rest)-1]
		from := strings.LastIndexByte(body, '}') + 1
		if k := strings.IndexByte(body[from:], '{'); k >= 0 && from+k+1 < len(body) {
			return body[:from+k], body[from+k+1:], edge
		}
	}
	return rest, "", edge
}

// splitLeft splits off "^^{look}" from the left.
func splitLeft(s string) (rest, look, edge string) {
	rest = strings.TrimLeft(s, "^")
	edge = s[:len(s)-len(rest)]
	if strings.HasPrefix(rest, "{") {
		k := strings.IndexByte(rest, '}')
		if k > 1 {
			return rest[k+1:], rest[1:k], edge
		}
	}
	return rest, "", edge
}

// noCapture makes every group non-capturing.
func noCapture(s string) string {
	var b strings.Builder
	class := -1 // start of the current character class
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
		switch {
		case s[i] == '\\' && i+1 < len(s):
			i++
			b.WriteByte(s[i])
		case class >= 0:
			if s[i] == ']' && i > class+1 && !(i == class+2 && s[class+1] == '^') {
				class = -1
			}
		case s[i] == '[':
			class = i
		case s[i] == '(' && (i+1 >= len(s) || s[i+1] != '?'):
			b.WriteString("?:")
		}
	}
	return b.String()
}

func expandEdges(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '\\' && i+1 < len(s) || s[i] == '[' && i+1 < len(s) && s[i+1] == '^' {
			b.WriteString(s[i : i+2])
			i += 2
			continue
		}
		if s[i] != '^' && s[i] != '$' {
			b.WriteByte(s[i])
			i++
			continue
		}
		c := s[i]
		j := i
		for j < len(s) && s[j] == c {
			j++
		}
		if j-i == 1 {
			b.WriteString(`(?:` + string(c) + `|\s+|{})`)
		} else {
			b.WriteByte(c)
		}
		i = j
	}
	return b.String()
}

// literalLetters collects the characters which are written literally.
func literalLetters(expr string, into map[rune]bool) {
	rs := []rune(expr)
	for i := 0; i < len(rs); i++ {
		ch := rs[i]
		switch {
		case unicode.IsSpace(ch) && (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\f'):
		case ch == '(' && i+2 < len(rs) && rs[i+1] == '?' && rs[i+2] == ':':
			i += 2
		case ch == '\\':
			i++
		case strings.ContainsRune(`/.+*?()|[]{}^$`, ch):
		default:
			into[ch] = true
		}
	}
}

// HasMiddleAssertion tells whether a {...} remains in the core.
func hasBraces(s string) bool {
	for i := strings.IndexByte(s, '{'); i >= 0; {
		j := strings.IndexByte(s[i:], '}')
		if j < 0 {
			return false
		}
		if j > 1 {
			return true
		}
		k := strings.IndexByte(s[i+1:], '{')
		if k < 0 {
			return false
		}
		i += 1 + k
	}
	return false
}

// varGroups numbers the group of each var in the core, after the groups that
// open before it.
func varGroups(core string) []int {
	var out []int
	for i, open := 0, 0; i < len(core); i++ {
		switch core[i] {
		case '\\':
			i++
		case '[':
			j := i + 1
			if j < len(core) && core[j] == '^' {
				j++
			}
			for first := true; j < len(core) && (first || core[j] != ']'); first = false {
				if core[j] == '\\' {
					j++
				}
				j++
			}
			i = j
		case '(':
			if i+1 == len(core) || core[i+1] != '?' {
				open++
			}
		case '<':
			if i+1 == len(core) {
				continue
			}
			if j := strings.IndexByte(core[i+2:], '>'); j >= 0 {
				out = append(out, open)
				open++
				i += 2 + j
			}
		}
	}
	return out
}

// NewPattern compiles the model of a pattern.
func NewPattern(expr string, macros map[string]string, vars map[string][]string) (*Pattern, error) {
	if expr == "" {
		return nil, errors.New("empty pattern")
	}
	p := &Pattern{Expr: expr, Letters: map[rune]bool{}}
	expanded := ExpandTable(expr, macros)

	core, _, _ := splitRight(expanded)
	core, _, _ = splitLeft(core)
	_, p.UsedVars = expandVars(core, vars)
	p.VarGroups = varGroups(core)

	full, _ := expandVars(expanded, vars)
	rest, lookA, edgeR := splitRight(full)
	rest, lookB, edgeL := splitLeft(rest)
	lookA, lookB = noCapture(lookA), noCapture(lookB)
	p.LeftEdge, p.LeftLook, p.Core, p.RightLook, p.RightEdge = edgeL, lookB, rest, lookA, edgeR

	neg := func(look *string, edge, prefix, suffix string) (*Regex, string, bool) {
		if *look == "" {
			return nil, "", true
		}
		if strings.HasPrefix(*look, "~") {
			body := (*look)[1:]
			*look = ""
			if edge != "" {
				return nil, "", true
			}
			e := prefix + "(" + body + ")" + suffix
			re, err := CompileRegex(e)
			if err != nil {
				return nil, "", false
			}
			return re, e, true
		}
		return nil, "", edge == ""
	}

	var okA, okB bool
	var negAExpr, negBExpr string
	p.NegA, negAExpr, okA = neg(&lookA, edgeR, "^", "")
	p.NegB, negBExpr, okB = neg(&lookB, edgeL, "", "$")
	composite := ""
	if okA && okB {
		composite = "(" + edgeL + ")(" + lookB + ")" + rest + "(" + lookA + ")(" + edgeR + ")"
	} else {
		// Such a pattern never matches.
		p.Never = true
		return p, nil
	}
	if hasBraces(rest) || hasBraces(lookA) || hasBraces(lookB) {
		return nil, errors.New("zero-width group in the middle")
	}
	composite = expandEdges(composite)
	literalLetters(composite+negAExpr+negBExpr, p.Letters)
	re, err := CompileRegex(composite)
	if err != nil {
		return nil, err
	}
	p.Re = re
	return p, nil
}

// ZeroWidth is the panic value for a match of an empty core.
type ZeroWidth struct{ Expr string }

// Find returns the matches as [start stop (captures in the core)...].
func (p *Pattern) Find(word string, n int) [][]int {
	var out [][]int
	if p.Never {
		return nil
	}
	off := 0
	for off < len(word) && (n < 0 || len(out) < n) {
		text := word[off:]
		m := p.Re.Match(text, 0)
		if m == nil {
			break
		}
		for i := range m {
			if m[i] >= 0 {
				m[i] += off
			}
		}
		k := len(m)
		start, stop := m[5], m[k-4]
		behind, ahead := m[5], m[k-4]
		if start < 0 {
			start = m[0]
		}
		if stop < 0 {
			stop = m[1]
		}
		if start == stop {
			panic(ZeroWidth{p.Expr})
		}
		off = stop
		if p.NegA != nil {
			rest := ""
			if ahead >= 0 {
				rest = word[ahead:]
			}
			if p.NegA.MatchAt(rest, 0) != nil {
				continue
			}
		}
		if p.NegB != nil {
			before := ""
			if behind >= 0 {
				before = word[:behind]
			}
			// No need to search a long text from its very start.
			if n := p.NegB.Reach(); n >= 0 && len(before) > 1000 && 4*n+4 < len(before) {
				before = before[len(before)-4*n-4:]
			}
			if p.NegB.Match(before, 0) != nil {
				continue
			}
		}
		span := append([]int{start, stop}, m[6:k-4]...)
		out = append(out, span)
	}
	return out
}

// RPart is a piece of a replacement.
type RPart struct {
	IsVar bool
	Lit   string
	Vals  []string
}

// RPattern is the model of a replacement.
type RPattern struct {
	Expr    string
	Parts   []RPart
	Letters map[rune]bool
}

// NewRPattern parses a replacement.
func NewRPattern(expr string, macros map[string]string, vars map[string][]string) *RPattern {
	r := &RPattern{Expr: expr, Letters: map[rune]bool{}}
	s := ExpandTable(expr, macros)
	cur := 0
	for {
		i, j, name := VarSpan(s, cur)
		if i < 0 {
			break
		}
		if cur < i {
			r.Parts = append(r.Parts, RPart{Lit: s[cur:i]})
		}
		r.Parts = append(r.Parts, RPart{IsVar: true, Vals: vars[name]})
		cur = j
	}
	if cur < len(s) {
		r.Parts = append(r.Parts, RPart{Lit: s[cur:]})
	}
	s, _ = expandVars(s, vars)
	literalLetters(s, r.Letters)
	return r
}

// Repl is one replacement.
type Repl struct {
	Start, Stop int
	Text        string
}

// Rule is a pattern with its replacement.
type Rule struct {
	ID   int
	From *Pattern
	To   *RPattern
}

func (r *Rule) String() string {
	return `"` + r.From.Expr + `" -> "` + r.To.Expr + `"`
}

// Repls lists the replacements in the word.
func (r *Rule) Repls(word string) []Repl {
	var out []Repl
next:
	for _, m := range r.From.Find(word, -1) {
		var b strings.Builder
		n := 0
		for _, part := range r.To.Parts {
			if !part.IsVar {
				b.WriteString(part.Lit)
				continue
			}
			if n >= len(r.From.UsedVars) || len(part.Vals) == 0 {
				continue next
			}
			val := ""
			if n >= len(r.From.VarGroups) {
				continue next
			}
			k := 2 + 2*r.From.VarGroups[n]
			if a := m[k]; a >= 0 {
				val = word[a:m[k+1]]
			}
			idx := -1
			for i, v := range r.From.UsedVars[n] {
				if v == val {
					idx = i
					break
				}
			}
			if idx < 0 {
				continue next
			}
			b.WriteString(part.Vals[idx%len(part.Vals)])
			n++
		}
		out = append(out, Repl{m[0], m[1], b.String()})
	}
	return out
}

// Replace applies the rule once to the word.
func (r *Rule) Replace(word string) string {
	return applyRepls(word, r.Repls(word))
}

func applyRepls(word string, repls []Repl) string {
	var b strings.Builder
	cur := 0
	for _, x := range repls {
		b.WriteString(word[cur:x.Start])
		b.WriteString(x.Text)
		cur = x.Stop
	}
	b.WriteString(word[cur:])
	return b.String()
}

// ApplyFirst applies only the replacements of the listed spans.
func ApplyFirst(word string, spans [][]int, repls []Repl) string {
	in := map[int]bool{}
	for _, s := range spans {
		in[s[0]] = true
	}
	var out []Repl
	for _, x := range repls {
		if in[x.Start] {
			out = append(out, x)
		}
	}
	return applyRepls(word, out)
}

// FindFull is Find where an assertion sees the whole word, including what was
// matched before. ok is false if the core may be empty.
func (p *Pattern) FindFull(word string, n int) (out [][]int, ok bool) {
	if p.Never {
		return nil, true
	}
	off, from := 0, 0
	for from <= len(word) && (n < 0 || len(out) < n) {
		m := p.Re.MatchAt(word, from)
		_, size := utf8.DecodeRuneInString(word[from:])
		if size == 0 {
			size = 1
		}
		if m == nil {
			from += size
			continue
		}
		k := len(m)
		start, stop := m[5], m[k-4]
		if start < off {
			from += size
			continue
		}
		if start == stop {
			return nil, false
		}
		off, from = stop, 0
		if p.NegA != nil && p.NegA.MatchAt(word[stop:], 0) != nil || p.NegB != nil && p.NegB.Match(word[:start], 0) != nil {
			from = off
			if from > 0 {
				from = 0
			}
			continue
		}
		out = append(out, []int{start, stop})
	}
	return out, true
}
