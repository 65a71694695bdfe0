package model

import (
	"fmt"
	"strings"
	"unicode"
)

// Pair is a pair of an HSL section.
type Pair struct {
	Left  string
	Right []string
	Line  int
}

// Section is a section of an HSL document.
type Section struct {
	Name  string
	List  bool // "->" pairs rather than "=" pairs
	Line  int
	Pairs []Pair
}

// Get returns the values of a key.
func (s *Section) Get(key string) []string {
	if s == nil {
		return nil
	}
	for _, p := range s.Pairs {
		if p.Left == key {
			return p.Right
		}
	}
	return nil
}

// Table returns the section as a map.
func (s *Section) Table() map[string][]string {
	m := map[string][]string{}
	if s != nil {
		for _, p := range s.Pairs {
			m[p.Left] = p.Right
		}
	}
	return m
}

// Doc is an HSL document. Sections without any pair don't appear.
type Doc map[string]*Section

type docLine struct {
	toks []string // quoted strings are prefixed with '"'
	line int
}

func tokenize(src string) ([]docLine, error) {
	var out []docLine
	for n, text := range strings.Split(src, "\n") {
		var toks []string
		rs := []rune(text)
		for i := 0; i < len(rs); {
			ch := rs[i]
			switch {
			case unicode.IsSpace(ch):
				i++
			case ch == '#':
				i = len(rs)
			case ch == '"':
				j := i + 1
				var b strings.Builder
				for j < len(rs) && rs[j] != '"' {
					if rs[j] == '\\' && j+1 < len(rs) && rs[j+1] == '"' {
						j++
					}
					b.WriteRune(rs[j])
					j++
				}
				if j >= len(rs) {
					return nil, fmt.Errorf("line %d: open string", n+1)
				}
				toks = append(toks, `"`+b.String())
				i = j + 1
			case ch == '-' && i+1 < len(rs) && rs[i+1] == '>':
				toks = append(toks, "->")
				i += 2
			case ch == ':' || ch == '=' || ch == ',':
				toks = append(toks, string(ch))
				i++
			case ch == '_' || unicode.IsLetter(ch):
				j := i
				for j < len(rs) && (rs[j] == '_' || unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j])) {
					j++
				}
				toks = append(toks, `"`+string(rs[i:j]))
				i = j
			default:
				return nil, fmt.Errorf("line %d: illegal %q", n+1, ch)
			}
		}
		if len(toks) > 0 {
			out = append(out, docLine{toks, n + 1})
		}
	}
	return out, nil
}

// ParseHSL reads a well-formed document: one heading or pair per line.
func ParseHSL(src string) (Doc, error) {
	lines, err := tokenize(src)
	if err != nil {
		return nil, err
	}
	doc := Doc{}
	name, nameLine := "", 0
	for _, l := range lines {
		t := l.toks
		if len(t) == 2 && t[0][0] == '"' && t[1] == ":" {
			name, nameLine = t[0][1:], l.line
			continue
		}
		if len(t) < 2 || t[0][0] != '"' || (t[1] != "=" && t[1] != "->") || name == "" {
			return nil, fmt.Errorf("line %d: not well-formed", l.line)
		}
		var vals []string
		for i, v := range t[2:] {
			if i%2 == 0 && v[0] == '"' {
				vals = append(vals, v[1:])
			} else if i%2 != 1 || v != "," {
				return nil, fmt.Errorf("line %d: bad values", l.line)
			}
		}
		sec := doc[name]
		if sec == nil {
			sec = &Section{Name: name, List: t[1] == "->", Line: nameLine}
			doc[name] = sec
		}
		if sec.List != (t[1] == "->") {
			return nil, fmt.Errorf("line %d: mixed section", l.line)
		}
		sec.Pairs = append(sec.Pairs, Pair{t[0][1:], vals, l.line})
	}
	return doc, nil
}
