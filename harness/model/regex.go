// Package model is an executable reference model of Hangulize. It has been
// written from the documentation and the observable behaviour. It shares no
// code with the repository.
package model

import (
	"fmt"
	"regexp/syntax"
	"sync"
	"unicode"
	"unicode/utf8"
)

// A small backtracking matcher with leftmost-first semantics over the AST of a
// regular expression. It doesn't use the regexp engine.

type opcode int

const (
	opRune opcode = iota
	opAssert
	opSave
	opSplit
	opJmp
	opFail
	opMatch
)

type inst struct {
	op   opcode
	re   *syntax.Regexp // opRune
	lit  rune
	fold bool
	isLt bool
	ast  syntax.Op // opAssert
	n    int       // opSave
	x, y int       // opSplit (x preferred), opJmp
}

// Regex is a compiled regular expression.
type Regex struct {
	Expr  string
	AST   *syntax.Regexp
	prog  []inst
	nsave int
}

// CompileRegex parses and compiles an RE2 expression.
func CompileRegex(expr string) (*Regex, error) {
	ast, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	r := &Regex{Expr: expr, AST: ast, nsave: 2 * (ast.MaxCap() + 1)}
	r.emit(inst{op: opSave, n: 0})
	r.comp(ast)
	r.emit(inst{op: opSave, n: 1})
	r.emit(inst{op: opMatch})
	return r, nil
}

func (r *Regex) emit(i inst) int {
	r.prog = append(r.prog, i)
	return len(r.prog) - 1
}

func canEmpty(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune) == 0
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL, syntax.OpNoMatch:
		return false
	case syntax.OpStar, syntax.OpQuest:
		return true
	case syntax.OpPlus, syntax.OpCapture:
		return canEmpty(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min == 0 || canEmpty(re.Sub[0])
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if !canEmpty(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if canEmpty(s) {
				return true
			}
		}
		return false
	}
	return true
}

func (r *Regex) comp(re *syntax.Regexp) {
	greedy := re.Flags&syntax.NonGreedy == 0
	split := func(pc, body, out int) {
		if greedy {
			r.prog[pc].x, r.prog[pc].y = body, out
		} else {
			r.prog[pc].x, r.prog[pc].y = out, body
		}
	}
	plus := func(sub *syntax.Regexp) {
		start := len(r.prog)
		r.comp(sub)
		pc := r.emit(inst{op: opSplit})
		split(pc, start, pc+1)
	}
	quest := func(body func()) {
		pc := r.emit(inst{op: opSplit})
		body()
		split(pc, pc+1, len(r.prog))
	}
	star := func(sub *syntax.Regexp) {
		if canEmpty(sub) {
			quest(func() { plus(sub) })
			return
		}
		pc := r.emit(inst{op: opSplit})
		r.comp(sub)
		r.emit(inst{op: opJmp, x: pc})
		split(pc, pc+1, len(r.prog))
	}

	switch re.Op {
	case syntax.OpNoMatch:
		r.emit(inst{op: opFail})
	case syntax.OpEmptyMatch:
	case syntax.OpLiteral:
		for _, ch := range re.Rune {
			r.emit(inst{op: opRune, isLt: true, lit: ch, fold: re.Flags&syntax.FoldCase != 0})
		}
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		r.emit(inst{op: opRune, re: re})
	case syntax.OpBeginLine, syntax.OpEndLine, syntax.OpBeginText, syntax.OpEndText,
		syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		r.emit(inst{op: opAssert, ast: re.Op})
	case syntax.OpCapture:
		r.emit(inst{op: opSave, n: 2 * re.Cap})
		r.comp(re.Sub[0])
		r.emit(inst{op: opSave, n: 2*re.Cap + 1})
	case syntax.OpStar:
		star(re.Sub[0])
	case syntax.OpPlus:
		if canEmpty(re.Sub[0]) {
			plus(re.Sub[0])
		} else {
			plus(re.Sub[0])
		}
	case syntax.OpQuest:
		quest(func() { r.comp(re.Sub[0]) })
	case syntax.OpRepeat:
		for i := 0; i < re.Min; i++ {
			if i == re.Min-1 && re.Max == -1 {
				plus(re.Sub[0])
				return
			}
			r.comp(re.Sub[0])
		}
		if re.Max == -1 {
			star(re.Sub[0])
			return
		}
		var nest func(n int)
		nest = func(n int) {
			if n == 0 {
				return
			}
			quest(func() { r.comp(re.Sub[0]); nest(n - 1) })
		}
		nest(re.Max - re.Min)
	case syntax.OpConcat:
		for _, s := range re.Sub {
			r.comp(s)
		}
	case syntax.OpAlternate:
		var jumps []int
		for i, s := range re.Sub {
			if i == len(re.Sub)-1 {
				r.comp(s)
				break
			}
			pc := r.emit(inst{op: opSplit})
			r.comp(s)
			jumps = append(jumps, r.emit(inst{op: opJmp}))
			r.prog[pc].x, r.prog[pc].y = pc+1, len(r.prog)
		}
		for _, j := range jumps {
			r.prog[j].x = len(r.prog)
		}
	default:
		panic(fmt.Sprintf("model: unsupported op %v", re.Op))
	}
}

func equalFold(a, b rune) bool {
	if a == b {
		return true
	}
	for f := unicode.SimpleFold(a); f != a; f = unicode.SimpleFold(f) {
		if f == b {
			return true
		}
	}
	return false
}

func (i *inst) matches(ch rune) bool {
	if i.isLt {
		return ch == i.lit || i.fold && equalFold(ch, i.lit)
	}
	switch i.re.Op {
	case syntax.OpAnyChar:
		return true
	case syntax.OpAnyCharNotNL:
		return ch != '\n'
	}
	rs := i.re.Rune
	for k := 0; k+1 < len(rs); k += 2 {
		if rs[k] <= ch && ch <= rs[k+1] {
			return true
		}
	}
	return false
}

func isWordByte(s string, i int) bool {
	if i < 0 || i >= len(s) {
		return false
	}
	c := s[i]
	return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

func assertAt(op syntax.Op, s string, p int) bool {
	switch op {
	case syntax.OpBeginText:
		return p == 0
	case syntax.OpEndText:
		return p == len(s)
	case syntax.OpBeginLine:
		return p == 0 || s[p-1] == '\n'
	case syntax.OpEndLine:
		return p == len(s) || s[p] == '\n'
	case syntax.OpWordBoundary:
		return isWordByte(s, p-1) != isWordByte(s, p)
	default:
		return isWordByte(s, p-1) == isWordByte(s, p)
	}
}

type frame struct {
	pc, pos  int
	restore  int // capture slot to restore, or -1
	oldValue int
}

// Match searches the leftmost-first match in s at or after from, but sees the
// whole s as the text. It returns the capture positions or nil.
func (r *Regex) Match(s string, from int) []int {
	return r.match(s, from, false)
}

// MatchAt is like Match but the match must start at from.
func (r *Regex) MatchAt(s string, from int) []int {
	return r.match(s, from, true)
}

// visitBuf marks visited states with a number which differs for each search, so
// that nothing has to be cleared.
type visitBuf struct {
	marks []uint32
	epoch uint32
}

var visits = sync.Pool{New: func() any { return &visitBuf{} }}

func (b *visitBuf) next(n int) ([]uint32, uint32) {
	if len(b.marks) < n || b.epoch == 1<<32-1 {
		b.marks, b.epoch = make([]uint32, n), 0
	}
	b.epoch++
	return b.marks, b.epoch
}

// Reach is the number of characters a match can consume at most, or -1 if that
// is unlimited or depends on the start of the text.
func (r *Regex) Reach() int { return reach(r.AST) }

func reach(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpNoMatch, syntax.OpEmptyMatch, syntax.OpEndText, syntax.OpEndLine:
		return 0
	case syntax.OpCapture, syntax.OpQuest:
		return reach(re.Sub[0])
	case syntax.OpConcat, syntax.OpAlternate:
		sum, most := 0, 0
		for _, s := range re.Sub {
			n := reach(s)
			if n < 0 {
				return -1
			}
			sum, most = sum+n, max(most, n)
		}
		if re.Op == syntax.OpConcat {
			return sum
		}
		return most
	}
	return -1
}

func (r *Regex) match(s string, from int, anchored bool) []int {
	caps := make([]int, r.nsave)
	n := len(s) + 1
	buf := visits.Get().(*visitBuf)
	defer visits.Put(buf)
	visited, epoch := buf.next(len(r.prog) * n)
	var stack []frame

	for start := from; start <= len(s); {
		for i := range caps {
			caps[i] = -1
		}
		stack = append(stack[:0], frame{0, start, -1, 0})
		for len(stack) > 0 {
			f := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if f.restore >= 0 {
				caps[f.restore] = f.oldValue
				continue
			}
			pc, pos := f.pc, f.pos
		run:
			for {
				id := pc*n + pos
				if visited[id] == epoch {
					break
				}
				visited[id] = epoch
				in := &r.prog[pc]
				switch in.op {
				case opFail:
					break run
				case opMatch:
					return append([]int(nil), caps...)
				case opJmp:
					pc = in.x
				case opSplit:
					stack = append(stack, frame{in.y, pos, -1, 0})
					pc = in.x
				case opSave:
					stack = append(stack, frame{0, 0, in.n, caps[in.n]})
					caps[in.n] = pos
					pc++
				case opAssert:
					if !assertAt(in.ast, s, pos) {
						break run
					}
					pc++
				case opRune:
					if pos >= len(s) {
						break run
					}
					ch, size := utf8.DecodeRuneInString(s[pos:])
					if !in.matches(ch) {
						break run
					}
					pos += size
					pc++
				}
			}
		}
		if anchored || start == len(s) {
			return nil
		}
		_, size := utf8.DecodeRuneInString(s[start:])
		start += size
	}
	return nil
}
