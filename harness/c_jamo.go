package main

import (
	"fmt"
	"strings"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/internal/jamo"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() { checks["C07"] = checkJamo }

func checkJamo(c *Ctx) {
	c.Rule = "a case is a text in transcription notation: all 11172 syllables, each after an open and a closed syllable, all combinations of one to five units of an alphabet of leads, medials, hyphenated finals, composed syllables and other text, all lead/medial/final combinations with parts missing, and random texts up to 400 syllables; non-trivial if it has Jamo or syllables. Observed: the composed text against the arithmetic of U+AC00"
	test := func(text, want string) bool {
		var got string
		var p error
		c.Guard("compose", func() { p = Try(func() { got = jamo.ComposeHangul(text) }) })
		c.Case(text)
		if p != nil || got != want {
			c.Fail("Jamo are composed wrongly", map[string]any{"text": truncate(text, 2000), "result": truncate(got, 2000), "want": truncate(want, 2000), "panic": fmt.Sprint(p)})
			return false
		}
		return true
	}
	// Every syllable, alone and after others.
	for ch := rune(0xAC00); ch <= 0xD7A3 && !c.Failed(); ch++ {
		d := model.Decompose(ch)
		test(d, string(ch))
		test(string(ch), string(ch))
		test("ㄱㅏ"+d, "가"+string(ch))
		test("ㄱㅏ-ㄴ"+d, "간"+string(ch))
		test("가"+d+"x"+d, "가"+string(ch)+"x"+string(ch))
		test(string(ch)+"-ㄹ", model.Compose(string(ch)+"-ㄹ"))
		test(d+"-ㄱ", model.Compose(d+"-ㄱ"))
		test(d+"ㅏ", model.Compose(d+"ㅏ"))
	}
	// Missing parts.
	leads := append([]rune{0}, model.Leads()...)
	medials := append([]rune{0}, model.Medials()...)
	tails := append([]rune{0}, model.Tails()...)
	for _, l := range leads {
		for _, m := range medials {
			for _, t := range tails {
				if l == 0 && m == 0 && t == 0 {
					continue
				}
				s := ""
				fl, fm := l, m
				if l != 0 {
					s += string(l)
				} else {
					fl = 'ㅇ'
				}
				if m != 0 {
					s += string(m)
				} else {
					fm = 'ㅡ'
				}
				if t != 0 {
					s += "-" + string(t)
				}
				want := string(model.Syllable(fl, fm, t))
				test(s, want)
				test("☃"+s+" ", "☃"+want+" ")
			}
		}
	}
	// All short sequences.
	// A hyphen is no text, whatever follows it.
	for _, h := range []string{"-", "--", "---", "----"} {
		for _, before := range []string{"", "ㅎㅏ", "하", "한", "ㅎ", "x", " ", "ㅎㅏ-ㄴ"} {
			for _, after := range []string{"", "ㄴ", "ㄳ", "ㅏ", "가", "x", " ", "①"} {
				for _, end := range []string{"", "ㅏ", "-ㄹ", "☃"} {
					test(before+h+after+end, model.Compose(before+h+after+end))
				}
			}
		}
	}
	units := []string{"ㄱ", "ㄸ", "ㅇ", "ㅏ", "ㅢ", "-ㄴ", "-ㄳ", "가", "힣", "x", " "}
	depth := 6
	Parallel(len(units), func(k int) {
		var rec func(prefix string, n int)
		rec = func(prefix string, n int) {
			if c.Failed() || !test(prefix, model.Compose(prefix)) || n == depth {
				return
			}
			for _, u := range units {
				rec(prefix+u, n+1)
			}
		}
		rec(units[k], 1)
	})
	// Random long texts.
	Parallel(c.N(20000, 300000), func(i int) {
		if c.Failed() {
			return
		}
		r := c.Rng(fmt.Sprint("long", i))
		n := 1 + r.Intn(12)
		if i%50 == 0 {
			n = 400
		}
		if i%500 == 1 {
			n = 5000 + r.Intn(5000)
		}
		var b strings.Builder
		var plain strings.Builder
		pure := r.Intn(2) == 0
		for k := 0; k < n; k++ {
			if pure || r.Intn(3) == 0 {
				ch := rune(0xAC00 + r.Intn(11172))
				b.WriteString(model.Decompose(ch))
				plain.WriteRune(ch)
				continue
			}
			switch r.Intn(7) {
			case 0:
				b.WriteRune(pickRune(r, model.Leads()))
			case 1:
				b.WriteRune(pickRune(r, model.Medials()))
			case 2:
				b.WriteString("-"[:1] + strings.Repeat("-", r.Intn(40)/38) + string(pickRune(r, model.Tails())))
			case 3:
				b.WriteRune(rune(0xAC00 + r.Intn(11172)))
			case 4:
				b.WriteString(pick(r, []string{" ", "\t", "\n"}))
			default:
				ch := randomRune(r)
				if model.ComposeOK(string(ch)) && !(0x3130 <= ch && ch <= 0x318f) && ch != '-' {
					b.WriteRune(ch)
				}
			}
		}
		if pure {
			test(b.String(), plain.String())
		} else {
			test(b.String(), model.Compose(b.String()))
		}
		if i < 4 {
			c.Sample(map[string]string{"text": b.String(), "want": model.Compose(b.String())})
		}
	})
	// Through the pipeline: rules that write the notation.
	Parallel(c.N(2000, 30000), func(i int) {
		r := c.Rng(fmt.Sprint("pipe", i))
		text := "lang:\n id = \"x\"\n codes = \"x\", \"y\"\n script = \"Latn\"\ntranscribe:\n"
		var outs []string
		for k := 0; k < 8; k++ {
			s := ""
			for m := 1 + r.Intn(3); m > 0; m-- {
				switch r.Intn(5) {
				case 0, 1:
					s += string(pickRune(r, model.Leads())) + string(pickRune(r, model.Medials()))
				case 2:
					s += string(pickRune(r, model.Leads()))
				case 3:
					s += "-" + string(pickRune(r, model.Tails()))
				default:
					s += string(pickRune(r, model.Medials()))
				}
			}
			outs = append(outs, s)
			text += fmt.Sprintf(" %q -> %q\n", string(rune('a'+k)), s)
		}
		spec, err := hangulize.ParseSpec(strings.NewReader(text))
		if err != nil {
			return
		}
		h := hangulize.New(spec)
		for k := 0; k < 10; k++ {
			w, notation := "", ""
			want := ""
			m := 1 + r.Intn(10)
			if i%20 == 0 && k == 0 {
				m = 1500
			}
			for ; m > 0; m-- {
				if r.Intn(8) == 0 {
					ch := string(pickRune(r, []rune("☃①한")))
					w += ch
					want += model.Compose(notation) + ch
					notation = ""
					continue
				}
				x := r.Intn(8)
				w += string(rune('a' + x))
				notation += outs[x]
			}
			want += model.Compose(notation)
			got, err, ok := transcribe(c, h, "pipeline", w)
			if !ok || err != nil {
				continue
			}
			c.Case(text + w)
			if got != want {
				c.Fail("a transcription is composed wrongly", map[string]any{"spec": text, "word": w, "result": got, "want": want})
			}
		}
	})
}
