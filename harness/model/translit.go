package model

import (
	"strings"

	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
	goPinyin "github.com/mozillazg/go-pinyin"
	"golang.org/x/text/unicode/norm"
	"sync"
	"unicode"
)

// Pinyin models the pinyin Translit over the same dictionary.
func Pinyin(word string) string {
	args := goPinyin.NewArgs()
	var parts []string
	run := ""
	for _, ch := range norm.NFC.String(word) {
		py := goPinyin.SinglePinyin(ch, args)
		if len(py) == 0 {
			run += string(ch)
			continue
		}
		if run != "" {
			parts = append(parts, run)
			run = ""
		}
		parts = append(parts, py[0])
	}
	if run != "" {
		parts = append(parts, run)
	}
	return strings.Join(parts, "\u200b")
}

// PinyinReading returns the reading of one character or "".
func PinyinReading(ch rune) string {
	py := goPinyin.SinglePinyin(ch, goPinyin.NewArgs())
	if len(py) == 0 {
		return ""
	}
	return py[0]
}

const (
	unvoiced = "かきくけこさしすせそたちつてとはひふへほうワヰヱヲゝカキクケコサシスセソタチツテトハヒフヘホウヽ"
	voiced   = "がぎぐげござじずぜぞだぢづでどばびぶべぼゔヷヸヹヺゞガギグゲゴザジズゼゾダヂヅデドバビブベボヴヾ"
	semi     = "ぱぴぷぺぽパピプペポ"
	semiBase = "はひふへほハヒフヘホ"
)

func mapRune(from, to string, ch rune) (rune, bool) {
	f, t := []rune(from), []rune(to)
	for i := range f {
		if f[i] == ch {
			return t[i], true
		}
	}
	return ch, false
}

func unvoice(ch rune) rune {
	if r, ok := mapRune(voiced, unvoiced, ch); ok {
		return r
	}
	r, _ := mapRune(semi, semiBase, ch)
	return r
}

func voice(ch rune) rune {
	r, _ := mapRune(unvoiced, voiced, ch)
	return r
}

// RepeatKana resolves iteration marks.
func RepeatKana(word string) string {
	var b strings.Builder
	prev := rune(0)
	for _, ch := range word {
		hira := 0x3040 <= prev && prev <= 0x309f
		kata := 0x30a0 <= prev && prev <= 0x30ff
		switch {
		case hira && ch == 'ゝ', kata && ch == 'ヽ':
			ch = unvoice(prev)
		case hira && ch == 'ゞ', kata && ch == 'ヾ':
			ch = voice(prev)
		}
		b.WriteRune(ch)
		prev = ch
	}
	return b.String()
}

var prolong = map[rune]string{
	'ァ': "ァアカガサザタダナハバパマャヤラヮワ",
	'ア': "ァアカガサザタダナハバパマャヤラヮワ",
	'ィ': "ィイェエキギケゲシジセゼチヂニネヒビピヘベペミメリレヰヱヸヹ",
	'イ': "ィイキギシジニヒビピミリヰヸ",
	'ゥ': "ゥウォオクグコゴスズソゾツヅヌノフブプホボポムモュユョヨルロヲヴヺ",
	'ウ': "ゥウォオクグコゴスズソゾツヅトドヌノフブプホボポムモュユョヨルロヲヴヺ",
	'ェ': "ェエケゲセゼテデネヘベペメレヱヹ",
	'エ': "ェエケゲセゼテデネヘベペメレヱヹ",
	'ォ': "ォオコゴソゾトドノホボポモョヨロヲヺ",
	'オ': "ォオコゴソゾトドノホボポモョヨロヲヺ",
}

// ProlongFrom writes long vowels at or after the offset with the mark.
func ProlongFrom(word string, offset int) string {
	rs := []rune(word)
	out := make([]rune, len(rs))
	for i, ch := range rs {
		out[i] = ch
		if i >= offset && i > 0 && strings.ContainsRune(prolong[ch], rs[i-1]) {
			out[i] = 'ー'
		}
	}
	return string(out)
}

var (
	kagomeOnce sync.Once
	kagomeTok  kagome.Tokenizer
)

// Morpheme is a token as the furigana model sees it.
type Morpheme struct {
	Text string
	Kind string // "meta", "aux", "name", "known", "unknown"
}

// Morphemes tokenizes with the same dictionary.
func Morphemes(word string) []Morpheme {
	kagomeOnce.Do(func() { kagomeTok = kagome.New() })
	var out []Morpheme
	for _, t := range kagomeTok.Tokenize(RepeatKana(norm.NFC.String(word))) {
		switch {
		case t.Class == kagome.DUMMY:
		case t.Class == kagome.KNOWN:
			f := t.Features()
			m := Morpheme{f[8], "known"}
			switch {
			case f[0] == "フィラー" || f[0] == "記号":
				m.Kind = "meta"
			case f[0] == "助動詞":
				m.Kind = "aux"
			case f[0] == "助詞":
				if f[6] == "は" {
					m.Text = "ハ"
				} else if f[6] == "へ" {
					m.Text = "ヘ"
				}
			case f[2] == "人名":
				m.Kind = "name"
			}
			out = append(out, m)
		case strings.TrimFunc(t.Surface, unicode.IsSpace) == "":
			out = append(out, Morpheme{t.Surface, "meta"})
		default:
			out = append(out, Morpheme{t.Surface, "unknown"})
		}
	}
	return out
}

// Furigana models the furigana Translit.
func Furigana(word string) string {
	ms := Morphemes(word)
	var b strings.Builder
	last := "start"
	for i := 0; i < len(ms); {
		m := ms[i]
		i++
		text := m.Text
		if m.Kind == "unknown" {
			text = ProlongFrom(text, 0)
		}
		core := len([]rune(text))
		for i < len(ms) && ms[i].Kind == "aux" {
			text += ms[i].Text
			i++
		}
		text = ProlongFrom(text, core)
		if m.Kind == "name" && last == "name" {
			b.WriteByte(' ')
		}
		last = m.Kind
		b.WriteString(text)
	}
	return b.String()
}
