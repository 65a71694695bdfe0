package model

import "strings"

var (
	leads   = []rune("ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ")
	medials = []rune("ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ")
	tails   = []rune("ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ")
)

// Leads, Medials and Tails are the valid Jamo of each position.
func Leads() []rune   { return leads }
func Medials() []rune { return medials }
func Tails() []rune   { return tails }

func index(rs []rune, ch rune) int {
	for i, r := range rs {
		if r == ch {
			return i
		}
	}
	return -1
}

// IsSyllable tells whether ch is a composed Hangul syllable.
func IsSyllable(ch rune) bool { return 0xAC00 <= ch && ch <= 0xD7A3 }

// Syllable computes a syllable. tail is 0 or a tail Jamo.
func Syllable(lead, medial, tail rune) rune {
	t := 0
	if tail != 0 {
		t = index(tails, tail) + 1
	}
	return rune(0xAC00 + (index(leads, lead)*21+index(medials, medial))*28 + t)
}

// Decompose writes a syllable in the transcription notation.
func Decompose(ch rune) string {
	i := int(ch - 0xAC00)
	s := string(leads[i/588]) + string(medials[i/28%21])
	if i%28 != 0 {
		s += "-" + string(tails[i%28-1])
	}
	return s
}

// ComposeOK tells whether the text is in the domain of the notation: hyphens
// only before a possible tail, leads which are valid leads.
func ComposeOK(text string) bool {
	rs := []rune(text)
	for i, ch := range rs {
		switch {
		case ch == '-':
			if i+1 >= len(rs) || index(tails, rs[i+1]) < 0 {
				return false
			}
		case i > 0 && rs[i-1] == '-':
		case 0x3130 <= ch && ch <= 0x318f:
			if index(leads, ch) < 0 && index(medials, ch) < 0 {
				return false
			}
		case 0x1100 <= ch && ch <= 0x11ff, 0xa960 <= ch && ch <= 0xa97f, 0xd7b0 <= ch && ch <= 0xd7ff, 0xffa0 <= ch && ch <= 0xffdf:
			return false
		}
	}
	return true
}

// Compose composes Jamo in the transcription notation.
func Compose(text string) string {
	var out strings.Builder
	var lead, medial, tail rune
	open := false
	flush := func() {
		if !open {
			return
		}
		if lead == 0 {
			lead = 'ㅇ'
		}
		if medial == 0 {
			medial = 'ㅡ'
		}
		out.WriteRune(Syllable(lead, medial, tail))
		lead, medial, tail, open = 0, 0, 0, false
	}
	hyphen := false
	for _, ch := range text {
		if ch == '-' {
			hyphen = true
			continue
		}
		closing := hyphen
		hyphen = false
		switch {
		case IsSyllable(ch):
			flush()
			i := int(ch - 0xAC00)
			lead, medial, open = leads[i/588], medials[i/28%21], true
			if i%28 != 0 {
				tail = tails[i%28-1]
			}
		case index(medials, ch) >= 0:
			if open && (medial != 0 || tail != 0) {
				flush()
			}
			medial, open = ch, true
		case closing && index(tails, ch) >= 0:
			if open && tail != 0 {
				flush()
			}
			tail, open = ch, true
		case index(leads, ch) >= 0:
			flush()
			lead, open = ch, true
		default:
			flush()
			out.WriteRune(ch)
		}
	}
	flush()
	return out.String()
}
