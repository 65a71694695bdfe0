package model

import (
	"unicode"

	"golang.org/x/text/unicode/norm"
)

// Scripts are the names of the scripts.
var Scripts = []string{"Latn", "Cyrl", "Geor", "Grek", "Hrkt"}

// ScriptIs tells whether the character belongs to the script.
func ScriptIs(script string, ch rune) bool {
	switch script {
	case "", "Latn":
		return unicode.In(ch, unicode.Latin)
	case "Cyrl":
		return unicode.In(ch, unicode.Cyrillic, unicode.M)
	case "Geor":
		return unicode.In(ch, unicode.Georgian)
	case "Grek":
		return unicode.In(ch, unicode.Greek)
	case "Hrkt":
		return ch == 0x30FC || unicode.In(ch, unicode.Hiragana, unicode.Katakana)
	}
	panic("model: unknown script " + script)
}

// ScriptNormalize folds a letter of the script.
func ScriptNormalize(script string, ch rune) rune {
	switch script {
	case "", "Latn":
		for _, base := range norm.NFD.String(string(ch)) {
			return unicode.ToLower(base)
		}
		return ch
	case "Cyrl", "Grek":
		return unicode.ToLower(ch)
	case "Hrkt":
		if 0x3040 <= ch && ch <= 0x309f {
			return ch + 0x60
		}
	}
	return ch
}

var hrktPunct = map[rune]string{
	'。': ". ", '、': ", ", '：': ": ", '！': "! ", '？': "? ", '〜': "~",
	'「': " '", '」': "' ", '『': ` "`, '』': `" `,
}

// LocalizePunct gives the Korean counterpart of a punctuation mark.
func LocalizePunct(script string, ch rune) string {
	if script == "Hrkt" {
		if s, ok := hrktPunct[ch]; ok {
			return s
		}
	}
	return string(ch)
}
