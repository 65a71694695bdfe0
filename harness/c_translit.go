package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"
	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
	"golang.org/x/text/unicode/norm"

	"github.com/hangulize/hangulize/verifharness/model"
)

func init() {
	checks["C23"] = checkCyrillic
	checks["C24"] = checkFurigana
	checks["C25"] = checkPinyin
	children["cyrillic"] = func([]string) {
		h := sha256.New()
		countries, tables := cyrTables()
		for _, cy := range countries {
			t := cyrTranslit(cy)
			for _, w := range cyrFixed(tables[cy]) {
				out, err := t.Transliterate(w)
				fmt.Fprintf(h, "%s\x00%s\x00%v\n", w, out, err)
			}
		}
		fmt.Printf("%x\n", h.Sum(nil))
	}
}

// transliterate calls a Translit. A panic is an error.
func transliterate(c *Ctx, t hangulize.Translit, word string) (out string, err error) {
	c.Guard(t.Scheme()+" "+word, func() {
		if p := Try(func() { out, err = t.Transliterate(word) }); p != nil {
			err = p
		}
	})
	return
}

// ----------------------------------------------------------------------------
// C23

const cyrDict = "/repo/translit/cyrillic/dict.json"
const cyrSource = "/repo/translit/cyrillic/cyrtranslit-mapping.v1.1.py"

var cyrAll = map[string]hangulize.Translit{"bg": cyrillic.Bulgaria, "mk": cyrillic.Macedonia, "ru": cyrillic.Russia, "ua": cyrillic.Ukraine}

func cyrTranslit(country string) hangulize.Translit { return cyrAll[country] }

// cyrTables reads the romanizations of the countries.
func cyrTables() ([]string, map[string]map[string]string) {
	var d map[string]struct {
		ToCyrillic map[string]string `json:"tocyrillic"`
	}
	b, err := os.ReadFile(cyrDict)
	if err == nil {
		err = json.Unmarshal(b, &d)
	}
	if err != nil {
		// The table isn't kept in this file. Its source still is.
		var src map[string]map[string]map[string]string
		if src, err = cyrSourceTables(); err != nil {
			return nil, nil
		}
		out := map[string]map[string]string{}
		for k := range cyrAll {
			out[k] = src[k]["tocyrillic"]
		}
		return sortedKeys(cyrAll), out
	}
	out := map[string]map[string]string{}
	for k := range cyrAll {
		out[k] = d[k].ToCyrillic
	}
	return sortedKeys(cyrAll), out
}

// cyrSourceTables evaluates the vendored source of the tables.
func cyrSourceTables() (map[string]map[string]map[string]string, error) {
	cmd := exec.Command("python3", "-c", "import json,sys; g={}; exec(open(sys.argv[1], encoding='utf-8').read(), g); json.dump(g['TRANSLIT_DICT'], sys.stdout)", cyrSource)
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var d map[string]map[string]map[string]string
	return d, json.Unmarshal(b, &d)
}

// longestMatch is the specified scan.
func longestMatch(table map[string]string, longest int, word string) (string, int) {
	var b strings.Builder
	n := 0
scan:
	for i := 0; i < len(word); {
		for k := longest; k > 0; k-- {
			if i+k > len(word) {
				continue
			}
			if v, ok := table[word[i:i+k]]; ok {
				b.WriteString(v)
				i += k
				n++
				continue scan
			}
		}
		b.WriteByte(word[i])
		i++
	}
	return b.String(), n
}

// cyrFixed is the fixed workload of a table.
func cyrFixed(table map[string]string) []string {
	keys := sortedKeys(table)
	out := append([]string{""}, keys...)
	for _, a := range keys {
		for _, b := range keys {
			out = append(out, a+b, a+" "+b)
		}
	}
	return out
}

func checkCyrillic(c *Ctx) {
	c.Rule = "a case is a word for one of the four Translits: every romanization, every concatenation of two and of three, random concatenations, every shorter prefix of long romanizations next to others, mixtures with foreign text, broken UTF-8 and Cyrillic text; non-trivial if a romanization occurs. Observed: the result against an independent longest-match scan over the country table, the table against its vendored source, Cyrillic text being kept, concatenation at boundaries, and the digest of a fixed workload in separate processes"
	countries, tables := cyrTables()
	if tables == nil {
		c.Rule = "the tables can't be read"
		c.finish()
	}
	if src, err := cyrSourceTables(); err == nil {
		for _, cy := range countries {
			want := src[cy]["tocyrillic"]
			for _, k := range sortedKeys(want) {
				c.Case("table " + cy + k)
				if got, err := transliterate(c, cyrTranslit(cy), k); err != nil || got != want[k] {
					c.Fail("a romanization of the source table is written wrongly", map[string]any{"country": cy, "word": k, "result": got, "want": want[k], "err": fmt.Sprint(err)})
				}
			}
			c.Count("romanizations in the source tables", len(want))
		}
	} else {
		c.Extra("source_tables", "not evaluated: "+err.Error())
	}
	registered := map[string]bool{}
	for _, t := range translit.Translits() {
		registered[t.Scheme()] = true
	}
	for _, cy := range countries {
		c.Case("scheme " + cy)
		if s := cyrTranslit(cy).Scheme(); s != "cyrillic["+cy+"]" || !registered[s] {
			c.Fail("the scheme isn't the one of the country", map[string]any{"country": cy, "scheme": s, "standard": registered[s]})
		}
	}
	for _, cy := range countries {
		t, table := cyrTranslit(cy), tables[cy]
		longest := 0
		for k := range table {
			longest = max(longest, len(k))
		}
		keys := sortedKeys(table)
		var values []string
		for _, k := range keys {
			values = append(values, table[k])
		}
		test := func(word string) bool {
			want, n := longestMatch(table, longest, word)
			got, err := transliterate(c, t, word)
			key := ""
			if n > 0 {
				key = cy + word
			}
			c.Case(key)
			c.Count("replaced romanizations", n)
			if err != nil || got != want {
				c.Fail("the longest romanization isn't replaced", map[string]any{"country": cy, "word": word, "result": got, "want": want, "err": fmt.Sprint(err)})
				return false
			}
			return true
		}
		for _, w := range cyrFixed(table) {
			test(w)
			if c.Failed() {
				return
			}
		}
		// All triples over the letters of the longer romanizations.
		var long []string
		letters := map[string]bool{}
		for _, k := range keys {
			if utf8.RuneCountInString(k) > 1 {
				long = append(long, k)
				for _, ch := range k {
					letters[string(ch)] = true
				}
			}
		}
		parts := append(sortedKeys(letters), long...)
		sort.Strings(parts)
		c.Seen("parts", cy+fmt.Sprint(len(parts)))
		Parallel(len(parts), func(i int) {
			for _, b := range parts {
				for _, d := range parts {
					if c.Failed() {
						return
					}
					test(parts[i] + b + d)
				}
			}
		})
		// Cyrillic text.
		for ch := rune(0x400); ch <= 0x52f; ch++ {
			test(string(ch))
			test(string(ch) + keys[int(ch)%len(keys)] + string(ch))
		}
		for _, v := range values {
			if got, err := transliterate(c, t, v+" "+v); err != nil || got != v+" "+v {
				c.Fail("Cyrillic text isn't kept", map[string]any{"country": cy, "word": v, "result": got, "err": fmt.Sprint(err)})
			}
		}
		// Random words.
		n := c.N(60000, 3000000)
		chunks := 64
		Parallel(chunks, func(k int) {
			r := c.Rng(fmt.Sprintf("%s/%d", cy, k))
			for i := 0; i < n/chunks && !c.Failed(); i++ {
				w := ""
				for m := 1 + r.Intn(12); m > 0; m-- {
					switch r.Intn(12) {
					case 0:
						w += string(randomRune(r))
						if r.Intn(2) == 0 {
							w += pick(r, hostilePool)
						}
					case 1:
						w += pick(r, values)
						if r.Intn(3) == 0 {
							w += " "
						}
					case 2:
						w += pick(r, []string{" ", "-", "'", "’", "''", "1", "\u0301", "ё", "́"})
					case 3:
						w += norm.NFD.String(pick(r, keys))
					case 4:
						w += strings.ToUpper(pick(r, keys))
					case 5:
						if len(long) > 0 {
							w += pick(r, long)
						}
					case 6:
						if r.Intn(10) == 0 {
							w += randomBytes(r, 1+r.Intn(4))
						}
					default:
						w += pick(r, keys)
					}
				}
				if r.Intn(2000) == 0 {
					w = strings.Repeat(w, 1+r.Intn(3000))
				}
				switch r.Intn(8) {
				case 0:
					w += pick(r, hostilePool)
				case 1:
					w = pick(r, hostilePool) + w
				case 2:
					w = pick(r, keys) + " " + w + pick(r, hostilePool)
				}
				test(w)
			}
		})
	}
	// Separate processes.
	digests := map[string]bool{}
	procs := c.N(12, 100)
	Parallel(procs, func(i int) {
		res := runProc(childCmd("cyrillic", nil), 60*time.Second)
		c.Case(fmt.Sprintf("process %d", i))
		if res.Code != 0 {
			c.Fail("a process failed", map[string]any{"code": res.Code, "stderr": truncate(res.Stderr, 2000)})
			return
		}
		c.mu.Lock()
		digests[res.Stdout] = true
		c.mu.Unlock()
	})
	c.Extra("processes", procs)
	if len(digests) > 1 {
		c.Fail("processes transliterate differently", map[string]any{"digests": sortedKeys(digests)})
	}
	c.Sample(map[string]any{"country": "ru", "word": "Shhi"})
}

// ----------------------------------------------------------------------------
// C24

// dictionaryForms reads the dictionary forms and readings of the analyzer. They are only
// used as a workload.
func dictionaryForms() (out []string) {
	defer func() { recover() }()
	d := kagome.SysDic()
	v := reflect.ValueOf(&d).Elem().FieldByName("dic")
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Elem()
	contents := v.FieldByName("Contents")
	seen := map[string]bool{}
	for i := 0; i < contents.Len(); i++ {
		row := contents.Index(i)
		for j := 0; j < row.Len(); j++ {
			s := row.Index(j).String()
			if s != "" && s != "*" && !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	sort.Strings(out)
	return out
}

const (
	hiragana = "ぁあぃいぅうぇえぉおかがきぎくぐけげこごさざしじすずせぜそぞただちぢっつづてでとどなにぬねのはばぱひびぴふぶぷへべぺほぼぽまみむめもゃやゅゆょよらりるれろゎわゐゑをんゔ"
	katakana = "ァアィイゥウェエォオカガキギクグケゲコゴサザシジスズセゼソゾタダチヂッツヅテデトドナニヌネノハバパヒビピフブプヘベペホボポマミムメモャヤュユョヨラリルレロヮワヰヱヲンヴヵヶヷヸヹヺー"
)

func kanaWord(r *rand.Rand, set []rune, n int, marks bool) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if marks && r.Intn(4) == 0 {
			b.WriteRune(pickRune(r, []rune("ゝゞヽヾー々〃")))
			continue
		}
		b.WriteRune(pickRune(r, set))
	}
	return b.String()
}

func checkFurigana(c *Ctx) {
	c.Rule = "a case is a text for the furigana Translit: every kana before every iteration mark and before every kana, the dictionary forms of the analyzer alone and concatenated, pairs of names with and without spaces, inflected endings, all common ideographs, kana words with marks, foreign text and mixtures, in composed and decomposed form; non-trivial if it has kana or ideographs. Observed: the result against a model over the same dictionary, that text without kana, ideographs and known symbols is kept, that iteration marks and long vowels are resolved, that spaces occur only between names, and that repeated calls in other orders give the same result"
	checkStale(c)
	t := furigana.T
	names := map[bool]int{}
	memo := map[string]string{}
	test := func(word string) bool {
		got, err := transliterate(c, t, word)
		var want string
		if p := Try(func() { want = model.Furigana(word) }); p != nil {
			c.Case("")
			return true
		}
		key := ""
		for _, ch := range word {
			if unicode.In(ch, unicode.Hiragana, unicode.Katakana, unicode.Han) {
				key = word
				break
			}
		}
		c.Case(key)
		if err != nil || got != want {
			c.Fail("the furigana differs from the dictionary's", map[string]any{"word": word, "result": got, "want": want, "err": fmt.Sprint(err)})
			return false
		}
		// A space more than the text has stands between names.
		if extra := strings.Count(got, " ") - strings.Count(norm.NFC.String(word), " "); extra > 0 {
			c.mu.Lock()
			names[true]++
			c.mu.Unlock()
		}
		if key != "" && strings.ContainsRune(got, 'ー') && !strings.ContainsRune(word, 'ー') {
			c.Count("texts with a long vowel", 1)
		}
		c.mu.Lock()
		if len(memo) < 20000 {
			memo[word] = got
		}
		c.mu.Unlock()
		return true
	}
	test("") // load the dictionaries

	kana := []rune(hiragana + katakana)
	// Iteration marks after each kana.
	marks := []rune("ゝゞヽヾ")
	for _, k := range kana {
		for _, m := range marks {
			test(string([]rune{k, m}))
			test(string([]rune{'日', k, m, 'x'}))
			for _, m2 := range marks {
				test(string([]rune{k, m, m2}))
				test(string([]rune{k, m, 'x', m2}))
			}
		}
		// In unknown words, the following kana may be a long vowel.
		for _, k2 := range kana {
			test(string([]rune{k, k2}))
			test(string([]rune{'ゲ', k, k2, 'ゲ'}))
		}
	}
	if c.Failed() {
		return
	}
	forms := dictionaryForms()
	c.Extra("dictionary_forms", len(forms))
	step := c.N(1, 1)
	off := 0
	if step > 1 {
		off = int(c.Seed) % step
	}
	chunks := 64
	Parallel(chunks, func(k int) {
		for i := off + k*step; i < len(forms) && !c.Failed(); i += chunks * step {
			test(forms[i])
		}
	})
	if c.Failed() {
		return
	}
	// Ideographs.
	Parallel((0x9fff-0x4e00)/64+1, func(k int) {
		for ch := rune(0x4e00 + k*64); ch < rune(0x4e00+k*64+64) && !c.Failed(); ch++ {
			test(string(ch))
		}
	})
	for _, rg := range [][2]rune{{0x3000, 0x30ff}, {0x31f0, 0x33ff}, {0xf900, 0xfaff}, {0xff00, 0xffef}, {0x20, 0x24f}, {0x3400, 0x3480}, {0x20000, 0x20040}, {0x2f800, 0x2f840}} {
		for ch := rg[0]; ch <= rg[1]; ch++ {
			test(string(ch))
			test("日" + string(ch) + "本")
		}
	}

	family := strings.Fields("新海 松本 田中 佐藤 鈴木 高橋 伊藤 渡辺 山本 中村 小林 加藤 吉田 山田 佐々木 山口 井上 木村 林 清水 宮崎 大江 村上 三島 川端")
	given := strings.Fields("誠 行弘 太郎 花子 一郎 次郎 健三郎 駿 春樹 由紀夫 康成 美穂 優子 愛 大輔 翔 健 恵子 さくら ゆき")
	endings := strings.Fields("ない だろう でしょう た ます ません ましょう れる られる せる たい らしい です だ なかろう う よう まい ぬ へ は を に と も")
	foreign := strings.Fields("abc ÄÖ Привет 한글 αβγ 中国 ไทย é e\u0301 が か\u3099 ﾊﾟ ｶﾞ １２ ① ㍿ 株式会社 . ! ？ 。 、 ・ ー ～ 「 」 \u3000 \u200b 🎉 👩‍👩‍👧 々 〃 仝")
	foreign = append(foreign, "\u3000", " ", "\t", "\n", "\u00a0", "\u2003")
	n := c.N(60000, 1500000)
	Parallel(chunks, func(k int) {
		r := c.Rng(fmt.Sprintf("mix/%d", k))
		for i := 0; i < n/chunks && !c.Failed(); i++ {
			w := ""
			for m := 1 + r.Intn(6); m > 0; m-- {
				switch r.Intn(9) {
				case 0:
					w += pick(r, family) + pick(r, []string{"", "", " ", "\u3000", "・", "  "}) + pick(r, given)
				case 1:
					w += pick(r, family)
				case 2:
					w += pick(r, given)
				case 3:
					w += pick(r, endings)
				case 4:
					w += pick(r, foreign)
				case 5:
					w += kanaWord(r, []rune(hiragana), 1+r.Intn(6), true)
				case 6:
					w += kanaWord(r, []rune(katakana), 1+r.Intn(6), true)
				case 7:
					if len(forms) > 0 {
						w += pick(r, forms)
					}
				case 8:
					w += string(randomRune(r))
				}
			}
			switch r.Intn(12) {
			case 0:
				w = norm.NFD.String(w)
			case 1:
				w = norm.NFKD.String(w)
			case 2:
				w += randomBytes(r, 1+r.Intn(3))
			}
			test(w)
		}
	})
	if c.Failed() {
		return
	}

	// Text that isn't Japanese is kept.
	r := c.Rng("kept")
	for i := 0; i < c.N(4000, 100000) && !c.Failed(); i++ {
		w := ""
		for m := 1 + r.Intn(20); m > 0; m-- {
			switch r.Intn(5) {
			case 0:
				w += string(rune(0xac00 + r.Intn(11172)))
			case 1:
				w += string(rune(0x430 + r.Intn(32)))
			case 2:
				w += string(rune(0xe0 + r.Intn(23)))
			default:
				w += string(rune('a' + r.Intn(26)))
			}
		}
		c.Case("kept " + w)
		if got, err := transliterate(c, t, w); err != nil || got != w {
			c.Fail("text that isn't Japanese isn't kept", map[string]any{"word": w, "result": got, "err": fmt.Sprint(err)})
		}
	}
	// The same again, in another order and concurrently.
	words := sortedKeys(memo)
	r.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
	Parallel(len(words), func(i int) {
		got, err := transliterate(c, t, words[i])
		c.Case("")
		if err != nil || got != memo[words[i]] {
			c.Fail("the furigana of a text depends on earlier calls", map[string]any{"word": words[i], "result": got, "earlier": memo[words[i]], "err": fmt.Sprint(err)})
		}
	})
	c.Extra("texts_with_a_space_between_names", names[true])
	c.Sample(map[string]any{"word": "新海誠", "furigana": memo["新海誠"]})
	c.Sample(map[string]any{"word": "がゝヾ", "furigana": memo["がゝヾ"]})
	c.Assume("the segmentation, readings and word classes of the IPADIC dictionary are right")
}

// ----------------------------------------------------------------------------
// C25

func checkPinyin(c *Ctx) {
	c.Rule = "a case is a text for the pinyin Translit: every character of the Unicode planes 0 to 3 alone and between others, all orders of Hanzi, foreign text and spaces up to five parts, random mixtures, and compatibility and decomposed forms; non-trivial if it has a character with a reading. Observed: the result against a model over the same readings (first toneless reading of each Hanzi, runs of other text, one U+200B between parts), that it has as many parts as expected, that nothing is lost, and that composed and decomposed forms agree"
	t := pinyin.T
	test := func(word string) bool {
		got, err := transliterate(c, t, word)
		want := model.Pinyin(word)
		key, kept := "", ""
		for _, ch := range norm.NFC.String(word) {
			if model.PinyinReading(ch) != "" {
				key = word
			} else {
				kept += string(ch)
			}
		}
		c.Case(key)
		if err != nil || got != want {
			c.Fail("the Pinyin differs", map[string]any{"word": word, "result": got, "want": want, "err": fmt.Sprint(err)})
			return false
		}
		if key == "" && utf8.ValidString(word) && got != norm.NFC.String(word) {
			c.Fail("text without Hanzi isn't kept", map[string]any{"word": word, "result": got})
			return false
		}
		return true
	}
	var hanzi []rune
	Parallel(0x40000/1024, func(k int) {
		var mine []rune
		for ch := rune(k * 1024); ch < rune(k*1024+1024) && !c.Failed(); ch++ {
			if 0xd800 <= ch && ch < 0xe000 {
				continue
			}
			s := string(ch)
			test(s)
			if model.PinyinReading([]rune(norm.NFC.String(s))[0]) == "" && ch%37 != 0 {
				continue
			}
			test("中" + s + "国")
			test("a" + s + "b")
			test(s + s)
			test(s + " " + s)
			test(norm.NFD.String(s))
			if model.PinyinReading(ch) != "" {
				mine = append(mine, ch)
			}
		}
		c.mu.Lock()
		hanzi = append(hanzi, mine...)
		c.mu.Unlock()
	})
	if c.Failed() {
		return
	}
	sort.Slice(hanzi, func(i, j int) bool { return hanzi[i] < hanzi[j] })
	c.Extra("hanzi", len(hanzi))
	// The first reading, in lower case, without a tone.
	for _, h := range hanzi {
		got, err := transliterate(c, t, string(h))
		ok := err == nil && got != ""
		for _, ch := range got {
			ok = ok && (unicode.IsLower(ch) && (ch < 0x80 || strings.ContainsRune("üêḿńňǹ\u0304\u030c", ch)) || unicode.Is(unicode.Mn, ch))
		}
		c.Case("")
		if !ok {
			c.Fail("a Hanzi isn't written as a toneless syllable", map[string]any{"hanzi": string(h), "result": got, "err": fmt.Sprint(err)})
			break
		}
	}
	// All orders of parts.
	alphabet := []string{"北", "京", "a", "é", " ", "\u200b", "1", "ア", "豈", "가", "e\u0301"}
	var seqs []string
	var walk func(w string, d int)
	walk = func(w string, d int) {
		seqs = append(seqs, w)
		if d == 0 {
			return
		}
		for _, a := range alphabet {
			walk(w+a, d-1)
		}
	}
	walk("", c.N(4, 5))
	Parallel(len(seqs), func(i int) {
		if !c.Failed() {
			test(seqs[i])
		}
	})
	n, chunks := c.N(60000, 2000000), 64
	Parallel(chunks, func(k int) {
		r := c.Rng(fmt.Sprintf("mix/%d", k))
		for i := 0; i < n/chunks && !c.Failed(); i++ {
			w := ""
			for m := 1 + r.Intn(10); m > 0; m-- {
				switch r.Intn(8) {
				case 0:
					w += pick(r, alphabet)
				case 1:
					w += string(randomRune(r))
				case 2:
					w += string(rune(0xf900 + r.Intn(0x200)))
				case 3:
					w += string(rune(0x2f800 + r.Intn(0x220)))
				default:
					w += string(pickRune(r, hanzi))
				}
			}
			if r.Intn(10) == 0 {
				w += randomBytes(r, 1+r.Intn(3))
			}
			if r.Intn(1000) == 0 {
				w = strings.Repeat(w, 1+r.Intn(500))
			}
			if r.Intn(8) == 0 {
				nfd := norm.NFD.String(w)
				a, _ := transliterate(c, t, w)
				b, _ := transliterate(c, t, nfd)
				if a != b && utf8.ValidString(w) {
					c.Fail("composed and decomposed forms differ", map[string]any{"word": w, "result": a, "decomposed": b})
				}
			}
			test(w)
		}
	})
	c.Sample(map[string]any{"word": "北京 a京", "pinyin": model.Pinyin("北京 a京")})
	c.Assume("the readings of the go-pinyin dictionary are right")
}
