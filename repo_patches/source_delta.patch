From 5cc20ee281583246a16fff426862a20923e65726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 01/41] fix: guard the spec cache against concurrent use

LoadSpec, UnloadSpec and Hangulize read and write the package-level spec cache
without synchronization, so concurrent Hangulize calls crash with
"concurrent map read and map write".
---
 specs.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/specs.go b/specs.go
index ea2d727..3cfb9f1 100644
--- a/specs.go
+++ b/specs.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/pkg/errors"
 )
@@ -34,12 +35,18 @@ func ListLangs() []string {
 	return langs
 }
 
-// Cached specs.
-var specs = make(map[string]*Spec)
+// Cached specs. specsLock guards them.
+var (
+	specs     = make(map[string]*Spec)
+	specsLock sync.Mutex
+)
 
 // LoadSpec finds a bundled spec by the given language name.
 // Once it loads a spec, it will cache the spec.
 func LoadSpec(lang string) (*Spec, error) {
+	specsLock.Lock()
+	defer specsLock.Unlock()
+
 	var spec *Spec
 
 	spec, ok := specs[lang]
@@ -69,5 +76,8 @@ func LoadSpec(lang string) (*Spec, error) {
 
 // UnloadSpec flushes a cached spec to get free memory.
 func UnloadSpec(lang string) {
+	specsLock.Lock()
+	defer specsLock.Unlock()
+
 	delete(specs, lang)
 }
-- 
2.43.0


From 38398da61e22a813482f595dd32966ea34b20b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 02/41] fix: guard the Translit registries against concurrent
 use

UseTranslit and UnuseTranslit wrote the registry map while Hangulize and
Translits iterate over it in other goroutines.
---
 translit.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/translit.go b/translit.go
index 7a821e7..9614408 100644
--- a/translit.go
+++ b/translit.go
@@ -1,5 +1,7 @@
 package hangulize
 
+import "sync"
+
 // Translit is an interface for a transliterator. It may convert a word from
 // one script to another script. It also may guess phonograms from the spelling
 // based on lexical analysis.
@@ -14,8 +16,14 @@ type Translit interface {
 // translitRegistry is a registry holding Translits.
 type translitRegistry map[string]Translit
 
+// translitLock guards the content of every translitRegistry.
+var translitLock sync.RWMutex
+
 // Detach copies the registry as map[string]Translit.
 func (r translitRegistry) Detach() map[string]Translit {
+	translitLock.RLock()
+	defer translitLock.RUnlock()
+
 	copied := make(map[string]Translit, len(r))
 	for m, t := range r {
 		copied[m] = t
@@ -27,6 +35,9 @@ func (r translitRegistry) Detach() map[string]Translit {
 func (r translitRegistry) Add(t Translit) bool {
 	scheme := t.Scheme()
 
+	translitLock.Lock()
+	defer translitLock.Unlock()
+
 	if _, ok := r[scheme]; ok {
 		// already exists
 		return false
@@ -38,6 +49,9 @@ func (r translitRegistry) Add(t Translit) bool {
 
 // Remove deregisters a Translit from the registry.
 func (r translitRegistry) Remove(scheme string) bool {
+	translitLock.Lock()
+	defer translitLock.Unlock()
+
 	_, ok := r[scheme]
 	if ok {
 		delete(r, scheme)
-- 
2.43.0


From 86e263a1cb1aa4e689998e925cd37333ee21786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 03/41] fix: initialize the Kagome tokenizer only once under
 concurrency

The first concurrent Transliterate calls raced on the lazily created tokenizer.
---
 translit/furigana/furigana.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/furigana.go b/translit/furigana/furigana.go
index a159318..0233333 100644
--- a/translit/furigana/furigana.go
+++ b/translit/furigana/furigana.go
@@ -6,6 +6,8 @@ converted to Kana. This Translit uses IPADIC in Kagome to analyze Kanji.
 package furigana
 
 import (
+	"sync"
+
 	"github.com/hangulize/hangulize"
 	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
 	"golang.org/x/text/unicode/norm"
@@ -17,20 +19,21 @@ var T hangulize.Translit = &furigana{}
 // ----------------------------------------------------------------------------
 
 type furigana struct {
+	once   sync.Once
 	kagome *kagome.Tokenizer
 }
 
-func (furigana) Scheme() string {
+func (*furigana) Scheme() string {
 	return "furigana"
 }
 
 // ensureKagome caches a Kagome tokenizer because it is expensive.
 func (p *furigana) ensureKagome() *kagome.Tokenizer {
-	if p.kagome == nil {
+	p.once.Do(func() {
 		// It may take a while.
 		k := kagome.New()
 		p.kagome = &k
-	}
+	})
 	return p.kagome
 }
 
-- 
2.43.0


From bf6d33091051c74f118ae9b6c0e61101acde7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 04/41] fix: prefer the longest spelling in the Cyrillic
 transliteration

The replacer was built in random map order, so a digraph such as "sh" or "yo"
was transliterated differently from process to process.
---
 translit/cyrillic/cyrillic.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/translit/cyrillic/cyrillic.go b/translit/cyrillic/cyrillic.go
index 3d6e059..25e0081 100644
--- a/translit/cyrillic/cyrillic.go
+++ b/translit/cyrillic/cyrillic.go
@@ -2,6 +2,7 @@ package cyrillic
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hangulize/hangulize"
@@ -25,9 +26,20 @@ func mustNew(country string) hangulize.Translit {
 		panic(fmt.Errorf("cyrillic: invalid country: %s", country))
 	}
 
-	oldnew := make([]string, 0, len(mapping.ToCyrillic)*2)
-	for src, dst := range mapping.ToCyrillic {
-		oldnew = append(oldnew, src, dst)
+	srcs := make([]string, 0, len(mapping.ToCyrillic))
+	for src := range mapping.ToCyrillic {
+		srcs = append(srcs, src)
+	}
+
+	// strings.Replacer prefers an earlier pair. The longest spelling should
+	// win: "shh" is "щ" rather than "с" followed by "hh".
+	sort.Slice(srcs, func(i, j int) bool {
+		return len(srcs[i]) > len(srcs[j])
+	})
+
+	oldnew := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
 	}
 	repl := strings.NewReplacer(oldnew...)
 
-- 
2.43.0


From 7725779f0c0ac20f9ac5806718575feef2c44c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 05/41] fix: read the documented "author" key into
 Config.Authors

Every bundled spec and the package documentation spell the key "author" but the
parser looked up "authors", so Config.Authors was always empty.
---
 spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec.go b/spec.go
index 3a97367..13effab 100644
--- a/spec.go
+++ b/spec.go
@@ -260,7 +260,7 @@ type Config struct {
 
 func newConfig(dict *hsl.DictSection) (*Config, error) {
 	config := Config{
-		Authors: dict.All("authors"),
+		Authors: dict.All("author"),
 		Stage:   dict.One("stage"),
 	}
 	return &config, nil
-- 
2.43.0


From 03c7810037b7adab3cf2b577e0e10283e2a08d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 06/41] fix: decode the base letter of a decomposed Latin
 letter as a rune
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Latn.Normalize took the first byte of the decomposition as the base letter, so
"ǽ" became "ã" rather than "æ".
---
 internal/scripts/latn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/scripts/latn.go b/internal/scripts/latn.go
index edfe7b9..03abaf7 100644
--- a/internal/scripts/latn.go
+++ b/internal/scripts/latn.go
@@ -2,6 +2,7 @@ package scripts
 
 import (
 	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/text/unicode/norm"
 )
@@ -23,7 +24,7 @@ func (Latn) Normalize(ch rune) rune {
 	props := norm.NFD.PropertiesString(string(ch))
 	bin := props.Decomposition()
 	if len(bin) != 0 {
-		ch = rune(bin[0])
+		ch, _ = utf8.DecodeRune(bin)
 	}
 	return unicode.ToLower(ch)
 }
-- 
2.43.0


From 6d6701c8960a0eaea7b0b85ea8e34edbbd4ec21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 07/41] fix: don't take a NUL character for the end of an HSL
 text

The lexer used U+0000 as the end-of-file mark, so everything after a NUL
character was silently ignored.
---
 pkg/hsl/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3ab27d5..3256f83 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -21,7 +21,8 @@ func newLexer(r io.Reader) *lexer {
 	return &lexer{bufio.NewReader(r), 1, 1}
 }
 
-const eof = rune(0)
+// eof is not a valid rune so that it can't be confused with any character.
+const eof = rune(-1)
 
 // Line returns the current line number.
 func (l lexer) Line() int {
-- 
2.43.0


From 6c2d62984e4eded7318bdb15b3e42712cc9adae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 08/41] fix: reject an unterminated quoted string in HSL

The lexer kept appending the end-of-file mark to the string forever, so parsing
an unterminated string never returned and exhausted the memory.
---
 pkg/hsl/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3256f83..860ca00 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -155,6 +155,11 @@ func (l *lexer) scanQuotedString() (token, string) {
 	for {
 		ch := l.read()
 
+		if ch == eof {
+			// The quote has not been closed.
+			return Illegal, buf.String()
+		}
+
 		if ch == '"' {
 			if escaped {
 				escaped = false
-- 
2.43.0


From 123676b7269ec991a530b9300a72bf43b9abbe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 09/41] fix: report a lone hyphen in HSL as an illegal token

Parse panicked with "not ->" instead of returning an error.
---
 pkg/hsl/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 860ca00..d2e1d2b 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -188,9 +188,13 @@ func (l *lexer) scanArrow() (token, string) {
 	first := l.read()
 	second := l.read()
 
-	if first != '-' || second != '>' {
+	if first != '-' {
 		panic("not ->")
 	}
+	if second != '>' {
+		l.unread()
+		return Illegal, string(first)
+	}
 
 	return Arrow, "->"
 }
-- 
2.43.0


From 18fc040d053b8ad890670b54cbbd89d56c801e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:54 +0000
Subject: [PATCH 10/41] fix: return an error for a duplicated key in HSL

Parse panicked on a key duplicated in a dictionary section though it returns an
error.
---
 pkg/hsl/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 50a4fe4..df48191 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -100,7 +100,7 @@ func (p *parser) parse() (HSL, error) {
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-				panic(fmt.Errorf("failed to add pair: %w", err))
+				return nil, fmt.Errorf("failed to add pair: %w", err)
 			}
 
 			continue
-- 
2.43.0


From 49a9bd9dd25af41c5be8cefecb01481705dad0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 11/41] fix: end the HSL values at a trailing comment

A comment token includes its newline, so the pair after a commented pair was
merged into the values of the commented pair. The example in the package
documentation (codes = "it", "ita" # ISO 639-1 and 3 codes) was not parsable.
---
 pkg/hsl/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index df48191..a559ff5 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -122,7 +122,8 @@ func (p *parser) parseValues() ([]string, error) {
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-			continue
+			// A comment consumes the newline which ends the values.
+			break
 		}
 
 		// Collect strings in values.
-- 
2.43.0


From 25ffe7066eda9e34357c99b4ccc062f8b53b3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 12/41] fix: report a reading error while parsing HSL

An I/O error was taken for the end of the file, so a partially read spec was
accepted silently.
---
 pkg/hsl/lexer.go  | 12 +++++++++++-
 pkg/hsl/parser.go |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index d2e1d2b..957eae2 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -14,11 +14,14 @@ type lexer struct {
 
 	line     int
 	prevLine int
+
+	// err is the first reading error other than io.EOF.
+	err error
 }
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{bufio.NewReader(r), 1, 1}
+	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
 }
 
 // eof is not a valid rune so that it can't be confused with any character.
@@ -31,9 +34,16 @@ func (l lexer) Line() int {
 
 // read reads the rune on the buffer cursor.
 func (l *lexer) read() rune {
+	if l.err != nil {
+		return eof
+	}
+
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
+		if err != io.EOF {
+			l.err = err
+		}
 		return eof
 	}
 
diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index a559ff5..1620731 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -107,6 +107,10 @@ func (p *parser) parse() (HSL, error) {
 		}
 	}
 
+	if p.lexer.err != nil {
+		return nil, fmt.Errorf("parse: %w", p.lexer.err)
+	}
+
 	return hsl, nil
 }
 
-- 
2.43.0


From 4d8b1e33d7f9ef5a3d6229611db5a5821a5b9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 13/41] fix: return an error for a malformed section in
 ParseSpec

ParseSpec panicked on a dictionary section written as a pair list or vice versa
and on a pair without any right value.
---
 spec.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/spec.go b/spec.go
index 13effab..17e075c 100644
--- a/spec.go
+++ b/spec.go
@@ -67,6 +67,10 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 		return nil, errors.Wrap(err, "failed to parse HSL source")
 	}
 
+	if err := checkSections(h); err != nil {
+		return nil, errors.Wrap(err, "malformed spec")
+	}
+
 	source := sourceBuf.String()
 
 	// -------------------------------------------------------------------------
@@ -210,6 +214,39 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// checkSections tests if every section of a spec has the proper form.
+func checkSections(h hsl.HSL) error {
+	for _, name := range []string{"lang", "config", "macros", "vars", "normalize"} {
+		sec, ok := h[name]
+		if !ok {
+			continue
+		}
+
+		if _, ok := sec.(*hsl.DictSection); !ok {
+			return errors.Errorf("%s must be a dictionary section", name)
+		}
+	}
+
+	for _, name := range []string{"rewrite", "transcribe", "test"} {
+		sec, ok := h[name]
+		if !ok {
+			continue
+		}
+
+		if _, ok := sec.(*hsl.ListSection); !ok {
+			return errors.Errorf("%s must be a pair list section", name)
+		}
+
+		for _, pair := range sec.Pairs() {
+			if len(pair.Right()) == 0 {
+				return errors.Errorf("%s has a pair without right: %#v", name, pair.Left())
+			}
+		}
+	}
+
+	return nil
+}
+
 // -----------------------------------------------------------------------------
 // "lang" section
 
-- 
2.43.0


From a55f0adaf0c0808e6686fb2902914a11b1aa4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 14/41] fix: measure a negative lookaround in characters within
 the word

The width of a negative lookaround counts characters but it was used as a number
of bytes, so a negative lookaround for non-ASCII letters never worked. And a
negative lookbehind wider than the preceding text was ignored.
---
 pkg/hre/pattern.go |  4 ++--
 pkg/hre/util.go    | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 74c7e19..50292a4 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -227,7 +227,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negAWidth == -1 {
 				negAStop = len(word)
 			} else {
-				negAStop = m[lenM-4] + p.negAWidth
+				negAStop = skipRunes(word, m[lenM-4], p.negAWidth)
 			}
 
 			if p.negA.MatchString(substr(word, negAStart, negAStop)) {
@@ -243,7 +243,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negBWidth == -1 {
 				negBStart = 0
 			} else {
-				negBStart = m[5] - p.negBWidth
+				negBStart = skipRunesBack(word, m[5], p.negBWidth)
 			}
 
 			if p.negB.MatchString(substr(word, negBStart, negBStop)) {
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 6949e9d..b30d0a7 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -3,6 +3,7 @@ package hre
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // indexOf finds the index of the given value in a string array. It returns -1
@@ -37,6 +38,25 @@ func substr(s string, start int, stop int) string {
 	return ""
 }
 
+// skipRunes returns the byte offset after up to n characters from the offset i.
+func skipRunes(s string, i int, n int) int {
+	for ; n > 0 && 0 <= i && i < len(s); n-- {
+		_, size := utf8.DecodeRuneInString(s[i:])
+		i += size
+	}
+	return i
+}
+
+// skipRunesBack returns the byte offset before up to n characters from the
+// offset i.
+func skipRunesBack(s string, i int, n int) int {
+	for ; n > 0 && 0 < i && i <= len(s); n-- {
+		_, size := utf8.DecodeLastRuneInString(s[:i])
+		i -= size
+	}
+	return i
+}
+
 // captured returns the captured substring by their group number.
 func captured(s string, m []int, n int) string {
 	i := n * 2
-- 
2.43.0


From d3c97abaa7bf736677bc76c9941b86d9d5035479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 15/41] fix: keep the unlimited width of a repeated regexp

RegexpMaxWidth multiplied the unlimited width, -1, by the number of repeats. So
it returned -2 for "(?:a*){2}".
---
 pkg/hre/width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/width.go b/pkg/hre/width.go
index 8153322..a43cb0e 100644
--- a/pkg/hre/width.go
+++ b/pkg/hre/width.go
@@ -54,7 +54,11 @@ func RegexpMaxWidth(re *syntax.Regexp) int {
 		if re.Max == -1 {
 			return -1
 		}
-		return re.Max * RegexpMaxWidth(re.Sub0[0])
+		n := RegexpMaxWidth(re.Sub0[0])
+		if n == -1 {
+			return -1
+		}
+		return re.Max * n
 
 	case syntax.OpConcat:
 		// matches concatenation of Subs
-- 
2.43.0


From 6cf73fc37b23c3662f03d636645fc0d509ef39d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 16/41] fix: apply overlapping macros and normalizations in a
 fixed order

The replacers were built in random map order. So when a macro or a normalized
letter is a prefix of another one, the same spec behaved differently from time
to time. The longest one wins now.
---
 pkg/hre/macro.go | 15 +++++++++++++--
 spec.go          | 22 ++++++++++++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/pkg/hre/macro.go b/pkg/hre/macro.go
index 43f67ae..bb3a86e 100644
--- a/pkg/hre/macro.go
+++ b/pkg/hre/macro.go
@@ -1,18 +1,29 @@
 package hre
 
 import (
+	"sort"
 	"strings"
 )
 
 // expandMacros replaces macro sources to corresponding targets.
 func expandMacros(expr string, macros map[string]string) string {
+	srcs := make([]string, 0, len(macros))
+	for src := range macros {
+		srcs = append(srcs, src)
+	}
+
+	// strings.Replacer prefers an earlier pair. The longest source wins.
+	sort.Slice(srcs, func(i, j int) bool {
+		return len(srcs[i]) > len(srcs[j])
+	})
+
 	args := make([]string, len(macros)*2)
 
 	i := 0
-	for src, dst := range macros {
+	for _, src := range srcs {
 		args[i] = src
 		i++
-		args[i] = dst
+		args[i] = macros[src]
 		i++
 	}
 
diff --git a/spec.go b/spec.go
index 17e075c..11ede93 100644
--- a/spec.go
+++ b/spec.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -169,11 +170,28 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	puncts := collectPuncts(rewrite, transcribe)
 
 	// custom normalization
-	var args []string
+	var pairs [][2]string
 	for to, froms := range normalize {
 		for _, from := range froms {
-			args = append(args, from, to)
+			pairs = append(pairs, [2]string{from, to})
+		}
+	}
+
+	// strings.Replacer prefers an earlier pair. The longest one wins.
+	sort.Slice(pairs, func(i, j int) bool {
+		a, b := pairs[i], pairs[j]
+		if len(a[0]) != len(b[0]) {
+			return len(a[0]) > len(b[0])
 		}
+		if a[0] != b[0] {
+			return a[0] < b[0]
+		}
+		return a[1] < b[1]
+	})
+
+	var args []string
+	for _, pair := range pairs {
+		args = append(args, pair[0], pair[1])
 	}
 	normReplacer := strings.NewReplacer(args...)
 
-- 
2.43.0


From eac9373dac9b10a07fd9ec3d2daab7542dcd0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 17/41] fix: don't map variables in a lookaround to the
 replacement

---
 pkg/hre/pattern.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 50292a4..6d6b5e4 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -73,7 +73,12 @@ func NewPattern(
 
 	reExpr = expandMacros(reExpr, macros)
 
-	reExpr, usedVars := expandVars(reExpr, vars)
+	// Vars in the lookaround have no capturing group to be mapped.
+	coreExpr := reLookbehind.ReplaceAllString(reExpr, ``)
+	coreExpr = reLookahead.ReplaceAllString(coreExpr, ``)
+	_, usedVars := expandVars(coreExpr, vars)
+
+	reExpr, _ = expandVars(reExpr, vars)
 
 	reExpr, negAExpr, negBExpr, negAWidth, negBWidth, err :=
 		expandLookaround(reExpr)
-- 
2.43.0


From a6ca66617084069d45edd1d87205f192cc8c85fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 18/41] fix: return an error when a var has no value to map

---
 pkg/hre/rpattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index 42554b3..9d0e36a 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -120,6 +120,10 @@ func (rp *RPattern) Interpolate(
 
 			// Find index of the matched character in the var.
 			i := indexOf(fromVal, fromVar)
+			if i == -1 || len(part.usedVar) == 0 {
+				err := errors.Errorf("no value to map %#v by %s", fromVal, part.lit)
+				return "", err
+			}
 			i = i % len(part.usedVar)
 
 			// Choose a replacement character at the same index.
-- 
2.43.0


From d96cbac28cc08851b1c7d00b4609b73832336ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 19/41] fix: read every word from the standard input

---
 cmd/hangulize/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 4376230..bf01670 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -84,11 +84,13 @@ func readWords(ch chan<- string, args []string) {
 		reader := bufio.NewReader(os.Stdin)
 		for {
 			word, err := reader.ReadString('\n')
+			word = strings.TrimSpace(word)
+			if word != "" {
+				ch <- word
+			}
 			if err != nil {
 				break
 			}
-			word = strings.TrimSpace(word)
-			ch <- word
 		}
 	} else {
 		for _, word := range args[1:] {
-- 
2.43.0


From b832697555ebceb2cfe25509f12e2a0154b949db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 20/41] fix: truncate the previous coverage profile

---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5b3876..009557e 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -110,7 +110,7 @@ var testCmd = &cobra.Command{
 		if testCoverProfile != "" {
 			file, err := os.OpenFile(
 				testCoverProfile,
-				os.O_WRONLY|os.O_CREATE,
+				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
 				0644,
 			)
 			if err != nil {
-- 
2.43.0


From 358f41df53f088b4be4d0a3b9cf18a6377070de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 21/41] fix: install the standard Translits for hangulize test
 and dev

---
 cmd/hangulize/dev.go  | 2 ++
 cmd/hangulize/test.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/hangulize/dev.go b/cmd/hangulize/dev.go
index 7a649ae..4ed291c 100644
--- a/cmd/hangulize/dev.go
+++ b/cmd/hangulize/dev.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -32,6 +33,7 @@ var devCmd = &cobra.Command{
 
 		// Test the spec.
 		h := hangulize.New(spec)
+		translit.Install(h)
 		hangulizeStream(cmd, args, h)
 		return nil
 	},
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index 009557e..c5c6e21 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -62,6 +63,7 @@ var testCmd = &cobra.Command{
 				traces   []hangulize.Trace
 			)
 			h := hangulize.New(spec)
+			translit.Install(h)
 
 			// Run test.
 			for _, exm := range spec.Test {
-- 
2.43.0


From 7472d1e1715f0dde970f913f820a058704e07c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 22/41] fix: cover a spec without rewrite or transcribe rules

---
 cmd/hangulize/cover.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 3c4af39..0abef61 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -79,6 +79,10 @@ func (c *cover) Coverage() float64 {
 		total += len(spec.Transcribe)
 	}
 
+	if total == 0 {
+		return 0.0
+	}
+
 	return float64(len(c.covered)) / float64(total)
 }
 
@@ -128,7 +132,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			cols = append(cols, col)
 		}
 
-		rewritePairs := hsl["rewrite"].Pairs()
+		rewritePairs := sectionPairs(hsl, "rewrite")
 		for _, rule := range spec.Rewrite {
 			line := rewritePairs[rule.ID].Line()
 			col := cols[line-1]
@@ -136,7 +140,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			fmt.Fprintf(w, template, name, line, line, col, covered)
 		}
 
-		transcribePairs := hsl["transcribe"].Pairs()
+		transcribePairs := sectionPairs(hsl, "transcribe")
 		for _, rule := range spec.Transcribe {
 			line := transcribePairs[rule.ID].Line()
 			col := cols[line-1]
@@ -148,6 +152,14 @@ func (c *cover) WriteProfile(w io.Writer) error {
 	return nil
 }
 
+// sectionPairs returns the pairs in the section. A section may be omitted.
+func sectionPairs(h hsl.HSL, name string) []hsl.Pair {
+	if sec, ok := h[name]; ok {
+		return sec.Pairs()
+	}
+	return nil
+}
+
 func btoi(b bool) int {
 	if b {
 		return 1
-- 
2.43.0


From a285d2ac77c1114612138405c3ba62ce4af156df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 23/41] fix: list the Translits in the manifest in a fixed
 order

---
 cmd/manifest.json/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/manifest.json/main.go b/cmd/manifest.json/main.go
index 3f18ec2..b0bca83 100644
--- a/cmd/manifest.json/main.go
+++ b/cmd/manifest.json/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
 	"github.com/hangulize/hangulize"
 )
@@ -81,6 +82,7 @@ func main() {
 	for id := range translitSet {
 		translits = append(translits, id)
 	}
+	sort.Strings(translits)
 
 	b, err := json.Marshal(manifest{version, specs, translits})
 	if err != nil {
-- 
2.43.0


From 836165b087dfc8a96c3e2b8e9059fd7ec1ffafc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 24/41] fix: keep every letter of a normalization target as it
 is

---
 spec.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spec.go b/spec.go
index 11ede93..4e8d653 100644
--- a/spec.go
+++ b/spec.go
@@ -7,7 +7,6 @@ import (
 	"sort"
 	"strings"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/pkg/errors"
 
@@ -198,11 +197,8 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
 	for to := range normalize {
-		more := len(to)
-		for more > 0 {
-			let, size := utf8.DecodeRuneInString(to)
+		for _, let := range to {
 			normLetters[let] = true
-			more -= size
 		}
 	}
 
-- 
2.43.0


From 62ee3113739a9249d5df3e80a489798b96678e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 25/41] fix: keep escaped characters and classes as they are in
 assertions

---
 pkg/hre/assertions.go | 14 ++++++++++----
 pkg/hre/util.go       | 13 +++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index dd2fb4e..890aa0a 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -7,11 +7,11 @@ import (
 )
 
 var (
-	// ^^
-	reLeftEdge = re(`\^+`)
+	// ^^ (or an escaped character or "[^", which is not an edge)
+	reLeftEdge = re(`\\.|\[\^|\^+`)
 
-	// $$
-	reRightEdge = re(`\$+`)
+	// $$ (or an escaped character, which is not an edge)
+	reRightEdge = re(`\\.|\$+`)
 
 	// {...}
 	//  └─┴─ (1)
@@ -200,6 +200,9 @@ func mustNoZeroWidth(expr string) error {
 
 func expandEdges(expr string) string {
 	expr = reLeftEdge.ReplaceAllStringFunc(expr, func(e string) string {
+		if e[0] != '^' {
+			return e
+		}
 		if e == `^` {
 			// "{}" is a zero-width space which is injected by an RPattern.
 			return `(?:^|\s+|{})`
@@ -208,6 +211,9 @@ func expandEdges(expr string) string {
 		return `^`
 	})
 	expr = reRightEdge.ReplaceAllStringFunc(expr, func(e string) string {
+		if e[0] != '$' {
+			return e
+		}
 		if e == `$` {
 			// "{}" is a zero-width space which is injected by an RPattern.
 			return `(?:$|\s+|{})`
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index b30d0a7..d5244fd 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -2,7 +2,6 @@ package hre
 
 import (
 	"regexp"
-	"strings"
 	"unicode/utf8"
 )
 
@@ -65,9 +64,19 @@ func captured(s string, m []int, n int) string {
 
 // noCapture removes capturing groups in a regexp string.
 func noCapture(expr string) string {
-	return strings.Replace(expr, "(", "(?:", -1)
+	return reParen.ReplaceAllStringFunc(expr, func(e string) string {
+		if e == "(" {
+			return "(?:"
+		}
+		// An escaped character, a character class or a non-capturing group.
+		return e
+	})
 }
 
+// reParen matches with an open parenthesis, or something that may contain one
+// which does not open a capturing group.
+var reParen = regexp.MustCompile(`\\.|\[\^?\]?(?:\\.|[^\]\\])*\]|\(\?|\(`)
+
 // -----------------------------------------------------------------------------
 // Verbose Regexp
 
-- 
2.43.0


From ee605bae01e4265b571692289e3102c12d7c6202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 26/41] fix: keep a backslash in a quoted string of HSL

---
 pkg/hsl/lexer.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 957eae2..10f4997 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -170,18 +170,16 @@ func (l *lexer) scanQuotedString() (token, string) {
 			return Illegal, buf.String()
 		}
 
-		if ch == '"' {
-			if escaped {
-				escaped = false
-			} else {
-				break
-			}
+		if ch == '"' && !escaped {
+			break
 		}
 
-		if ch == '\\' {
-			escaped = true
-			continue
+		// A backslash escapes only a quote. Otherwise it stays as it is.
+		if escaped && ch != '"' {
+			buf.WriteRune('\\')
 		}
+
+		escaped = ch == '\\'
 		if escaped {
 			continue
 		}
-- 
2.43.0


From ebdfb86923aa3fd1b64e4e178c19d97a9380a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 27/41] fix: report the reading error instead of a token cut
 off by it

---
 pkg/hsl/lexer.go  | 30 +++++++++++++++++++++---------
 pkg/hsl/parser.go | 17 +++++++++++++----
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 10f4997..63f50b1 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -15,13 +15,32 @@ type lexer struct {
 	line     int
 	prevLine int
 
-	// err is the first reading error other than io.EOF.
+	source *source
+}
+
+// source remembers the first reading error other than io.EOF.
+type source struct {
+	r   io.Reader
 	err error
 }
 
+// Read implements io.Reader.
+func (s *source) Read(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+
+	n, err := s.r.Read(p)
+	if err != io.EOF {
+		s.err = err
+	}
+	return n, err
+}
+
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
+	src := &source{r: r}
+	return &lexer{r: bufio.NewReader(src), line: 1, prevLine: 1, source: src}
 }
 
 // eof is not a valid rune so that it can't be confused with any character.
@@ -34,16 +53,9 @@ func (l lexer) Line() int {
 
 // read reads the rune on the buffer cursor.
 func (l *lexer) read() rune {
-	if l.err != nil {
-		return eof
-	}
-
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
-		if err != io.EOF {
-			l.err = err
-		}
 		return eof
 	}
 
diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 1620731..7ff36b4 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -23,6 +23,15 @@ func (p *parser) scan() (token, string, int) {
 	return tok, lit, line
 }
 
+// illegal returns an error for an illegal token. If reading has failed, the
+// token may be illegal just because it has been cut off.
+func (p *parser) illegal(doing, lit string) error {
+	if err := p.lexer.source.err; err != nil {
+		return fmt.Errorf("%s: %w", doing, err)
+	}
+	return fmt.Errorf("%s: %w: %s", doing, errIllegalToken, lit)
+}
+
 // parse ...
 func (p *parser) parse() (HSL, error) {
 	hsl := make(HSL)
@@ -44,7 +53,7 @@ func (p *parser) parse() (HSL, error) {
 
 		// The common behavior for useless tokens.
 		if tok == Illegal {
-			return nil, fmt.Errorf("parse: %w: %s", errIllegalToken, lit)
+			return nil, p.illegal("parse", lit)
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
@@ -107,8 +116,8 @@ func (p *parser) parse() (HSL, error) {
 		}
 	}
 
-	if p.lexer.err != nil {
-		return nil, fmt.Errorf("parse: %w", p.lexer.err)
+	if err := p.lexer.source.err; err != nil {
+		return nil, fmt.Errorf("parse: %w", err)
 	}
 
 	return hsl, nil
@@ -122,7 +131,7 @@ func (p *parser) parseValues() ([]string, error) {
 
 		// The common behavior for useless tokens.
 		if tok == Illegal {
-			return nil, fmt.Errorf("parse values: %w: %s", errIllegalToken, lit)
+			return nil, p.illegal("parse values", lit)
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-- 
2.43.0


From f6594a32b7e6c4a1f853c65c4924382637bd838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 28/41] fix: return an error for a bad negative lookaround

---
 pkg/hre/assertions.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 890aa0a..23956cb 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -97,11 +97,10 @@ func dissolveLookaround(
 		if !hasEdge {
 			negExpr = fmt.Sprintf(format, lookExpr[1:])
 
-			re, err := syntax.Parse(negExpr, syntax.Perl)
-			if err != nil {
-				return ``, ``, 0, false
+			// NewPattern reports an error when it compiles a bad negExpr.
+			if re, err := syntax.Parse(negExpr, syntax.Perl); err == nil {
+				negWidth = RegexpMaxWidth(re)
 			}
-			negWidth = RegexpMaxWidth(re)
 		}
 
 		return ``, negExpr, negWidth, true
-- 
2.43.0


From fcc1037b6a4f7d8047fc9310252d74066575a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 29/41] fix: fail an example which can't be transcribed

An error was printed, but an example expecting an empty result passed.
---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5c6e21..f007292 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -90,7 +90,7 @@ var testCmd = &cobra.Command{
 					}
 				}
 
-				if result == expected {
+				if err == nil && result == expected {
 					continue
 				}
 
-- 
2.43.0


From 5be56bbb3acb82b3144074bd61f3be4868c7c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 30/41] fix: write the coverage profile of a spec with a long
 line

A line longer than 64 KiB ended the scan, and the rules at or after it crashed
the command.
---
 cmd/hangulize/cover.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 0abef61..712cc58 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/hangulize/hangulize"
@@ -127,6 +128,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 
 		cols := make([]int, 0)
 		scanner := bufio.NewScanner(file)
+		scanner.Buffer(nil, math.MaxInt) // a line may be of any length
 		for scanner.Scan() {
 			col := len(scanner.Text()) + 1
 			cols = append(cols, col)
-- 
2.43.0


From b75d01962762cbcebaf35fa2aeae03812c09899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:28 +0000
Subject: [PATCH 31/41] fix: survive a JavaScript Translit which throws or
 rejects with any value

An exception thrown by the function, a rejection by something other than an
object, or a result which is not a Promise ended the whole WebAssembly program.
---
 cmd/hangulize.wasm/translit.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/hangulize.wasm/translit.go b/cmd/hangulize.wasm/translit.go
index 17e7c86..00339fc 100644
--- a/cmd/hangulize.wasm/translit.go
+++ b/cmd/hangulize.wasm/translit.go
@@ -38,12 +38,13 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 	})
 
 	catch := js.FuncOf(func(this js.Value, args []js.Value) any {
-		err := errors.New(args[0].Get("message").String())
-		catchCh <- err
+		catchCh <- errors.New(jsErrorMessage(args[0]))
 		return nil
 	})
 
-	p.fn.Invoke(word).Call("then", then).Call("catch", catch)
+	// The function is called in a Promise so that an exception rejects it.
+	promise := js.Global().Get("Promise").Call("resolve", word)
+	promise.Call("then", p.fn).Call("then", then).Call("catch", catch)
 
 	select {
 	case result := <-thenCh:
@@ -53,6 +54,15 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 	}
 }
 
+// jsErrorMessage returns the message of a thrown JavaScript value which is not
+// necessarily an Error.
+func jsErrorMessage(err js.Value) string {
+	if err.InstanceOf(js.Global().Get("Error")) {
+		return err.Get("message").String()
+	}
+	return js.Global().Get("String").Invoke(err).String()
+}
+
 // jsUseTranslit wraps hangulize.UseTranslit in JavaScript.
 //
 //	useTranslit(scheme: string, fn: (word: string) => Promise<string>) => boolean
-- 
2.43.0


From b80ba0fd9bd64fa3bf1b9d2d4bd8d6cf4a7efbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 32/41] fix: reject the promise if the trace function throws

The exception ended the whole WebAssembly program.
---
 cmd/hangulize.wasm/hangulize.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/hangulize.wasm/hangulize.go b/cmd/hangulize.wasm/hangulize.go
index 95e964a..cfda76f 100644
--- a/cmd/hangulize.wasm/hangulize.go
+++ b/cmd/hangulize.wasm/hangulize.go
@@ -31,6 +31,17 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		// Blocking code needs a new goroutine to avoid deadlock in a
 		// JavaScript build.
 		go func() {
+			// An exception in the trace function rejects the promise.
+			defer func() {
+				if r := recover(); r != nil {
+					err, ok := r.(js.Error)
+					if !ok {
+						panic(r)
+					}
+					reject.Invoke(err.Value)
+				}
+			}()
+
 			spec, err := hangulize.LoadSpec(lang)
 			if err != nil {
 				throw(err)
-- 
2.43.0


From 5e9cb0b055cfbf307632a9de570fc3b85c14af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 33/41] fix: return an error for an unknown scheme in the
 Cyrillic WebAssembly

It ended the program by a nil dereference.
---
 cmd/cyrillic.translit.wasm/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/cyrillic.translit.wasm/main.go b/cmd/cyrillic.translit.wasm/main.go
index 1136197..b6e3de3 100644
--- a/cmd/cyrillic.translit.wasm/main.go
+++ b/cmd/cyrillic.translit.wasm/main.go
@@ -15,7 +15,12 @@ var jsTransliterate = js.FuncOf(func(this js.Value, args []js.Value) any {
 	scheme := args[0].String()
 	word := args[1].String()
 
-	result, err := translits[scheme].Transliterate(word)
+	translit, ok := translits[scheme]
+	if !ok {
+		return js.Global().Get("Error").New("no translit: " + scheme)
+	}
+
+	result, err := translit.Transliterate(word)
 	if err != nil {
 		return js.Global().Get("Error").New(err.Error())
 	}
-- 
2.43.0


From 3ff69efa628b9b45ba0912cc768c862336c35ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 34/41] fix: drop the result of an input which was cleared in
 the web app

---
 web/src/hangulize/useHangulize.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/src/hangulize/useHangulize.ts b/web/src/hangulize/useHangulize.ts
index 49a6b69..1038541 100644
--- a/web/src/hangulize/useHangulize.ts
+++ b/web/src/hangulize/useHangulize.ts
@@ -119,6 +119,9 @@ export function useHangulize(): [Hangulize, SetHangulizeInput] {
   useEffect(() => {
     async function hangulizeEffect() {
       if (!hangulize.isValidInput(input)) {
+        // Drop the job in flight.
+        target.current = { lang: '', word: '' }
+
         setResult('')
         setState(HangulizeState.IDLE)
 
-- 
2.43.0


From 0d9c2d1f145229a88d7f3d5e825a9e03639634fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 35/41] fix: a dot in a transcribe rule matched the masks of
 transcribed letters

---
 procedure.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/procedure.go b/procedure.go
index 112846f..b09daf9 100644
--- a/procedure.go
+++ b/procedure.go
@@ -193,7 +193,13 @@ func (p procedure) transcribe(subwords []subword.Subword) []subword.Subword {
 		dummy := subword.NewReplacer(word, 0, 0)
 
 		for _, rule := range p.spec.Transcribe {
-			repls := rule.replacements(word)
+			var repls []subword.Replacement
+			for _, repl := range rule.replacements(word) {
+				// "." or "[^...]" also matches the masks.
+				if !strings.Contains(word[repl.Start:repl.Stop], "\x00") {
+					repls = append(repls, repl)
+				}
+			}
 			rep.ReplaceBy(repls...)
 
 			for _, repl := range repls {
-- 
2.43.0


From f427fb2541c43893854987cf5e75e85c6112a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 36/41] fix: a group before a var in a pattern shifted the
 mapping of vars

---
 pkg/hre/pattern.go  |  6 +++++-
 pkg/hre/rpattern.go |  7 ++++++-
 pkg/hre/var.go      | 18 ++++++++++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 6d6b5e4..f221b15 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -49,6 +49,9 @@ type Pattern struct {
 
 	// References to expanded vars.
 	usedVars [][]string
+
+	// Indices of the capturing groups for the expanded vars.
+	varGroups []int
 }
 
 func (p *Pattern) String() string {
@@ -77,6 +80,7 @@ func NewPattern(
 	coreExpr := reLookbehind.ReplaceAllString(reExpr, ``)
 	coreExpr = reLookahead.ReplaceAllString(coreExpr, ``)
 	_, usedVars := expandVars(coreExpr, vars)
+	varGroups := findVarGroups(coreExpr)
 
 	reExpr, _ = expandVars(reExpr, vars)
 
@@ -121,7 +125,7 @@ func NewPattern(
 		}
 	}
 
-	p := &Pattern{expr, re, negA, negB, negAWidth, negBWidth, letters, usedVars}
+	p := &Pattern{expr, re, negA, negB, negAWidth, negBWidth, letters, usedVars, varGroups}
 	return p, nil
 }
 
diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index 9d0e36a..b39905b 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -116,7 +116,12 @@ func (rp *RPattern) Interpolate(
 				return "", err
 			}
 			fromVar := p.usedVars[varIndex]
-			fromVal := captured(word, m, varIndex+1)
+			group := p.varGroups[varIndex]
+			if group*2+1 >= len(m) {
+				err := errors.Errorf("no group for a var in %#v", p.expr)
+				return "", err
+			}
+			fromVal := captured(word, m, group)
 
 			// Find index of the matched character in the var.
 			i := indexOf(fromVal, fromVar)
diff --git a/pkg/hre/var.go b/pkg/hre/var.go
index ea76aaf..a79033c 100644
--- a/pkg/hre/var.go
+++ b/pkg/hre/var.go
@@ -33,6 +33,24 @@ func expandVars(expr string, vars map[string][]string) (string, [][]string) {
 	return expr, usedVars
 }
 
+// findVarGroups returns the indices of the capturing groups which expandVars
+// makes. The expression may have its own groups before them.
+func findVarGroups(expr string) []int {
+	var groups []int
+
+	for i, m := range reVar.FindAllStringIndex(expr, -1) {
+		group := i + 1
+		for _, e := range reParen.FindAllString(expr[:m[0]], -1) {
+			if e == "(" {
+				group++
+			}
+		}
+		groups = append(groups, group)
+	}
+
+	return groups
+}
+
 // getVar parses a var expression, which looks like "<var>",
 // and returns the var name and values.
 func getVar(expr string, vars map[string][]string) (string, []string) {
-- 
2.43.0


From 20ee1e50bf3bf1db8135055fd3c71c410604f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 37/41] fix: escape the word in the links of the web app's
 examples

---
 web/src/components/Examples.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/src/components/Examples.tsx b/web/src/components/Examples.tsx
index 9fbc5f0..c2db8a6 100644
--- a/web/src/components/Examples.tsx
+++ b/web/src/components/Examples.tsx
@@ -34,7 +34,7 @@ export default function Examples({ specs, lang }: ExamplesProps) {
       <label>예시</label> <Icon name="shuffle" link onClick={shuffle} />
       {examples.map((x, i) => {
         return (
-          <Label as={Link} to={`?lang=${lang}&word=${x.word}`} key={i}>
+          <Label as={Link} to={`?lang=${lang}&word=${encodeURIComponent(x.word)}`} key={i}>
             {x.word}
           </Label>
         )
-- 
2.43.0


From 22869efd75f4d6648cf51c8bc8ec0daef5d3c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 38/41] fix: an address with an empty lang changed the language
 of the web app endlessly

---
 web/src/components/App.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/src/components/App.tsx b/web/src/components/App.tsx
index 82d58b0..40015c5 100644
--- a/web/src/components/App.tsx
+++ b/web/src/components/App.tsx
@@ -46,7 +46,7 @@ export default function App() {
 
   useEffect(() => {
     let redirect = false
-    if (!searchParams.has('lang')) {
+    if (!searchParams.get('lang')) {
       searchParams.set('lang', lang)
       redirect = true
     }
-- 
2.43.0


From 9d12191877348783089cc16db90627f003fff0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 39/41] fix: the web app showed an empty result as being loaded

---
 web/src/components/App.tsx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/src/components/App.tsx b/web/src/components/App.tsx
index 40015c5..8d29b51 100644
--- a/web/src/components/App.tsx
+++ b/web/src/components/App.tsx
@@ -21,6 +21,9 @@ function determineLoadingResult(
   }
 
   if (!hangulize.result) {
+    if (hangulize.state === HangulizeState.IDLE) {
+      return [false, '']
+    }
     return [true, '…']
   }
 
-- 
2.43.0


From 355b4c510dbfa4011de41e230ce2968bc1476cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 40/41] fix: release the JavaScript functions of a finished
 call

Each call of hangulize() in the WebAssembly build, and each call of a
JavaScript Translit, left its functions behind for ever.
---
 cmd/hangulize.wasm/hangulize.go | 8 ++++++--
 cmd/hangulize.wasm/translit.go  | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize.wasm/hangulize.go b/cmd/hangulize.wasm/hangulize.go
index cfda76f..8e38c91 100644
--- a/cmd/hangulize.wasm/hangulize.go
+++ b/cmd/hangulize.wasm/hangulize.go
@@ -20,7 +20,7 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		traceFn = args[2]
 	}
 
-	return js.Global().Get("Promise").New(js.FuncOf(func(this js.Value, args []js.Value) any {
+	executor := js.FuncOf(func(this js.Value, args []js.Value) any {
 		resolve := args[0]
 		reject := args[1]
 
@@ -69,5 +69,9 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		}()
 
 		return nil
-	}))
+	})
+	// The executor is called only once, within the constructor.
+	defer executor.Release()
+
+	return js.Global().Get("Promise").New(executor)
 })
diff --git a/cmd/hangulize.wasm/translit.go b/cmd/hangulize.wasm/translit.go
index 00339fc..d9f88d0 100644
--- a/cmd/hangulize.wasm/translit.go
+++ b/cmd/hangulize.wasm/translit.go
@@ -36,11 +36,13 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 		thenCh <- result
 		return nil
 	})
+	defer then.Release()
 
 	catch := js.FuncOf(func(this js.Value, args []js.Value) any {
 		catchCh <- errors.New(jsErrorMessage(args[0]))
 		return nil
 	})
+	defer catch.Release()
 
 	// The function is called in a Promise so that an exception rejects it.
 	promise := js.Global().Get("Promise").Call("resolve", word)
-- 
2.43.0


From 6713af5329216efba44cf6763681139f91ed4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 41/41] fix: hints which a macro or a var stands for were not
 recognized

The letters of a replacement were those of its text, with the names of macros
and vars instead of what they stand for. So a spec meant something else when
a hint was written with a macro.
---
 pkg/hre/rpattern.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index b39905b..add1c1c 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -86,7 +86,8 @@ func NewRPattern(
 
 	// Collect letters in the regexp.
 	letters := make(map[rune]bool)
-	for _, let := range splitLetters(regexpLetters(expr)) {
+	_expr, _ = expandVars(_expr, vars)
+	for _, let := range splitLetters(regexpLetters(_expr)) {
 		letters[let] = true
 	}
 
-- 
2.43.0

