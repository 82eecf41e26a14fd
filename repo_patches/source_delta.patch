From 9d0b7b26573849deed0c79e2cb1cb40918d2a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 01/20] fix: ascii fold reports folding of tilde-like
 characters, and folds U+02A8 to tc

U+2053 and U+FF5E were written as '~' without setting folded, so a token
containing only those came back unfolded. U+02A8 (TC DIGRAPH) folded to 'tr',
unlike the Lucene table that this is ported from.
---
 filters/ascii/fold.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index c40f9b2..8b11245 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1232,7 +1232,7 @@ func FoldString(s string) (string, bool) {
 			case
 				'\u02A8': // ʨ  [LATIN SMALL LETTER TC DIGRAPH WITH CURL]
 				b.WriteRune('t')
-				b.WriteRune('r')
+				b.WriteRune('c')
 				folded = true
 			case
 				'\u00FE', // þ  [LATIN SMALL LETTER THORN]
@@ -2148,6 +2148,7 @@ func FoldString(s string) (string, bool) {
 				'\u2053', // ⁓  [SWUNG DASH]
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
+				folded = true
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From ad3e10c3a68c4f7e002229d685315d473b969e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 02/20] fix: mark expanded contractions as lemmas

Lemmas() returns tokens modified by a filter, but expansions were indistinguishable
from original text.
---
 filters/contractions/filter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/contractions/filter.go b/filters/contractions/filter.go
index 78a20b4..7dd1ec0 100644
--- a/filters/contractions/filter.go
+++ b/filters/contractions/filter.go
@@ -73,7 +73,10 @@ func (t *tokens) tryExpansion(token *jargon.Token, ignoreCase bool) (bool, error
 		if err != nil {
 			return found, err
 		}
-		t.outgoing.Push(tokens...)
+		for _, token := range tokens {
+			// These replace the original token, i.e. they are lemmas
+			t.outgoing.Push(jargon.NewToken(token.String(), true))
+		}
 	}
 
 	return found, nil
-- 
2.43.0


From bfeada34aec812ff5a282d2921cb34e67a2e39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 03/20] fix: a word with an empty stem no longer ends the token
 stream

NewToken("") is nil, which signifies end of stream; for example, English
stemming of the blank contents of a script element lost the rest of the document.
---
 filters/stemmer/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/stemmer/filter.go b/filters/stemmer/filter.go
index f5e930c..ba8b8f8 100644
--- a/filters/stemmer/filter.go
+++ b/filters/stemmer/filter.go
@@ -40,8 +40,8 @@ func newStemmer(stem func(string, bool) string) jargon.Filter {
 
 		stemmed := stem(token.String(), true)
 
-		if stemmed == token.String() {
-			// Had no effect, send back the original
+		if stemmed == "" || stemmed == token.String() {
+			// Had no effect (or nothing would be left), send back the original
 			return token
 		}
 
-- 
2.43.0


From 846c5bdb801985316969ee5dbffafda4252c316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:53 +0000
Subject: [PATCH 04/20] fix: tokenize text following a script or style element
 in HTML

The end tag did not reset the parent, so all text nodes after the first script
or style element were treated as script, and came back whole.
---
 tokenizer_html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index fbedc36..d9df092 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -74,7 +74,8 @@ func (t *htokenizer) next() (*Token, error) {
 		}
 	case html.EndTagToken:
 		if htoken.DataAtom == t.parent {
-			htoken.DataAtom = 0
+			// Done with script or style block
+			t.parent = 0
 		}
 	}
 
-- 
2.43.0


From df929c2ef4e58d8b487e5263e84e037f83544d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 05/20] fix: TokenizeHTML returns markup, script and text
 verbatim

Tokens were re-serialized by the html package: entities escaped or unescaped
(Let's -> Let&#39;s, including in scripts), tags lower-cased and re-quoted, CRLF
converted, and an incomplete tag at the end was lost. The documentation promises
that the text can be reconstructed with fidelity.
---
 tokenizer_html.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index d9df092..3def02b 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -44,12 +44,23 @@ func (t *htokenizer) next() (*Token, error) {
 	if htype == html.ErrorToken {
 		err := t.htokenizer.Err()
 		if err == io.EOF {
+			if raw := t.htokenizer.Raw(); len(raw) > 0 {
+				// An incomplete tag at the end
+				token := &Token{
+					value: string(raw),
+					punct: true,
+					space: false,
+				}
+				return token, nil
+			}
 			// No problem
 			return nil, nil
 		}
 		return nil, err
 	}
 
+	// Verbatim source of this node. Needs a copy before calling Token(), which may overwrite it.
+	raw := string(t.htokenizer.Raw())
 	htoken := t.htokenizer.Token()
 
 	switch htoken.Type {
@@ -63,13 +74,13 @@ func (t *htokenizer) next() (*Token, error) {
 		case atom.Script, atom.Style:
 			// Don't tokenize script and style blocks, just return as one big string
 			token := &Token{
-				value: htoken.String(),
+				value: raw,
 				punct: false,
 				space: false,
 			}
 			return token, nil
 		default:
-			t.ttokens = TokenizeString(htoken.String())
+			t.ttokens = TokenizeString(raw)
 			return t.ttokens.Next()
 		}
 	case html.EndTagToken:
@@ -81,7 +92,7 @@ func (t *htokenizer) next() (*Token, error) {
 
 	// Everything else is punct for our purposes
 	token := &Token{
-		value: htoken.String(),
+		value: raw,
 		punct: true,
 		space: false,
 	}
-- 
2.43.0


From 0fb89e8143dee0197b1a335f9b778d386bbb64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:50 +0000
Subject: [PATCH 06/20] fix: sigil filter applies its rules to a token it
 looked ahead to

A lookahead that was not legal was sent out without being recorded as the
previous token (so in @averylongusername@foo, @foo was taken as a handle although
it follows a word) and without being considered as a sigil itself (so the second
@ of @@foo was skipped).
---
 filters/sigil/filter.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/filters/sigil/filter.go b/filters/sigil/filter.go
index bcc81ba..d7d2ad4 100644
--- a/filters/sigil/filter.go
+++ b/filters/sigil/filter.go
@@ -39,16 +39,19 @@ type stream struct {
 }
 
 func (s *stream) next() (*jargon.Token, error) {
+	var current *jargon.Token
 	if s.outgoing.Any() {
-		return s.outgoing.Pop(), nil
-	}
-
-	current, err := s.incoming.Next()
-	if err != nil {
-		return nil, err
-	}
-	if current == nil {
-		return nil, nil
+		// A previous lookahead; it's subject to the same rules as any other token
+		current = s.outgoing.Pop()
+	} else {
+		token, err := s.incoming.Next()
+		if err != nil {
+			return nil, err
+		}
+		if token == nil {
+			return nil, nil
+		}
+		current = token
 	}
 
 	// Previous token must not be a word
-- 
2.43.0


From 0471eb2cd787fa63325bc0a83bcb62df8f2d74fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:21 +0000
Subject: [PATCH 07/20] fix: synonyms filter keeps reporting an error from lazy
 construction

Only the first stream got the error; the next use of the same filter dereferenced
a nil trie.
---
 filters/synonyms/filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a25473c..3f22f86 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -16,6 +16,7 @@ type filter struct {
 	// For lazy loading, see build() below
 	config *config
 	once   sync.Once
+	err    error
 
 	trie     *trie.RuneTrie
 	maxWords int
@@ -102,9 +103,8 @@ func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 	// Lazily build the trie on first call, i.e. don't pay for the construction
 	// unless we use it
-	var err error
 	f.once.Do(func() {
-		err = f.build()
+		f.err = f.build()
 	})
 
 	t := &tokens{
@@ -116,8 +116,8 @@ func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 
 	// Catch the error that may have resulted from lazy construction above
 	next := func() (*jargon.Token, error) {
-		if err != nil {
-			return nil, err
+		if f.err != nil {
+			return nil, f.err
 		}
 		return t.next()
 	}
-- 
2.43.0


From ebe75712a42d8c0b1fbfd46993711c3b1b861939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:22 +0000
Subject: [PATCH 08/20] fix: an empty synonym matches nothing

A trailing comma in the mappings (as in "developer, engineer,") added an empty
synonym, so that any word consisting of ignored runes was replaced.
---
 filters/synonyms/trie/trie.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/synonyms/trie/trie.go b/filters/synonyms/trie/trie.go
index 26f71aa..b98b784 100644
--- a/filters/synonyms/trie/trie.go
+++ b/filters/synonyms/trie/trie.go
@@ -87,6 +87,11 @@ func (t *RuneTrie) Add(tokens []*jargon.Token, canonical string) {
 		}
 	}
 
+	if n == t.root {
+		// Nothing to match, e.g. what follows a trailing comma
+		return
+	}
+
 	n.hasCanonical = true
 	n.canonical = canonical
 }
-- 
2.43.0


From 9dc5b790adcbba8e9c2c085956d08e29d67a22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 09/20] fix: synonyms filter streams tokens instead of
 consuming all input first

The first call to Next() processed everything up to the end of input, holding all
tokens in a queue which is popped in linear time: memory was not constant, and
execution time was quadratic, on input size.
---
 filters/synonyms/filter.go | 47 +++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 3f22f86..8441907 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -137,38 +137,36 @@ type tokens struct {
 
 // next returns the next token; nil indicates end of data
 func (t *tokens) next() (*jargon.Token, error) {
-	// Buffer should be clear after every call to next()
-	if t.buffer.Len() != 0 {
-		return nil, fmt.Errorf("expected buffer to be empty")
-	}
+	for !t.outgoing.Any() {
+		if !t.buffer.Any() {
+			token, err := t.incoming.Next()
+			if err != nil {
+				return nil, err
+			}
+			if token == nil {
+				// Nothing left
+				return nil, nil
+			}
+			t.buffer.Push(token)
+		}
 
-	// Clear out any outgoing
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
+		// Leading space & punct should go straight out
+		head := t.buffer.Tokens[0]
+		if head.IsSpace() || head.IsPunct() {
+			t.buffer.PopTo(t.outgoing)
+			break
+		}
 
-	// Consume all the words
-	for {
 		err := t.fill()
 		if err != nil {
 			return nil, err
 		}
 
-		if t.buffer.Len() == 0 {
-			// Nothing left
-			break
-		}
-
 		run, err := t.wordrun()
 		if err != nil {
 			return nil, err
 		}
 
-		if len(run) == 0 {
-			// No more words
-			break
-		}
-
 		// Try to lemmatize
 		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
 		if found {
@@ -184,14 +182,7 @@ func (t *tokens) next() (*jargon.Token, error) {
 		t.buffer.PopTo(t.outgoing)
 	}
 
-	// Queue up the rest of the buffer to go out
-	t.buffer.FlushTo(t.outgoing)
-
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	return nil, nil
+	return t.outgoing.Pop(), nil
 }
 
 // fill the buffer until EOF, punctuation, or enough word tokens
-- 
2.43.0


From 2f6311a669b5b03ae2b08ddf8601db4aeca4f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:51 +0000
Subject: [PATCH 10/20] fix: tokens do not depend on how the reader chunks its
 data

A word such as node.js or can't was split in three if the end of a read (or of
the scanner's 4K buffer) happened to fall right after its dot or apostrophe.
---
 tokenizer.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index ea098e3..dc5f0aa 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -1,6 +1,7 @@
 package jargon
 
 import (
+	"bufio"
 	"io"
 	"strings"
 
@@ -30,11 +31,37 @@ type tokenizer struct {
 }
 
 func newTokenizer(r io.Reader) *tokenizer {
+	sc := iterators.NewScanner(r, split)
+	sc.Buffer(nil, bufio.MaxScanTokenSize+lookahead)
 	return &tokenizer{
-		sc: words.NewScanner(r),
+		sc: sc,
 	}
 }
 
+// lookahead is how many bytes following a token are enough to be sure where that token ends
+const lookahead = 64
+
+// split is a bufio.SplitFunc. It ensures that tokens do not depend on how the reader happens to
+// chunk its data: whether there is a boundary at, say, the dot in node.js depends on what follows the
+// dot, and words.SplitFunc takes the end of data for the end of text.
+func split(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	advance, token, err = words.SplitFunc(data, atEOF)
+	if atEOF || err != nil || advance == 0 {
+		return advance, token, err
+	}
+
+	rest := data[advance:]
+	if len(rest) < lookahead {
+		next, _, err := words.SplitFunc(rest, false)
+		if err != nil || next == 0 {
+			// Not there yet, request more
+			return 0, nil, err
+		}
+	}
+
+	return advance, token, nil
+}
+
 // next returns the next token. Call until it returns nil.
 func (t *tokenizer) next() (*Token, error) {
 	if t.sc.Scan() {
-- 
2.43.0


From ade3d5200f0e25a659e961daad353ef26a08b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:51 +0000
Subject: [PATCH 11/20] fix: accept filter flags in all the forms that the flag
 package does

--stack and -stack=true were accepted on the command line, but had no effect.
---
 cmd/jargon/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 330f227..7d3ffad 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -189,6 +189,18 @@ var stemmerMap = map[string]jargon.Filter{
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
 	for _, arg := range args {
+		// Same as the flag package: one or two dashes, optionally with an explicit value, e.g. -stack=true
+		if strings.HasPrefix(arg, "--") {
+			arg = arg[1:]
+		}
+		if i := strings.Index(arg, "="); i >= 0 {
+			on, err := strconv.ParseBool(arg[i+1:])
+			if err != nil || !on {
+				continue
+			}
+			arg = arg[:i]
+		}
+
 		filter, found := filterMap[arg]
 		if found {
 			if arg == "-stem" && lang != "" {
-- 
2.43.0


From 5dc97594c4a914b75a32a0c60fb44f911ee0009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:10 +0000
Subject: [PATCH 12/20] fix: chunk independence regardless of the number of
 combining marks

---
 tokenizer.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index dc5f0aa..e4993f2 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/clipperhouse/uax29/iterators"
 	"github.com/clipperhouse/uax29/words"
@@ -38,7 +39,7 @@ func newTokenizer(r io.Reader) *tokenizer {
 	}
 }
 
-// lookahead is how many bytes following a token are enough to be sure where that token ends
+// lookahead allows for the text following a token, which determines where that token ends
 const lookahead = 64
 
 // split is a bufio.SplitFunc. It ensures that tokens do not depend on how the reader happens to
@@ -51,14 +52,21 @@ func split(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	}
 
 	rest := data[advance:]
-	if len(rest) < lookahead {
-		next, _, err := words.SplitFunc(rest, false)
-		if err != nil || next == 0 {
-			// Not there yet, request more
-			return 0, nil, err
+	for i, b := range rest {
+		if i > 0 && b < utf8.RuneSelf {
+			// Enough to be sure; one character after the (potential) dot determines the boundary,
+			// disregarding combining marks & such, none of which are ASCII
+			return advance, token, nil
 		}
 	}
 
+	// Not that obvious
+	next, _, err := words.SplitFunc(rest, false)
+	if err != nil || next == 0 {
+		// Not there yet, request more
+		return 0, nil, err
+	}
+
 	return advance, token, nil
 }
 
-- 
2.43.0


From ff27949ec44d982d9fc6a30faa78cce88f5d0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:20 +0000
Subject: [PATCH 13/20] fix: tokenqueue.New copies the slice it is given

---
 tokenqueue/queue.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenqueue/queue.go b/tokenqueue/queue.go
index ac388b1..9ed5eb0 100644
--- a/tokenqueue/queue.go
+++ b/tokenqueue/queue.go
@@ -12,7 +12,8 @@ type Token = jargon.Token
 // New creates a new TokenQueue
 func New(tokens ...*Token) *TokenQueue {
 	return &TokenQueue{
-		Tokens: tokens,
+		// A copy, since a queue moves its tokens in place
+		Tokens: append([]*Token(nil), tokens...),
 	}
 }
 
-- 
2.43.0


From f5eb58f87f6eb77bd469b6ae36ee96dd84bf39a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:45 +0000
Subject: [PATCH 14/20] fix: do not scan all buffered data for each token of
 non-ASCII text

---
 tokenizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index e4993f2..2909280 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -53,6 +53,10 @@ func split(data []byte, atEOF bool) (advance int, token []byte, err error) {
 
 	rest := data[advance:]
 	for i, b := range rest {
+		if i > utf8.UTFMax {
+			// Don't scan all of the data for each token
+			break
+		}
 		if i > 0 && b < utf8.RuneSelf {
 			// Enough to be sure; one character after the (potential) dot determines the boundary,
 			// disregarding combining marks & such, none of which are ASCII
-- 
2.43.0


From 18cf3aebc9f2e2646324985dd84d7191072bfb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:03 +0000
Subject: [PATCH 15/20] fix: dropping from a long token queue takes constant
 time

---
 tokenqueue/queue.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tokenqueue/queue.go b/tokenqueue/queue.go
index 9ed5eb0..402a4cf 100644
--- a/tokenqueue/queue.go
+++ b/tokenqueue/queue.go
@@ -46,11 +46,17 @@ func (q *TokenQueue) Push(tokens ...*Token) {
 
 // Drop removes n elements from the front of the queue
 func (q *TokenQueue) Drop(n int) {
+	rest := len(q.Tokens) - n
+	if rest > n {
+		// Moving many tokens for few dropped ones would take quadratic time in total
+		q.Tokens = q.Tokens[n:]
+		return
+	}
 	// Optimization to avoid array resizing
 	// Move the end to the beginning
 	copy(q.Tokens, q.Tokens[n:])
 	// Chop off the end
-	q.Tokens = q.Tokens[:len(q.Tokens)-n]
+	q.Tokens = q.Tokens[:rest]
 }
 
 // Clear drops all tokens from the queue
-- 
2.43.0


From 0fe52f056baeb7e0ce02c56b11d73d1004ea1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:33 +0000
Subject: [PATCH 16/20] fix: spaces after a synonym, e.g. before a comma, are
 not part of it

A synonym followed by a space, as in "foo , bar", was looked up with that space (unless spaces are ignored), so that
foo was found only if a space follows, and, if no synonym has more than one word, never.
---
 filters/synonyms/filter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 8441907..42ba4cc 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -61,7 +61,7 @@ func (f *filter) build() error {
 			skipSpaces = false
 
 			if token.String() == "," {
-				slice := tokens[start:i]
+				slice := trimSpaces(tokens[start:i])
 				trie.Add(slice, canonical)
 				updateMaxWords(slice, &maxWords)
 
@@ -72,7 +72,7 @@ func (f *filter) build() error {
 		}
 
 		// Remaining after the last comma
-		slice := tokens[start:]
+		slice := trimSpaces(tokens[start:])
 		trie.Add(slice, canonical)
 		updateMaxWords(slice, &maxWords)
 	}
@@ -87,6 +87,15 @@ func (f *filter) build() error {
 	return nil
 }
 
+// trimSpaces leaves off trailing spaces, e.g. those preceding a comma
+func trimSpaces(tokens []*jargon.Token) []*jargon.Token {
+	end := len(tokens)
+	for end > 0 && tokens[end-1].IsSpace() {
+		end--
+	}
+	return tokens[:end]
+}
+
 func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 	words := 0
 	for _, token := range tokens {
-- 
2.43.0


From 987dcf932526021c7d56c72698bc687b2c80865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:56 +0000
Subject: [PATCH 17/20] fix: a long token right before another long one is not
 too long

To tell where a token ends, the tokenizer may need all of the next one, and both had to fit in 64K.
---
 tokenizer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 2909280..418486e 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -33,13 +33,13 @@ type tokenizer struct {
 
 func newTokenizer(r io.Reader) *tokenizer {
 	sc := iterators.NewScanner(r, split)
-	sc.Buffer(nil, bufio.MaxScanTokenSize+lookahead)
+	sc.Buffer(nil, 2*bufio.MaxScanTokenSize+lookahead)
 	return &tokenizer{
 		sc: sc,
 	}
 }
 
-// lookahead allows for the text following a token, which determines where that token ends
+// lookahead allows for the text following a token and the next one, which determines where they end
 const lookahead = 64
 
 // split is a bufio.SplitFunc. It ensures that tokens do not depend on how the reader happens to
@@ -47,6 +47,10 @@ const lookahead = 64
 // dot, and words.SplitFunc takes the end of data for the end of text.
 func split(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	advance, token, err = words.SplitFunc(data, atEOF)
+	if len(token) > bufio.MaxScanTokenSize {
+		// The buffer is larger than that, to have room for the next token
+		return 0, nil, bufio.ErrTooLong
+	}
 	if atEOF || err != nil || advance == 0 {
 		return advance, token, err
 	}
-- 
2.43.0


From bc0d9dae739ac71be1703d72ade22ea8ceacd631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:07 +0000
Subject: [PATCH 18/20] fix: a value that looks like a filter flag, e.g. -out
 -stack, is not a filter

---
 cmd/jargon/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 7d3ffad..acc3e06 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -188,11 +188,18 @@ var stemmerMap = map[string]jargon.Filter{
 
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
-	for _, arg := range args {
+	for i := 0; i < len(args); i++ {
+		arg := args[i]
 		// Same as the flag package: one or two dashes, optionally with an explicit value, e.g. -stack=true
 		if strings.HasPrefix(arg, "--") {
 			arg = arg[1:]
 		}
+		switch arg {
+		case "-file", "-out", "-lang":
+			// What follows is its value, whatever it looks like
+			i++
+			continue
+		}
 		if i := strings.Index(arg, "="); i >= 0 {
 			on, err := strconv.ParseBool(arg[i+1:])
 			if err != nil || !on {
-- 
2.43.0


From f092a343e9db4e941e0e70634482f18e7e36e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:58 +0000
Subject: [PATCH 19/20] fix: -out must not be the input file, which it would
 truncate before it is read

---
 cmd/jargon/main.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index acc3e06..c17baa5 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -131,6 +131,7 @@ type config struct {
 
 var errNoInput = fmt.Errorf("no input")
 var errTwoInput = fmt.Errorf("choose *either* an input -file argument *or* piped input")
+var errSameFile = fmt.Errorf("the -out file must not be the input file")
 
 func printUsage() {
 	// Display usage
@@ -229,6 +230,11 @@ func setFilters(c *config, args []string, lang string) error {
 
 func setOutput(c *config, fileout string) error {
 	if fileout != "" {
+		// Creating it would truncate the input before it is read
+		if isInput(c, fileout) {
+			return errSameFile
+		}
+
 		file, err := c.Fs.Create(fileout)
 		if err != nil {
 			return err
@@ -241,6 +247,26 @@ func setOutput(c *config, fileout string) error {
 	return nil
 }
 
+// isInput determines whether path is the (regular) file that input comes from
+func isInput(c *config, path string) bool {
+	out, err := c.Fs.Stat(path)
+	if err != nil || !out.Mode().IsRegular() {
+		return false
+	}
+
+	var in os.FileInfo
+	switch {
+	case c.Filein != nil:
+		in, err = c.Filein.Stat()
+	case c.Pipedin:
+		in, err = os.Stdin.Stat()
+	default:
+		return false
+	}
+
+	return err == nil && os.SameFile(in, out)
+}
+
 func setReader(c *config) error {
 	if c.Pipedin || c.Pipedout {
 		// We're limited by the OS pipe buffer, typically 64K with back pressure
-- 
2.43.0


From 63071d1c6bb7309891e7e209f6c4e1bbae7d1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:15 +0000
Subject: [PATCH 20/20] fix: a curly apostrophe in the name of an NBA player
 does not matter either

---
 filters/nba/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/nba/filter.go b/filters/nba/filter.go
index df77194..a3079d4 100644
--- a/filters/nba/filter.go
+++ b/filters/nba/filter.go
@@ -4,7 +4,7 @@ import "github.com/clipperhouse/jargon/filters/synonyms"
 
 //go:generate go run generate/main.go
 
-var ignore = []rune{' ', '.', '\'', '-', '–'}
+var ignore = []rune{' ', '.', '\'', '’', '-', '–'}
 
 // CurrentPlayers is a token filter for identifying current NBA players accoring to Wikipedia
 // It is insensitive to spaces, dashes, apostrophes, periods and diacritics in players' names.
-- 
2.43.0

