// Package model is the reference: plain functions from lists of tokens to lists of tokens, which say what
// the streaming code under test should do. It shares no code with it.
package model

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/uax29/words"
	"github.com/kljensen/snowball/english"
	"github.com/kljensen/snowball/french"
	"github.com/kljensen/snowball/norwegian"
	"github.com/kljensen/snowball/russian"
	"github.com/kljensen/snowball/spanish"
	"github.com/kljensen/snowball/swedish"
	"golang.org/x/net/html"
	"golang.org/x/text/unicode/norm"

	"verif/harness/data"
)

// Tok is a token, as a value.
type Tok struct {
	S                   string
	Punct, Space, Lemma bool
}

func (t Tok) String() string {
	flags := ""
	if t.Punct {
		flags += "p"
	}
	if t.Space {
		flags += "s"
	}
	if t.Lemma {
		flags += "L"
	}
	return fmt.Sprintf("%q%s", t.S, flags)
}

// Word says whether the token is neither punctuation nor space.
func (t Tok) Word() bool { return !t.Punct && !t.Space }

// Of is the value of a token of the code under test.
func Of(t *jargon.Token) Tok {
	return Tok{S: t.String(), Punct: t.IsPunct(), Space: t.IsSpace(), Lemma: t.IsLemma()}
}

// All is Of, for many.
func All(ts []*jargon.Token) []Tok {
	var result []Tok
	for _, t := range ts {
		result = append(result, Of(t))
	}
	return result
}

// New is what a token of that text should be.
func New(s string, lemma bool) Tok {
	punct, space := true, true
	for _, r := range s {
		if !(unicode.Is(unicode.P, r) || r == '\n' || r == '\r' || r == '\t') {
			punct = false
		}
		if !unicode.IsSpace(r) {
			space = false
		}
	}
	return Tok{S: s, Punct: punct, Space: space, Lemma: lemma}
}

// Text concatenates the tokens.
func Text(ts []Tok) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.S)
	}
	return b.String()
}

// Tokenize is the UAX 29 word segmentation of the text.
func Tokenize(s string) []Tok {
	var result []Tok
	for _, seg := range words.SegmentAll([]byte(s)) {
		result = append(result, New(string(seg), false))
	}
	return result
}

// TokenizeHTML keeps tags, comments and the content of script and style whole, and tokenizes other text.
func TokenizeHTML(s string) []Tok {
	var result []Tok
	z := html.NewTokenizer(strings.NewReader(s))
	raw := ""
	for {
		tt := z.Next()
		src := string(z.Raw())
		if tt == html.ErrorToken {
			if src != "" {
				result = append(result, Tok{S: src, Punct: true})
			}
			return result
		}
		name, _ := z.TagName()
		switch tt {
		case html.StartTagToken:
			if n := string(name); n == "script" || n == "style" {
				raw = n
			}
		case html.EndTagToken:
			if string(name) == raw {
				raw = ""
			}
		case html.TextToken:
			if raw != "" {
				result = append(result, Tok{S: src})
			} else {
				result = append(result, Tokenize(src)...)
			}
			continue
		}
		result = append(result, Tok{S: src, Punct: true})
	}
}

// Filter is the reference of a filter.
type Filter func([]Tok) []Tok

// Map is one-to-one.
func Map(f func(Tok) Tok) Filter {
	return func(in []Tok) []Tok {
		var out []Tok
		for _, t := range in {
			out = append(out, f(t))
		}
		return out
	}
}

// Where keeps the tokens for which the predicate holds.
func Where(f func(Tok) bool) Filter {
	return func(in []Tok) []Tok {
		var out []Tok
		for _, t := range in {
			if f(t) {
				out = append(out, t)
			}
		}
		return out
	}
}

// Words, Lemmas and Distinct are the operators of streams.
var (
	Words  = Where(Tok.Word)
	Lemmas = Where(func(t Tok) bool { return t.Lemma })
)

// Distinct keeps the first token of each text.
func Distinct(in []Tok) []Tok {
	seen := map[string]bool{}
	var out []Tok
	for _, t := range in {
		if !seen[t.S] {
			seen[t.S] = true
			out = append(out, t)
		}
	}
	return out
}

// FoldString folds to ASCII by Lucene's table.
func FoldString(s string) (string, bool) {
	var b strings.Builder
	folded := false
	for _, r := range s {
		if f, ok := data.Fold[r]; ok {
			b.WriteString(f)
			folded = true
			continue
		}
		b.WriteRune(r)
	}
	if !folded {
		return s, false
	}
	return b.String(), true
}

// Fold is ASCII folding.
var Fold = Map(func(t Tok) Tok {
	if s, folded := FoldString(t.S); folded {
		return New(s, true)
	}
	return t
})

// Norm is Unicode normalization.
func Norm(f norm.Form) Filter {
	return Map(func(t Tok) Tok {
		if s := f.String(t.S); s != t.S {
			return New(s, true)
		}
		return t
	})
}

// Stemmers by language.
var Stemmers = map[string]func(string, bool) string{
	"english": english.Stem, "french": french.Stem, "norwegian": norwegian.Stem,
	"russian": russian.Stem, "spanish": spanish.Stem, "swedish": swedish.Stem,
}

// Stem is Snowball stemming.
func Stem(lang string) Filter {
	stem := Stemmers[lang]
	return Map(func(t Tok) Tok {
		if !t.Word() {
			return t
		}
		if s := stem(t.S, true); s != "" && s != t.S {
			return New(s, true)
		}
		return t
	})
}

// Stop drops stop words.
func Stop(list []string, ignoreCase bool) Filter {
	return Where(func(t Tok) bool {
		for _, w := range list {
			if w == t.S || ignoreCase && strings.ToLower(w) == strings.ToLower(t.S) {
				return false
			}
		}
		return true
	})
}

// Contractions expands contractions.
func Contractions(in []Tok) []Tok {
	var out []Tok
	for _, t := range in {
		if s, ok := Expansion(t.S); ok {
			parts := strings.Split(s, " ")
			out = append(out, New(parts[0], true), New(" ", true), New(parts[1], true))
			continue
		}
		out = append(out, t)
	}
	return out
}

// Expansion is what a contraction expands to: same case if it is lower, Title or UPPER; otherwise lower.
func Expansion(s string) (string, bool) {
	straight := strings.ReplaceAll(s, "’", "'")
	if strings.Contains(s, "’") && strings.Contains(s, "'") {
		return "", false
	}
	lower := strings.ToLower(straight)
	exp, ok := data.Contractions[lower]
	if !ok {
		return "", false
	}
	title := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	switch straight {
	case lower:
		return exp, true
	case title(lower):
		return title(exp), true
	case strings.ToUpper(lower):
		return strings.ToUpper(exp), true
	}
	return exp, true
}

// Sigil coalesces a sigil, which does not follow a word, and a legal token.
func Sigil(sigil string, legal func(string) bool) Filter {
	return func(in []Tok) []Tok {
		var out []Tok
		boundary := true
		for i := 0; i < len(in); i++ {
			t := in[i]
			if boundary && t.S == sigil && i+1 < len(in) && legal(in[i+1].S) {
				t = New(sigil+in[i+1].S, true)
				i++
			}
			out = append(out, t)
			boundary = !t.Word()
		}
		return out
	}
}

// LegalHandle is 1 to 15 of A-Z a-z 0-9 _.
func LegalHandle(s string) bool {
	if len(s) < 1 || len(s) > 15 {
		return false
	}
	return strings.Trim(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_") == ""
}

// LegalHashtag is letters, numbers and underscores; if there is only one, it is a letter.
func LegalHashtag(s string) bool {
	if utf8.RuneCountInString(s) == 1 {
		r, _ := utf8.DecodeRuneInString(s)
		return unicode.IsLetter(r)
	}
	for _, r := range s {
		if !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '_' {
			return false
		}
	}
	return s != ""
}

// Handles and Hashtags are Twitter's.
var (
	Handles  = Sigil("@", LegalHandle)
	Hashtags = Sigil("#", LegalHashtag)
)

// Synonyms is the reference of a synonyms filter.
type Synonyms struct {
	Keys     map[string]string // normalized synonym → canonical
	Conflict bool              // one synonym, two canonicals
	Trailing bool              // a synonym ends with a space, its last word being ignored
	MaxWords int

	ignoreCase bool
	ignore     map[rune]bool
}

// NewSynonyms builds a reference from mappings of comma-separated synonyms to canonicals.
func NewSynonyms(mappings map[string]string, ignoreCase bool, ignore []rune) *Synonyms {
	m := &Synonyms{Keys: map[string]string{}, MaxWords: 1, ignoreCase: ignoreCase, ignore: map[rune]bool{}}
	for _, r := range ignore {
		m.ignore[r] = true
	}
	for list, canonical := range mappings {
		for _, s := range Split(list) {
			key := m.Normal(s)
			if key == "" {
				continue
			}
			if last, _ := utf8.DecodeLastRuneInString(key); unicode.IsSpace(last) {
				m.Trailing = true
			}
			if existing, ok := m.Keys[key]; ok && existing != canonical {
				m.Conflict = true
			}
			m.Keys[key] = canonical
			n := len(Words(Tokenize(s)))
			if n > m.MaxWords {
				m.MaxWords = n
			}
		}
	}
	return m
}

// Split splits a list of synonyms at its commas (not those within a number).
func Split(list string) []string {
	var result []string
	var current []Tok
	add := func() {
		for len(current) > 0 && current[0].Space {
			current = current[1:]
		}
		for n := len(current); n > 0 && current[n-1].Space; n-- {
			current = current[:n-1]
		}
		result = append(result, Text(current))
		current = nil
	}
	for _, t := range Tokenize(list) {
		if t.S == "," {
			add()
			continue
		}
		current = append(current, t)
	}
	add()
	return result
}

// Normal is the text without ignored runes, in lower case if case is ignored.
func (m *Synonyms) Normal(s string) string {
	return strings.Map(func(r rune) rune {
		if m.ignoreCase {
			r = unicode.ToLower(r)
		}
		if m.ignore[r] {
			return -1
		}
		return r
	}, s)
}

// Match finds the longest synonym at the start of the tokens, which are not broken by punctuation.
func (m *Synonyms) Match(in []Tok) (canonical string, n int, found bool) {
	nwords := 0
	text := ""
	prev := ""
	for i, t := range in {
		if t.Punct {
			break
		}
		if t.Word() {
			nwords++
		}
		if nwords > m.MaxWords {
			break
		}
		text += m.Normal(t.S)
		if c, ok := m.Keys[text]; ok && text != "" && text != prev {
			canonical, n, found = c, i+1, true
		}
		prev = text
	}
	return canonical, n, found
}

// Filter replaces synonyms by their canonicals.
func (m *Synonyms) Filter(in []Tok) []Tok {
	var out []Tok
	for i := 0; i < len(in); {
		if in[i].Word() {
			if c, n, ok := m.Match(in[i:]); ok {
				if c != "" {
					out = append(out, New(c, true))
				}
				i += n
				continue
			}
		}
		out = append(out, in[i])
		i++
	}
	return out
}

// Tags and NBA are the dictionaries.
var (
	Tags = NewSynonyms(data.StackOverflow, true, []rune{' ', '-', '.', '/'})
	NBA  = NewSynonyms(data.NBA, true, []rune{' ', '.', '\'', '’', '-', '–'})
)

// Diff describes the first difference between two lists of tokens.
func Diff(got, want []Tok) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("token %d: missing, expected %v (got %d tokens, expected %d)", i, want[i], len(got), len(want))
		case i >= len(want):
			return fmt.Errorf("token %d: unexpected %v (got %d tokens, expected %d)", i, got[i], len(got), len(want))
		case got[i] != want[i]:
			return fmt.Errorf("token %d: got %v, expected %v", i, got[i], want[i])
		}
	}
	return nil
}

// Prefix says whether got is a prefix of want.
func Prefix(got, want []Tok) error {
	if len(got) > len(want) {
		return fmt.Errorf("got %d tokens, expected at most %d; the extra one is %v", len(got), len(want), got[len(want)])
	}
	return Diff(got, want[:len(got)])
}
