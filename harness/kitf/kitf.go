// Package kitf describes filters as data: each spec builds the filter under test, and its reference.
package kitf

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/twitter"
	xnorm "golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/rt"
)

// Spec is a filter, as data.
type Spec struct {
	Kind     string
	List     []string          `json:",omitempty"` // stop words
	Mappings map[string]string `json:",omitempty"` // synonyms
	Ignore   string            `json:",omitempty"` // synonyms
	Fold     bool              `json:",omitempty"` // ignore case
}

func (s Spec) String() string { return s.Kind }

var simple = map[string]struct {
	f jargon.Filter
	m model.Filter
}{
	"tags":         {stackoverflow.Tags, model.Tags.Filter},
	"nba":          {nba.CurrentPlayers, model.NBA.Filter},
	"contractions": {contractions.Expand, model.Contractions},
	"ascii":        {ascii.Fold, model.Fold},
	"nfc":          {norm.NFC, model.Norm(xnorm.NFC)},
	"nfd":          {norm.NFD, model.Norm(xnorm.NFD)},
	"nfkc":         {norm.NFKC, model.Norm(xnorm.NFKC)},
	"nfkd":         {norm.NFKD, model.Norm(xnorm.NFKD)},
	"english":      {stemmer.English, model.Stem("english")},
	"french":       {stemmer.French, model.Stem("french")},
	"norwegian":    {stemmer.Norwegian, model.Stem("norwegian")},
	"russian":      {stemmer.Russian, model.Stem("russian")},
	"spanish":      {stemmer.Spanish, model.Stem("spanish")},
	"swedish":      {stemmer.Swedish, model.Stem("swedish")},
	"handles":      {twitter.Handles, model.Handles},
	"hashtags":     {twitter.Hashtags, model.Hashtags},
	"words":        {(*jargon.TokenStream).Words, model.Words},
	"lemmas":       {(*jargon.TokenStream).Lemmas, model.Lemmas},
	"distinct":     {(*jargon.TokenStream).Distinct, model.Distinct},
	"upper": {mapper.NewFilter(func(t *jargon.Token) *jargon.Token {
		if s := strings.ToUpper(t.String()); s != t.String() {
			return jargon.NewToken(s, true)
		}
		return t
	}), model.Map(func(t model.Tok) model.Tok {
		if s := strings.ToUpper(t.S); s != t.S {
			return model.New(s, true)
		}
		return t
	})},
	"where": {func(s *jargon.TokenStream) *jargon.TokenStream {
		return s.Where(func(t *jargon.Token) bool { return strings.Contains(t.String(), "e") })
	}, model.Where(func(t model.Tok) bool { return strings.Contains(t.S, "e") })},
	"dollar": {sigil.NewFilter("$", model.LegalHandle), model.Sigil("$", model.LegalHandle)},
}

// Built-in kinds.
var (
	// Plain filters neither drop nor select tokens.
	Plain = []string{"tags", "nba", "contractions", "ascii", "nfc", "nfd", "nfkc", "nfkd", "english", "french", "norwegian", "russian", "spanish", "swedish", "handles", "hashtags", "upper", "dollar"}
	// Selecting ones do.
	Selecting = []string{"words", "lemmas", "distinct"}
)

// Filter builds the filter under test.
func (s Spec) Filter() jargon.Filter {
	switch s.Kind {
	case "stop":
		return stopwords.NewFilter(s.List, s.Fold)
	case "synonyms":
		return synonyms.NewFilter(s.Mappings, s.Fold, []rune(s.Ignore))
	}
	b, ok := simple[s.Kind]
	if !ok {
		rt.Must(fmt.Errorf("no filter %q", s.Kind))
	}
	return b.f
}

// Model builds the reference.
func (s Spec) Model() model.Filter {
	switch s.Kind {
	case "stop":
		return model.Stop(s.List, s.Fold)
	case "synonyms":
		return model.NewSynonyms(s.Mappings, s.Fold, []rune(s.Ignore)).Filter
	}
	b, ok := simple[s.Kind]
	if !ok {
		rt.Must(fmt.Errorf("no filter %q", s.Kind))
	}
	return b.m
}

// Filters builds a chain.
func Filters(specs []Spec) []jargon.Filter {
	var fs []jargon.Filter
	for _, s := range specs {
		fs = append(fs, s.Filter())
	}
	return fs
}

// Model applies the references of a chain.
func Model(specs []Spec, toks []model.Tok) []model.Tok {
	for _, s := range specs {
		toks = s.Model()(toks)
	}
	return toks
}

// Names joins the kinds.
func Names(specs []Spec) string {
	var ss []string
	for _, s := range specs {
		ss = append(ss, s.Kind)
	}
	return strings.Join(ss, "+")
}

// Vocabulary is a small set of words, so that synonyms overlap and texts hit them.
var Vocabulary = []string{"ab", "cd", "abcd", "ef", "a", "b", "Ab", "ruby", "on", "rails", "Été", "node.js", "3.5", "x_y", "日", "ß"}

// GenSynonyms draws a synonyms filter over a small vocabulary, without conflicts (for which the outcome is unspecified).
func GenSynonyms(t *rapid.T, drops bool) Spec {
	s := Spec{Kind: "synonyms", Mappings: map[string]string{}}
	s.Fold = rapid.Bool().Draw(t, "fold")
	s.Ignore = rapid.SampledFrom([]string{" ", "", " -./", " -", " .", ".", "'’ ", "_ ", "-", "b ", "é ", " \u00a0", " \u00a0\u200a-", "😀 "}).Draw(t, "ignore")
	canonicals := []string{"ruby-on-rails", "X", "ab", "two words", "café", "node.js", "a, b", "—", " x ", "\n", "日本", "é\u0301\x00", strings.Repeat("long ", 30)}
	if drops {
		canonicals = append(canonicals, "")
	}
	norm := model.NewSynonyms(nil, s.Fold, []rune(s.Ignore))
	taken := map[string]string{}
	for i := rapid.IntRange(1, 5).Draw(t, "entries"); i > 0; i-- {
		canonical := rapid.SampledFrom(canonicals).Draw(t, "canonical")
		var list []string
		for j := rapid.IntRange(1, 3).Draw(t, "synonyms"); j > 0; j-- {
			sep := rapid.SampledFrom([]string{" ", " ", " ", "  ", "-", ".", "/", " \u00a0", "\u00a0\u00a0", "，", ";", "、", "|", "\n", "\t", "=", ":", " / "}).Draw(t, "sep")
			words := rapid.SliceOfN(rapid.SampledFrom(Vocabulary), 1, 4).Draw(t, "words")
			syn := strings.Join(words, sep)
			key := norm.Normal(syn)
			if existing, ok := taken[key]; ok && existing != canonical || key == "" {
				continue
			}
			if last, _ := utf8.DecodeLastRuneInString(key); unicode.IsSpace(last) {
				continue
			}
			taken[key] = canonical
			list = append(list, syn)
		}
		if len(list) == 0 {
			continue
		}
		joint := rapid.SampledFrom([]string{", ", ", ", ",  ", " , ", "\u00a0,", ",", ",,", ", , "}).Draw(t, "joint")
		key := strings.Join(list, joint)
		if rapid.IntRange(0, 7).Draw(t, "lead") == 0 {
			key = " " + key
		}
		if rapid.IntRange(0, 7).Draw(t, "trail") == 0 {
			key += rapid.SampledFrom([]string{" ", ",", " , ", ", ,"}).Draw(t, "trailing")
		}
		if _, ok := s.Mappings[key]; !ok {
			s.Mappings[key] = canonical
		}
	}
	return s
}

// SynonymText draws a text that is likely to have synonyms of the spec.
func SynonymText(t *rapid.T, s Spec) string {
	var terms []string
	var keys []string
	for k := range s.Mappings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, syn := range model.Split(k) {
			if syn = strings.TrimSpace(syn); syn != "" {
				terms = append(terms, syn)
			}
		}
	}
	if len(terms) == 0 {
		terms = []string{"ab"}
	}
	var b strings.Builder
	for i := rapid.IntRange(0, 9).Draw(t, "n"); i > 0; i-- {
		switch rapid.IntRange(0, 9).Draw(t, "piece") {
		case 0, 1, 2:
			b.WriteString(rapid.SampledFrom(Vocabulary).Draw(t, "vocab"))
		case 3, 4, 5:
			term := rapid.SampledFrom(terms).Draw(t, "term")
			if rapid.IntRange(0, 3).Draw(t, "resep") == 0 {
				sep := rapid.SampledFrom([]string{" ", "-", ".", "", "  ", "\n", "\u00a0", "/", " \u00a0 ", "\u00a0\u00a0\u00a0\u00a0"}).Draw(t, "newsep")
				term = strings.ReplaceAll(term, " ", sep)
			}
			if rapid.IntRange(0, 2).Draw(t, "recase") == 0 {
				term = gen.CaseOf(t, term)
			}
			if rapid.IntRange(0, 9).Draw(t, "like") == 0 {
				term = gen.Alias(t, term)
			}
			if rapid.IntRange(0, 4).Draw(t, "cut") == 0 {
				// A prefix of a term
				r := []rune(term)
				term = string(r[:rapid.IntRange(0, len(r)).Draw(t, "cutat")])
			}
			b.WriteString(term)
		case 6:
			b.WriteString(rapid.SampledFrom([]string{",", ".", "-", "\n", "!", "—", "'", "/", "@", "\t", "_", "😀", "，", ";", "|"}).Draw(t, "punct"))
		case 7:
			b.WriteString(gen.Fragment(t, gen.Opt{NoTerms: true}))
		}
		if rapid.IntRange(0, 5).Draw(t, "nospace") > 0 {
			b.WriteString(rapid.SampledFrom([]string{" ", " ", " ", " ", "  ", "\u00a0", " \u00a0 \u00a0"}).Draw(t, "space"))
		}
	}
	return b.String()
}

var stopPool = []string{"the", "The", "a", "I", "foo", "FOO", ".", " ", "\n", "café", "CAFÉ", "ΣΊΣΥΦΟΣ", "привет", "ПРИВЕТ", "İ", "#", "日", "don't", "", "two words"}

// GenStop draws a stop words filter.
func GenStop(t *rapid.T) Spec {
	return Spec{Kind: "stop", List: rapid.SliceOfN(rapid.SampledFrom(stopPool), 0, 6).Draw(t, "stop"), Fold: rapid.Bool().Draw(t, "fold")}
}

// Gen draws a filter of any kind; if selecting is false, one that does not drop tokens.
func Gen(t *rapid.T, selecting bool) Spec {
	n := 9
	if selecting {
		n = 13
	}
	switch k := rapid.IntRange(0, n).Draw(t, "filterkind"); {
	case k < 8:
		return Spec{Kind: rapid.SampledFrom(Plain).Draw(t, "plain")}
	case k < 10:
		return GenSynonyms(t, selecting)
	case k < 12:
		return Spec{Kind: rapid.SampledFrom(Selecting).Draw(t, "selecting")}
	}
	return GenStop(t)
}

// Every lists one spec of each kind.
func Every() []Spec {
	var all []Spec
	for _, k := range append(append([]string{}, Plain...), Selecting...) {
		all = append(all, Spec{Kind: k})
	}
	return append(all,
		Spec{Kind: "stop", List: []string{"the", "foo", " "}, Fold: true},
		Spec{Kind: "synonyms", Mappings: map[string]string{"ruby on rails, rails": "ruby-on-rails", "ab cd ef gh": "X"}, Fold: true, Ignore: " "},
	)
}
