package c17

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type text struct {
	Lang string
	Text rt.Bytes
	HTML bool
	Mask uint64 `json:",omitempty"` // which tokens are lemmas already
}

var filters = map[string]jargon.Filter{
	"english": stemmer.English, "french": stemmer.French, "norwegian": stemmer.Norwegian,
	"russian": stemmer.Russian, "spanish": stemmer.Spanish, "swedish": stemmer.Swedish,
}

var langs = func() []string {
	var ss []string
	for k := range filters {
		ss = append(ss, k)
	}
	sort.Strings(ss)
	return ss
}()

var affixes = map[string][]string{
	"english":   {"ing", "ed", "s", "ly", "ness", "ation", "ies", "'s", "able", "fulness", "y", "e", "tional", "ss", "sses", "ous"},
	"french":    {"ement", "ation", "euse", "eux", "issons", "aient", "ité", "ive", "amment", "erait", "ée", "s"},
	"norwegian": {"ene", "ers", "heter", "het", "dt", "vt", "leg", "else", "s", "ede"},
	"russian":   {"ами", "ого", "ивший", "ость", "ейш", "ешь", "ть", "ся", "ый", "ая"},
	"spanish":   {"ando", "iendo", "mente", "ción", "aríamos", "ísimo", "as", "es", "melo", "idad"},
	"swedish":   {"heten", "arna", "ande", "lig", "els", "fullt", "löst", "s", "ern", "ast"},
}

var roots = []string{"run", "happ", "manag", "Gener", "continu", "cheval", "jakt", "havne", "книг", "бег", "habl", "corr", "flick", "stopp", "a", "é", "ÑAND", "by", "sk", "y", "aaa", "Ch", "qu"}

func check(c text, info *rt.Info) error {
	var in []model.Tok
	var s *jargon.TokenStream
	if c.HTML {
		in = model.TokenizeHTML(string(c.Text))
		s = jargon.TokenizeHTML(strings.NewReader(string(c.Text)))
	} else {
		in = model.Tokenize(string(c.Text))
		s = jargon.TokenizeString(string(c.Text))
	}
	if c.Mask != 0 {
		in = kit.Mark(in, c.Mask)
		s = kit.Source(in, nil)
	}
	want := model.Stem(c.Lang)(in)
	got, err := kit.Collect(s.Filter(filters[c.Lang]))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	n := len(model.Lemmas(want))
	info.NonTrivial = n > 0 && n < len(want)
	info.Label(c.Lang)
	return model.Diff(got, want)
}

func Test(t *testing.T) {
	rt.Main(t, "C17",
		rt.P[text]{
			Name:  "words",
			Rule:  "texts of stop words and of roots with one to three affixes of the language, some of them lemmas already, in various cases, among other words, punctuation, spaces and oddities, in each of 6 languages; against the Snowball library, called directly; non-trivial: some tokens are stemmed, some are not",
			Quick: 1000000, Thorough: 10000000,
			Gen: func(t *rapid.T) text {
				c := text{Lang: rapid.SampledFrom(langs).Draw(t, "lang")}
				var b strings.Builder
				for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
					if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
						b.WriteString(gen.Fragment(t, gen.Opt{Invalid: true}))
					} else if rapid.IntRange(0, 4).Draw(t, "stop") == 0 {
						b.WriteString(gen.CaseOf(t, rapid.SampledFrom(stopWords[c.Lang]).Draw(t, "stopword")))
					} else {
						w := rapid.SampledFrom(roots).Draw(t, "root") + strings.Join(rapid.SliceOfN(rapid.SampledFrom(affixes[c.Lang]), 0, 3).Draw(t, "affixes"), "")
						b.WriteString(gen.CaseOf(t, w))
					}
					b.WriteString(rapid.SampledFrom([]string{" ", " ", " ", "", ", ", "\n"}).Draw(t, "space"))
				}
				c.Text = rt.Bytes(b.String())
				c.Mask = kit.GenMask(t)
				return c
			},
			Check: check,
		},
		rt.P[text]{
			Name:       "stop words",
			Rule:       "every stop word of each language, in lower, upper and title case; non-trivial: it has another stem",
			Exhaustive: true,
			Enum: func(yield func(text) bool) {
				for _, lang := range langs {
					for _, w := range stopWords[lang] {
						for _, v := range []string{w, strings.ToUpper(w), strings.Title(w)} {
							if !yield(text{Lang: lang, Text: rt.Bytes(v)}) {
								return
							}
						}
					}
				}
			},
			Check: func(c text, info *rt.Info) error {
				err := check(c, info)
				info.NonTrivial = len(model.Lemmas(model.Stem(c.Lang)(model.Tokenize(string(c.Text))))) > 0
				return err
			},
		},
		rt.P[text]{
			Name:  "html",
			Rule:  "HTML; non-trivial: some tokens are stemmed, some are not",
			Quick: 200000, Thorough: 1500000,
			Gen: func(t *rapid.T) text {
				return text{Lang: rapid.SampledFrom(langs).Draw(t, "lang"), HTML: true, Text: rt.Bytes(gen.HTML(t, gen.Opt{}, 8))}
			},
			Check: check,
		},
		rt.P[text]{
			Name:  "long",
			Rule:  "texts and words of up to 60 KB, made by repeating roots, affixes and other characters; non-trivial: some tokens are stemmed",
			Quick: 2400, Thorough: 24000,
			Gen: func(t *rapid.T) text {
				c := text{Lang: rapid.SampledFrom(langs).Draw(t, "lang")}
				w := rapid.SampledFrom(roots).Draw(t, "root") + rapid.SampledFrom(affixes[c.Lang]).Draw(t, "affix")
				if rapid.Bool().Draw(t, "spaced") {
					w += " "
				}
				s := gen.Long(t, w)
				if len(s) > 2000 && !strings.HasSuffix(w, " ") {
					s = s[:2000/len(w)*len(w)] // the library takes quadratic time
				}
				c.Text = rt.Bytes("running " + s + " corriendo")
				return c
			},
			Check: func(c text, info *rt.Info) error {
				err := check(c, info)
				if err != nil {
					return fmt.Errorf("%.2000s", err)
				}
				return nil
			},
		},
		kitf.Tokens([]string{"running", "Quickly", "continuellement", "вагонами", "husene", "canciones", "flickorna", "foxes", "the", "two words", "go's"}, "english", "french", "norwegian", "russian", "spanish", "swedish"),
		kitf.Runs([][]string{{"running"}, {"foxes", " "}, {"вагонами"}, {"."}, {"canciones", ",", "x"}}, kitf.Spec{Kind: "english"}, kitf.Spec{Kind: "russian"}, kitf.Spec{Kind: "spanish"}),
		kitf.Varied("english", "french", "norwegian", "russian", "spanish", "swedish"),
	)
}
