package c08

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type replace struct {
	Filter kitf.Spec
	Text   rt.Bytes
	HTML   bool
	Mask   uint64 `json:",omitempty"` // which tokens are lemmas already
}

func check(c replace, info *rt.Info) error {
	m := model.NewSynonyms(c.Filter.Mappings, c.Filter.Fold, []rune(c.Filter.Ignore))
	if m.Conflict {
		info.Label("excluded: conflicting synonyms")
		return nil
	}
	if m.Trailing {
		info.Label("excluded: a synonym that ends with a space")
		return nil
	}
	// Another filter, made of the same mappings, has its own rules
	other := c.Filter
	other.Fold = !other.Fold
	m2 := model.NewSynonyms(other.Mappings, other.Fold, []rune(other.Ignore))
	c.Filter.Mappings = maps.Clone(c.Filter.Mappings)
	other.Mappings = c.Filter.Mappings
	f := c.Filter.Filter()
	f2 := other.Filter()
	open := func() (*jargon.TokenStream, []model.Tok) {
		if c.Mask != 0 {
			toks := kit.Mark(model.Tokenize(string(c.Text)), c.Mask)
			return kit.Source(toks, nil), toks
		}
		if c.HTML {
			return jargon.TokenizeHTML(&kit.Reader{Data: c.Text}), model.TokenizeHTML(string(c.Text))
		}
		return jargon.TokenizeString(string(c.Text)), model.Tokenize(string(c.Text))
	}
	in, toks := open()
	want := m.Filter(toks)
	got, err := kit.Collect(f(in))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	lemmas := len(model.Lemmas(want)) - len(model.Lemmas(toks))
	info.NonTrivial = lemmas > 0 || len(want) != len(toks) || model.Text(want) != string(c.Text)
	info.LabelIf(lemmas > 1, "several replaced")
	info.LabelIf(m.MaxWords > 1, "multi-word")
	info.LabelIf(c.Filter.Fold, "ignoring case")
	if err := model.Diff(got, want); err != nil {
		return err
	}
	// the same filter, again
	in, _ = open()
	again, err := kit.Collect(f(in))
	if err != nil {
		return fmt.Errorf("second use: %v", err)
	}
	if err := model.Diff(again, want); err != nil {
		return fmt.Errorf("second use: %w", err)
	}
	if m2.Conflict || m2.Trailing {
		return nil
	}
	in, toks = open()
	got, err = kit.Collect(f2(in))
	if err != nil {
		return fmt.Errorf("second filter: %v", err)
	}
	if err := model.Diff(got, m2.Filter(toks)); err != nil {
		return fmt.Errorf("second filter, with case %v: %w", !other.Fold, err)
	}
	return nil
}

// list is a fixed set of mappings that overlap, on texts of a few words
var lists = []kitf.Spec{
	{Kind: "synonyms", Mappings: map[string]string{"a b c, c": "ABC", "a": "A", "b c": "BC", "a b c d e": "ALL"}, Ignore: " ", Fold: true},
	{Kind: "synonyms", Mappings: map[string]string{"a b c, c": "ABC", "a": "A", "b c": "BC", "a b c d e": "ALL"}},
	{Kind: "synonyms", Mappings: map[string]string{"ab": "AB", "a": "A", "abc d": "ABCD", "e a": ""}, Ignore: " -."},
	{Kind: "synonyms", Mappings: map[string]string{"a a": "AA", "a a a b": "AAAB", "b": "B"}, Ignore: " "},
	{Kind: "synonyms", Mappings: map[string]string{"a b": "a b", "c d, d c": "a", "": "X", "e,": "E", " b": "B"}, Fold: true},
}

// scale is a large dictionary and text, determined by a seed
type scale struct {
	Seed                          uint64
	Entries, Words, Vocab, Pieces int
	Fold, NoSpaces                bool
}

func (c scale) replace() replace {
	r := rand.New(rand.NewPCG(c.Seed, 8))
	word := func() string {
		i := r.IntN(c.Vocab)
		switch i % 4 {
		case 0:
			return fmt.Sprintf("w%d", i)
		case 1:
			// of many scripts, which are all letters
			return string([]rune{rune(0x0400 + i%0x50), rune(0x03b1 + i%16), rune(0x0561 + i%38), rune(0x61 + i%26)})
		case 2:
			return fmt.Sprintf("Word%dé", i)
		}
		return fmt.Sprintf("%c%c", 'a'+i%26, 'a'+i/26%26)
	}
	spec := kitf.Spec{Kind: "synonyms", Mappings: map[string]string{}, Fold: c.Fold}
	if c.NoSpaces {
		spec.Ignore = " -"
	}
	norm := model.NewSynonyms(nil, c.Fold, []rune(spec.Ignore))
	var terms [][]string
	for i := 0; i < c.Entries; i++ {
		var term []string
		for j := 1 + r.IntN(c.Words); j > 0; j-- {
			term = append(term, word())
		}
		terms = append(terms, term)
		s := strings.Join(term, " ")
		// One canonical for each way in which it is spelled
		spec.Mappings[s] = "<" + norm.Normal(s) + ">"
	}
	var b strings.Builder
	for i := 0; i < c.Pieces; i++ {
		term := terms[r.IntN(len(terms))]
		switch r.IntN(4) {
		case 0:
			term = []string{word()}
		case 1:
			term = term[:1+r.IntN(len(term))]
		}
		s := strings.Join(term, " ")
		switch r.IntN(8) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = strings.ReplaceAll(s, " ", "")
		case 2:
			s = strings.ReplaceAll(s, " ", "  ")
		}
		b.WriteString(s)
		b.WriteString([]string{" ", " ", " ", ", ", "  ", "\n"}[r.IntN(6)])
	}
	return replace{Filter: spec, Text: rt.Bytes(b.String())}
}

func Test(t *testing.T) {
	rt.Main(t, "C08",
		rt.P[replace]{
			Name:  "random",
			Rule:  "up to 5 mappings over a small vocabulary (so that synonyms overlap and extend each other), with and without case and ignored characters, on texts made of synonyms, cut and respelled synonyms, words, spaces and punctuation, some of them lemmas already; non-trivial: something is replaced or dropped",
			Quick: 360000, Thorough: 3000000,
			Gen: func(t *rapid.T) replace {
				s := kitf.GenSynonyms(t, true)
				return replace{Filter: s, Text: rt.Bytes(kitf.SynonymText(t, s)), Mask: kit.GenMask(t)}
			},
			Check: check,
		},
		rt.P[replace]{
			Name:  "html",
			Rule:  "the same, on HTML; non-trivial: something is replaced or dropped",
			Quick: 60000, Thorough: 300000,
			Gen: func(t *rapid.T) replace {
				s := kitf.GenSynonyms(t, true)
				text := kitf.SynonymText(t, s) + gen.HTML(t, gen.Opt{NoTerms: true, Extra: kitf.Vocabulary}, 4) + kitf.SynonymText(t, s)
				return replace{Filter: s, HTML: true, Text: rt.Bytes(text)}
			},
			Check: check,
		},
		rt.P[replace]{
			Name:       "small",
			Rule:       "5 sets of overlapping mappings, on every text of up to 5 (thorough: 6) of the words a, b, c, d, e, separated by spaces or, at one place, by a comma, a hyphen, two spaces or nothing; non-trivial: something is replaced or dropped",
			Exhaustive: true,
			Enum: func(yield func(replace) bool) {
				words := []string{"a", "b", "c", "d", "e"}
				seps := []string{" ", ", ", "-", "  ", "", ".", "\n"}
				max := rt.Pick(5, 6)
				var each func(prefix []string) bool
				each = func(prefix []string) bool {
					n := len(prefix)
					if n > 0 {
						for at := 0; at < n; at++ {
							for si, sep := range seps {
								if si > 0 && at == 0 || si == 0 && at > 0 {
									continue
								}
								text := ""
								for i, w := range prefix {
									if i > 0 {
										if i == at {
											text += sep
										} else {
											text += " "
										}
									}
									text += w
								}
								for _, l := range lists {
									if !yield(replace{Filter: l, Text: rt.Bytes(text)}) {
										return false
									}
								}
							}
						}
					}
					if n == max {
						return true
					}
					for _, w := range words {
						if !each(append(prefix[:n:n], w)) {
							return false
						}
					}
					return true
				}
				each(nil)
			},
			Check: check,
		},
		rt.P[scale]{
			Name:  "scale",
			Rule:  "dictionaries of up to 20,000 synonyms, of up to 40 words each and with characters of many scripts, on texts of up to 3,000 pieces: synonyms, beginnings of synonyms, words; non-trivial: something is replaced",
			Quick: 400, Thorough: 8000,
			Gen: func(t *rapid.T) scale {
				return scale{
					Seed:     rapid.Uint64Range(0, 1<<40).Draw(t, "seed"),
					Entries:  rapid.SampledFrom([]int{1, 10, 100, 1000, 20000}).Draw(t, "entries"),
					Words:    rapid.SampledFrom([]int{1, 2, 5, 12, 40}).Draw(t, "words"),
					Vocab:    rapid.SampledFrom([]int{2, 10, 100, 3000}).Draw(t, "vocab"),
					Pieces:   rapid.SampledFrom([]int{3, 30, 300, 3000}).Draw(t, "pieces"),
					Fold:     rapid.Bool().Draw(t, "fold"),
					NoSpaces: rapid.Bool().Draw(t, "nospaces"),
				}
			},
			Check: func(c scale, info *rt.Info) error { return check(c.replace(), info) },
		},
		kitf.Runs([][]string{{"gone"}, {"ab", " ", "cd"}, {"ab"}, {"ab", " "}, {" "}, {"x", " "}, {".", "ab"}, {"ab", ","}, {"\u00a0"}},
			kitf.Spec{Kind: "synonyms", Mappings: map[string]string{"gone": "", "ab cd": "X", "ab cd ab cd ab ef": "Y"}, Ignore: " ", Fold: true},
			kitf.Spec{Kind: "synonyms", Mappings: map[string]string{"gone": "g", "ab cd": "", "ab": "", "x": "ab"}}),
	)
}
