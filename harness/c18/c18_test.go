package c18

import (
	"fmt"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type stop struct {
	List []string
	Fold bool
	Toks []model.Tok
}

func check(c stop, info *rt.Info) error {
	var in []model.Tok
	for _, t := range c.Toks {
		if t.S != "" {
			in = append(in, model.New(t.S, t.Lemma))
		}
	}
	want := model.Stop(c.List, c.Fold)(in)
	info.NonTrivial = len(want) > 0 && len(want) < len(in)
	info.LabelIf(c.Fold, "ignoring case")
	list := append([]string(nil), c.List...)
	f := stopwords.NewFilter(list, c.Fold)
	// Another one, made of the same list, has its own rules
	f2 := stopwords.NewFilter(list, !c.Fold)
	// It has been given the list; what becomes of it later does not matter
	for i := range list {
		list[i] = "changed"
	}
	for i := 0; i < 2; i++ {
		got, err := kit.Collect(f(kit.Source(in, nil)))
		if err != nil {
			return fmt.Errorf("unexpected error: %v", err)
		}
		if err := model.Diff(got, want); err != nil {
			return fmt.Errorf("use %d: %w", i, err)
		}
	}
	got, err := kit.Collect(f2(kit.Source(in, nil)))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	if err := model.Diff(got, model.Stop(c.List, !c.Fold)(in)); err != nil {
		return fmt.Errorf("second filter: %w", err)
	}
	return nil
}

type block struct {
	From int
	Fold bool
}

type long struct {
	Words, Every, N int
	Fold            bool
}

func checkLong(c long, info *rt.Info) error {
	var list []string
	for i := 0; i < c.Words; i++ {
		list = append(list, fmt.Sprintf("Word%d", i))
	}
	f := stopwords.NewFilter(list, c.Fold)
	info.NonTrivial = c.N > 1000
	i := -1
	in := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i++; i >= c.N {
			return nil, nil
		}
		if (i+1)%c.Every == 0 && c.Every > 1 {
			return jargon.NewToken(fmt.Sprintf("other%d", i), false), nil
		}
		return jargon.NewToken(list[i%len(list)], false), nil
	})
	s := f(in)
	for j := c.Every - 1; c.Every > 1 && j < c.N; j += c.Every {
		t, err := s.Next()
		if want := fmt.Sprintf("other%d", j); err != nil || t == nil || t.String() != want {
			return fmt.Errorf("got %v, %v, expected %q", t, err, want)
		}
	}
	if t, err := s.Next(); t != nil || err != nil {
		return fmt.Errorf("got %v, %v, expected the end", t, err)
	}
	return nil
}

func Test(t *testing.T) {
	rt.Main(t, "C18",
		rt.P[stop]{
			Name:  "stop",
			Rule:  "lists of stop words (words in several scripts and cases, punctuation, spaces, phrases, the empty string), with case or without, on streams of tokens that include them, in other cases too, some of them lemmas; non-trivial: some tokens are dropped, some are not",
			Quick: 1500000, Thorough: 10000000,
			Gen: func(t *rapid.T) stop {
				pool := append([]string{}, gen.Words...)
				pool = append(pool, " ", ".", ",", "\n", "-", "", "two words", "ΣΊΣΥΦΟΣ", "СЛОВО", "слово", "ÉTÉ", "été", "I", "i", "K", "ss", "ß")
				c := stop{Fold: rapid.Bool().Draw(t, "fold")}
				c.List = rapid.SliceOfN(rapid.SampledFrom(pool), 0, 6).Draw(t, "list")
				for i := rapid.IntRange(0, 10).Draw(t, "toks"); i > 0; i-- {
					s := rapid.SampledFrom(pool).Draw(t, "any")
					if len(c.List) > 0 && rapid.Bool().Draw(t, "hit") {
						s = rapid.SampledFrom(c.List).Draw(t, "stopped")
						if rapid.Bool().Draw(t, "recase") {
							s = gen.CaseOf(t, s)
						}
						if rapid.IntRange(0, 5).Draw(t, "like") == 0 {
							s = gen.Alias(t, s)
						}
						if rapid.IntRange(0, 5).Draw(t, "near") == 0 {
							s = strings.TrimSuffix(s+"s", "ss")
						}
					}
					c.Toks = append(c.Toks, model.Tok{S: s, Lemma: rapid.IntRange(0, 3).Draw(t, "lemma") == 0})
				}
				return c
			},
			Check: check,
		},
		rt.P[block]{
			Name:       "runes",
			Rule:       "every code point as a stop word, with case or without, and it and what is like it in other cases as tokens, in blocks of 256; all are non-trivial",
			Exhaustive: true,
			Enum: func(yield func(block) bool) {
				for from := 0; from <= unicode.MaxRune; from += 256 {
					if !yield(block{from, false}) || !yield(block{from, true}) {
						return
					}
				}
			},
			Check: func(c block, info *rt.Info) error {
				// One list of the code points that are a multiple of 3, for each offset
				for offset := 0; offset < 3; offset++ {
					s := stop{Fold: c.Fold}
					for r := rune(c.From); r < rune(c.From+256); r++ {
						if !utf8.ValidRune(r) {
							continue
						}
						if int(r)%3 == offset {
							s.List = append(s.List, string(r))
						}
						if unicode.SimpleFold(r) == r && !unicode.IsLetter(r) {
							s.Toks = append(s.Toks, model.Tok{S: string(r)})
							continue
						}
						for _, x := range []string{string(r), strings.ToLower(string(r)), strings.ToUpper(string(r)), strings.ToTitle(string(r)), string(unicode.SimpleFold(r))} {
							s.Toks = append(s.Toks, model.Tok{S: x})
						}
					}
					if err := check(s, info); err != nil {
						return err
					}
				}
				info.NonTrivial = true
				return nil
			},
		},
		rt.P[long]{
			Name:  "long",
			Rule:  "lists of up to 3,000 words, and streams of up to 200,000 tokens, with up to all of them stopped in a row; non-trivial: more than 1,000 tokens",
			Quick: 160, Thorough: 6000,
			Gen: func(t *rapid.T) long {
				return long{
					Words: rapid.SampledFrom([]int{1, 10, 300, 3000}).Draw(t, "words"),
					Every: rapid.SampledFrom([]int{1, 2, 3, 100, 100000}).Draw(t, "every"),
					N:     rapid.SampledFrom([]int{100, 5000, 60000, 200000}).Draw(t, "n"),
					Fold:  rapid.Bool().Draw(t, "fold"),
				}
			},
			Check: checkLong,
		},
		kitf.Runs([][]string{{"the"}, {"The"}, {" "}, {"x"}, {"x", "the"}, {"FOO", " ", "the"}, {"."}}, kitf.Spec{Kind: "stop", List: []string{"the", "Foo", " "}, Fold: true}, kitf.Spec{Kind: "stop", List: []string{"the", "x", "."}}),
	)
}
