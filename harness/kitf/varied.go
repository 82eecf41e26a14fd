package kitf

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/rt"
)

// VariedCase is a filter on many different random words, determined by a seed.
type VariedCase struct {
	Kind string
	N    int
	Seed uint64
}

var alphabets = map[string]string{
	"russian": "абвгдежзийклмнопрстуфхцчшщъыьэюя",
	"french":  "abcdefghijklmnopqrstuvwxyzéèêçà",
	"":        "abcdefghijklmnopqrstuvwxyz",
	"marks":   "abcdefghijklmnopqrstuvwxyzéüñœſ\u0301\u0308ﬁⅣ가각ÅÅ",
}

var specials = map[string][]string{
	"contractions": {"don't", "We’ll", "CAN'T", "gonna"},
	"tags":         {"nodejs", "Python", "sql"},
	"nba":          {"nothing"},
}

// Words are random words.
func Words(n int, seed uint64, alphabet string) []string {
	letters := []rune(alphabet)
	r := rand.New(rand.NewPCG(seed, 31))
	words := make([]string, n)
	for i := range words {
		var b strings.Builder
		for j := 3 + r.IntN(7); j > 0; j-- {
			b.WriteRune(letters[r.IntN(len(letters))])
		}
		words[i] = b.String()
	}
	return words
}

func (c VariedCase) tokens() []model.Tok {
	alphabet := alphabets[""]
	switch c.Kind {
	case "ascii", "nfc", "nfd", "nfkc", "nfkd", "upper":
		alphabet = alphabets["marks"]
	case "russian":
		alphabet = alphabets[c.Kind]
	case "french", "spanish", "swedish", "norwegian":
		alphabet = alphabets["french"]
	}
	special := specials[c.Kind]
	var toks []model.Tok
	for i, w := range Words(c.N, c.Seed, alphabet) {
		if len(special) > 0 && i%7 == 0 {
			w = special[i/7%len(special)]
		}
		if i%3 == 0 {
			switch c.Kind {
			case "handles":
				toks = append(toks, model.New("@", false))
			case "hashtags":
				toks = append(toks, model.New("#", false))
			case "dollar":
				toks = append(toks, model.New("$", false))
			}
		}
		toks = append(toks, model.New(w, false), model.New(" ", false))
	}
	return toks
}

func checkVaried(c VariedCase, info *rt.Info) error {
	in := c.tokens()
	spec := Spec{Kind: c.Kind}
	want := spec.Model()(in)
	info.NonTrivial = true
	i := 0
	s := spec.Filter()(jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i >= len(in) {
			return nil, nil
		}
		i++
		return jargon.NewToken(in[i-1].S, in[i-1].Lemma), nil
	}))
	for n, w := range want {
		t, err := s.Next()
		if err != nil || t == nil {
			return fmt.Errorf("token %d of %d: got %v, %v, expected %v", n, len(want), t, err, w)
		}
		if got := model.Of(t); got != w {
			return fmt.Errorf("token %d of %d: got %v, expected %v", n, len(want), got, w)
		}
	}
	if t, err := s.Next(); t != nil || err != nil {
		return fmt.Errorf("after the last token: %v, %v", t, err)
	}
	return nil
}

// Varied is a check of filters on many different words.
func Varied(kinds ...string) rt.P[VariedCase] {
	return rt.P[VariedCase]{
		Name: "varied",
		Rule: "the filter on 100,000 to 300,000 different random words, as one stream; all are non-trivial",
		// The number of cases is small, since each is large
		Quick: 16, Thorough: 160,
		Gen: func(t *rapid.T) VariedCase {
			return VariedCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), N: rapid.IntRange(100000, 300000).Draw(t, "n"), Seed: rapid.Uint64Range(0, 1<<40).Draw(t, "seed")}
		},
		Check: checkVaried,
	}
}
