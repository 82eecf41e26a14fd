package kitf

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/model"
	"verif/harness/rt"
)

// TokensCase is a filter on tokens which a tokenizer does not have to make.
type TokensCase struct {
	Kind string
	Toks []model.Tok
}

func checkTokens(c TokensCase, info *rt.Info) error {
	var in []model.Tok
	for _, t := range c.Toks {
		if t.S != "" {
			in = append(in, model.New(t.S, t.Lemma))
		}
	}
	spec := Spec{Kind: c.Kind}
	want := spec.Model()(in)
	info.NonTrivial = len(in) > 0
	info.LabelIf(model.Diff(in, want) != nil, "changes")
	got, err := kit.Collect(spec.Filter()(kit.Source(in, nil)))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	return model.Diff(got, want)
}

// Tokens is a check of filters on tokens of any text, as other filters may make them.
func Tokens(words []string, kinds ...string) rt.P[TokensCase] {
	around := []string{"'", "’", " ", "\n", "\t", "\u00a0", "-", ".", ",", "_", "@", "#", "$", "s", "S", "x", "1", "\u0301", "\u200d", "'s", "é", "\x00", "\xff", "😀"}
	return rt.P[TokensCase]{
		Name:  "tokens",
		Rule:  "the filter on up to 6 tokens of its vocabulary and others, with characters before, after or inside which a tokenizer would split off, as other filters may make them; non-trivial: at least one token",
		Quick: 400000, Thorough: 4000000,
		Gen: func(t *rapid.T) TokensCase {
			c := TokensCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
			for i := rapid.IntRange(1, 6).Draw(t, "toks"); i > 0; i-- {
				var s string
				if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
					s = gen.Fragment(t, gen.Opt{Invalid: true})
				} else {
					s = rapid.SampledFrom(words).Draw(t, "word")
				}
				if rapid.IntRange(0, 3).Draw(t, "recase") == 0 {
					s = gen.CaseOf(t, s)
				}
				if rapid.IntRange(0, 5).Draw(t, "like") == 0 {
					s = gen.Alias(t, s)
				}
				for j := rapid.IntRange(0, 2).Draw(t, "decorations"); j > 0; j-- {
					d := rapid.SampledFrom(around).Draw(t, "decoration")
					switch rapid.IntRange(0, 3).Draw(t, "where") {
					case 0:
						s = d + s
					case 1:
						s += d
					case 2:
						s = d + s + d
					case 3:
						r := []rune(s)
						at := rapid.IntRange(0, len(r)).Draw(t, "at")
						s = string(r[:at]) + d + string(r[at:])
					}
				}
				c.Toks = append(c.Toks, model.Tok{S: s, Lemma: rapid.IntRange(0, 3).Draw(t, "lemma") == 0})
			}
			return c
		},
		Check: checkTokens,
	}
}
