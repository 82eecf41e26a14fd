package kitf

import (
	"fmt"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/rt"
)

// RunsCase is a filter on long runs of the same tokens.
type RunsCase struct {
	Spec Spec
	Runs []Run
}

// Run is a list of tokens, repeated.
type Run struct {
	Toks  []string
	Lemma bool `json:",omitempty"`
	Times int
}

func (c RunsCase) tokens() []model.Tok {
	var toks []model.Tok
	for _, r := range c.Runs {
		var unit []model.Tok
		for _, s := range r.Toks {
			unit = append(unit, model.New(s, r.Lemma))
		}
		for i := 0; i < r.Times; i++ {
			toks = append(toks, unit...)
		}
	}
	return toks
}

func checkRuns(c RunsCase, info *rt.Info) error {
	in := c.tokens()
	want := c.Spec.Model()(in)
	info.NonTrivial = len(in) > 1000 && len(want) > 0
	info.LabelIf(len(want) < len(in)/2, "drops most tokens")
	i := 0
	s := c.Spec.Filter()(jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i >= len(in) {
			return nil, nil
		}
		i++
		return jargon.NewToken(in[i-1].S, in[i-1].Lemma), nil
	}))
	for n, w := range want {
		t, err := s.Next()
		if err != nil || t == nil {
			return fmt.Errorf("token %d of %d: got %v, %v, expected %v", n, len(want), t, err, w)
		}
		if got := model.Of(t); got != w {
			return fmt.Errorf("token %d of %d: got %v, expected %v", n, len(want), got, w)
		}
	}
	if t, err := s.Next(); t != nil || err != nil {
		return fmt.Errorf("after the last token: %v, %v", t, err)
	}
	return nil
}

// Runs is a check of filters on long runs, of tokens that are drawn from units.
func Runs(units [][]string, specs ...Spec) rt.P[RunsCase] {
	return rt.P[RunsCase]{
		Name:  "runs",
		Rule:  "the filter on 1 to 5 runs of 1 to 300,000 times the same tokens, those which it drops or changes included; non-trivial: more than 1,000 tokens in, and at least one out",
		Quick: 48, Thorough: 800,
		Gen: func(t *rapid.T) RunsCase {
			c := RunsCase{Spec: rapid.SampledFrom(specs).Draw(t, "spec")}
			for i := rapid.IntRange(1, 4).Draw(t, "runs"); i > 0; i-- {
				r := Run{Toks: rapid.SampledFrom(units).Draw(t, "unit"), Lemma: rapid.IntRange(0, 3).Draw(t, "lemma") == 0}
				// Mostly, few or very many
				most := rapid.SampledFrom([]int{1, 3, 1100, 70000, 300000, 300000}).Draw(t, "most")
				r.Times = rapid.IntRange((most+1)/2, most).Draw(t, "times") / len(r.Toks)
				if r.Times == 0 {
					r.Times = 1
				}
				c.Runs = append(c.Runs, r)
			}
			c.Runs = append(c.Runs, Run{Toks: []string{"end", ".", "é", " "}, Lemma: rapid.Bool().Draw(t, "last"), Times: 1})
			return c
		},
		Check: checkRuns,
	}
}
