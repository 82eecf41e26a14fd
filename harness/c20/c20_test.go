package c20

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
	"pgregory.net/rapid"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type mapped struct {
	Funcs []string
	Toks  []model.Tok
}

func funcOf(name string) func(model.Tok) model.Tok {
	switch name {
	case "upper":
		return func(t model.Tok) model.Tok { return model.New(strings.ToUpper(t.S), true) }
	case "double":
		return func(t model.Tok) model.Tok { return model.New(t.S+t.S, t.Lemma) }
	case "same":
		return func(t model.Tok) model.Tok { return t }
	case "first":
		return func(t model.Tok) model.Tok { return model.New(string([]rune(t.S)[:1]), true) }
	case "mark":
		return func(t model.Tok) model.Tok { return model.New(t.S, true) }
	case "const":
		return func(t model.Tok) model.Tok { return model.New("—", false) }
	}
	rt.Must(fmt.Errorf("no func %q", name))
	return nil
}

func check(c mapped, info *rt.Info) error {
	var in []model.Tok
	for _, t := range c.Toks {
		in = append(in, model.New(t.S, t.Lemma))
	}
	var calls []string
	var wantCalls []string
	var funcs []func(*jargon.Token) *jargon.Token
	for i, name := range c.Funcs {
		i, f := i, funcOf(name)
		funcs = append(funcs, func(t *jargon.Token) *jargon.Token {
			calls = append(calls, fmt.Sprintf("%d:%v", i, model.Of(t)))
			before := model.Of(t)
			after := f(before)
			if after == before {
				return t
			}
			return jargon.NewToken(after.S, after.Lemma)
		})
	}
	var want []model.Tok
	for _, t := range in {
		for i, name := range c.Funcs {
			wantCalls = append(wantCalls, fmt.Sprintf("%d:%v", i, t))
			t = funcOf(name)(t)
		}
		want = append(want, t)
	}
	f := mapper.NewFilter(funcs...)
	for use := 0; use < 2; use++ {
		calls = nil
		got, err := kit.Collect(f(kit.Source(in, nil)))
		if err != nil {
			return fmt.Errorf("unexpected error: %v", err)
		}
		if err := model.Diff(got, want); err != nil {
			return fmt.Errorf("use %d: %w", use, err)
		}
		if strings.Join(calls, "\n") != strings.Join(wantCalls, "\n") {
			return fmt.Errorf("use %d: functions were called %q, expected %q", use, calls, wantCalls)
		}
	}
	info.NonTrivial = len(c.Funcs) >= 2 && len(in) >= 2
	return nil
}

func Test(t *testing.T) {
	rt.Main(t, "C20",
		rt.P[mapped]{
			Name:  "mapped",
			Rule:  "up to 4 functions on up to 8 tokens: each output is the composition, in order, on the input at the same place, and each function sees each token once; non-trivial: at least 2 functions and 2 tokens",
			Quick: 1800000, Thorough: 12000000,
			Gen: func(t *rapid.T) mapped {
				c := mapped{Funcs: rapid.SliceOfN(rapid.SampledFrom([]string{"upper", "double", "same", "first", "mark", "const"}), 0, 4).Draw(t, "funcs")}
				for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
					c.Toks = append(c.Toks, model.Tok{S: rapid.SampledFrom([]string{"foo", " ", ".", "é", "The", "the", "\n", "ß", "日本"}).Draw(t, "s"), Lemma: rapid.Bool().Draw(t, "lemma")})
				}
				return c
			},
			Check: check,
		},
		rt.P[mapped]{
			Name:  "many",
			Rule:  "up to 40 functions, up to 3,000 tokens; non-trivial: at least 2 functions and 2 tokens",
			Quick: 1200, Thorough: 12000,
			Gen: func(t *rapid.T) mapped {
				fs := []string{"upper", "same", "first", "mark", "const"}
				c := mapped{Funcs: rapid.SliceOfN(rapid.SampledFrom(fs), 0, 40).Draw(t, "funcs")}
				unit := rapid.SliceOfN(rapid.SampledFrom([]string{"foo", " ", ".", "é", "The", "the", "\n", "ß", "日本"}), 1, 7).Draw(t, "toks")
				for n := rapid.SampledFrom([]int{10, 100, 3000}).Draw(t, "n") / (1 + len(c.Funcs)/4); len(c.Toks) < n; {
					for _, s := range unit {
						c.Toks = append(c.Toks, model.Tok{S: s, Lemma: len(c.Toks)%3 == 0})
					}
				}
				return c
			},
			Check: func(c mapped, info *rt.Info) error {
				if err := check(c, info); err != nil {
					return fmt.Errorf("%.2000s", err)
				}
				return nil
			},
		},
		kitf.Runs([][]string{{"word"}, {"É", " "}, {"UP", "x"}, {"."}}, kitf.Spec{Kind: "upper"}),
		kitf.Varied("upper"),
	)
}
