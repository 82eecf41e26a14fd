package c14

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/contractions"
	"pgregory.net/rapid"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type text struct {
	Text rt.Bytes
	Mask uint64 `json:",omitempty"` // which tokens are lemmas already
}

func check(c text, info *rt.Info) error {
	toks := model.Tokenize(string(c.Text))
	in := jargon.TokenizeString(string(c.Text))
	if c.Mask != 0 {
		toks = kit.Mark(toks, c.Mask)
		in = kit.Source(toks, nil)
	}
	want := model.Contractions(toks)
	info.NonTrivial = len(want) > len(toks)
	got, err := kit.Collect(contractions.Expand(in))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	return model.Diff(got, want)
}

// word is one contraction, of which every combination of upper and lower case is tried
type word struct {
	Word string
}

func Test(t *testing.T) {
	rt.Main(t, "C14",
		rt.P[word]{
			Name:       "cases",
			Rule:       "every contraction, with a straight and a curly apostrophe, in every combination of upper and lower case; non-trivial: all",
			Exhaustive: true,
			Enum: func(yield func(word) bool) {
				var keys []string
				for k := range data.Contractions {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					if !yield(word{k}) || strings.Contains(k, "'") && !yield(word{strings.ReplaceAll(k, "'", "’")}) {
						return
					}
				}
			},
			Check: func(c word, info *rt.Info) error {
				info.NonTrivial = true
				letters := []rune(c.Word)
				for mask := 0; mask < 1<<uint(len(letters)); mask++ {
					v := append([]rune{}, letters...)
					for i := range v {
						if mask&(1<<uint(i)) != 0 {
							u := []rune(strings.ToUpper(string(v[i])))[0]
							if u == v[i] {
								v = nil // apostrophe
								break
							}
							v[i] = u
						}
					}
					if v == nil {
						continue
					}
					s := string(v)
					exp, ok := model.Expansion(s)
					if !ok {
						rt.Must(fmt.Errorf("no expansion of %q", s))
					}
					got, err := contractions.Expand(jargon.TokenizeString(s)).String()
					if err != nil {
						return err
					}
					if got != exp {
						return fmt.Errorf("%q expands to %q, expected %q", s, got, exp)
					}
					if err := check(text{Text: rt.Bytes("x " + s + ", " + s + "\n")}, &rt.Info{}); err != nil {
						return err
					}
				}
				return nil
			},
		},
		rt.P[text]{
			Name:  "text",
			Rule:  "texts with contractions, near-contractions (other apostrophes, prefixes, suffixes, one letter off) and other words, some of them lemmas already; non-trivial: something is expanded",
			Quick: 960000, Thorough: 9000000,
			Gen: func(t *rapid.T) text {
				var b strings.Builder
				for i := rapid.IntRange(0, 10).Draw(t, "n"); i > 0; i-- {
					switch rapid.IntRange(0, 4).Draw(t, "piece") {
					case 0, 1:
						b.WriteString(gen.Contraction(t))
					case 2:
						s := []rune(gen.Contraction(t))
						at := rapid.IntRange(0, len(s)-1).Draw(t, "at")
						switch rapid.IntRange(0, 4).Draw(t, "mutation") {
						case 0:
							s = append(s[:at], s[at+1:]...)
						case 1:
							s[at] = rapid.SampledFrom([]rune("aes'’`´ʼx1İıſ")).Draw(t, "r")
						case 2:
							s = append(s, rapid.SampledFrom([]rune("s'’.\u0301_x")).Draw(t, "r"))
						case 3:
							s = append([]rune{rapid.SampledFrom([]rune("xI'_@.")).Draw(t, "r")}, s...)
						case 4:
							s = append(s, []rune(gen.Contraction(t))...)
						}
						b.WriteString(string(s))
					case 3:
						b.WriteString(gen.Fragment(t, gen.Opt{Invalid: true}))
					}
					b.WriteString(rapid.SampledFrom([]string{" ", " ", " ", ", ", "\n", "", ". "}).Draw(t, "space"))
				}
				return text{Text: rt.Bytes(b.String()), Mask: kit.GenMask(t)}
			},
			Check: check,
		},
		rt.P[text]{
			Name:  "long",
			Rule:  "texts of up to 60 KB, made by repeating contractions, words and spaces; non-trivial: something is expanded",
			Quick: 2400, Thorough: 40000,
			Gen: func(t *rapid.T) text {
				s := gen.Contraction(t) + rapid.SampledFrom([]string{" ", ", ", "\n", "   "}).Draw(t, "space") + gen.Text(t, gen.Opt{Max: 4}) + " "
				return text{Text: rt.Bytes(gen.Long(t, s))}
			},
			Check: check,
		},
		kitf.Tokens([]string{"don't", "can't", "We’ll", "I'm", "CAN'T", "gonna", "it's", "n't", "not", "can"}, "contractions"),
		kitf.Runs([][]string{{"don't"}, {"Don’t", " "}, {" "}, {"x"}, {"."}, {"I'LL", "x", "\n"}}, kitf.Spec{Kind: "contractions"}),
		kitf.Varied("contractions"),
	)
}
