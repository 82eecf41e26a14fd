package c05

import (
	"fmt"
	"strings"
	"testing"
	"unicode"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/rt"
)

type str struct {
	S rt.Bytes
}

// far is a long string with something else within
type far struct {
	Unit, Other string
	N, At       int
}

// block is a range of 256 code points
type block struct {
	From int
}

func check(s string) error {
	for _, lemma := range []bool{false, true} {
		t := jargon.NewToken(s, lemma)
		if s == "" {
			if t != nil {
				return fmt.Errorf("NewToken of an empty string is %v, expected nil", t)
			}
			continue
		}
		if t == nil {
			return fmt.Errorf("NewToken(%q, %t) is nil", s, lemma)
		}
		want := model.New(s, lemma)
		if got := model.Of(t); got != want {
			return fmt.Errorf("NewToken(%q, %t): got %v, expected %v", s, lemma, got, want)
		}
	}
	return nil
}

// tokenized tokens are classified the same way
func checkTokenized(s string) error {
	ts, err := jargon.TokenizeString(s).ToSlice()
	if err != nil {
		return err
	}
	for _, t := range ts {
		if got, want := model.Of(t), model.New(t.String(), false); got != want {
			return fmt.Errorf("tokenized: got %v, expected %v", got, want)
		}
	}
	return nil
}

var common = strings.Fields("A a An an The the And and Or or Not not Of of In in On on To to Be be Is is Are are Has has Have have It it Do do . ,")

func Test(t *testing.T) {
	punct := []string{".", ",", "!", "-", "—", "\n", "\r", "\t", "_", "«", "。", "\u2028"}
	space := []string{" ", "\n", "\r", "\t", "\u00a0", "\u3000", "\u2028", "\u0085", "\v"}
	other := []string{"a", "1", "$", "+", "é", "日", "\u0301", "\u200b", "\ufeff", "😀", "^", "\x00", "<"}
	all := append(append(append(append([]string{}, punct...), space...), other...), common...)

	rt.Main(t, "C05",
		rt.P[block]{
			Name:       "runes",
			Rule:       "every code point, alone and doubled and beside a letter, a space and a comma, in blocks of 256; non-trivial: all",
			Exhaustive: true,
			Enum: func(yield func(block) bool) {
				for from := 0; from <= unicode.MaxRune; from += 256 {
					if !yield(block{from}) {
						return
					}
				}
			},
			Check: func(c block, info *rt.Info) error {
				info.NonTrivial = true
				for r := c.From; r < c.From+256; r++ {
					s := string(rune(r))
					for _, v := range []string{s, s + s, s + "a", " " + s, s + ",", s + "\n"} {
						if err := check(v); err != nil {
							return fmt.Errorf("U+%04X: %w", r, err)
						}
					}
				}
				return nil
			},
		},
		rt.P[str]{
			Name:  "strings",
			Rule:  "strings of up to 5 pieces (punctuation, spaces, letters, symbols, common words); non-trivial: at least 2 characters",
			Quick: 1600000, Thorough: 16000000,
			Gen: func(t *rapid.T) str {
				if rapid.IntRange(0, 3).Draw(t, "free") == 0 {
					return str{rt.Bytes(gen.Text(t, gen.Opt{Max: 3, Invalid: true}))}
				}
				pool := rapid.SampledFrom([][]string{punct, space, other, all, common, append(append([]string{}, punct...), space...)}).Draw(t, "pool")
				return str{rt.Bytes(gen.Joined(t, pool, 5))}
			},
			Check: func(c str, info *rt.Info) error {
				s := string(c.S)
				info.NonTrivial = len([]rune(s)) >= 2
				m := model.New(s, false)
				info.LabelIf(s != "" && m.Punct && m.Space, "both punct and space")
				info.LabelIf(s != "" && m.Punct && !m.Space, "punct")
				info.LabelIf(s != "" && !m.Punct && m.Space, "space")
				if err := check(s); err != nil {
					return err
				}
				return checkTokenized(s)
			},
		},
		rt.P[far]{
			Name:  "long",
			Rule:  "strings of up to 5,000 characters of one class, with one of another class at any place; all are non-trivial",
			Quick: 60000, Thorough: 600000,
			Gen: func(t *rapid.T) far {
				c := far{N: rapid.IntRange(1, 5000).Draw(t, "n"), Unit: rapid.SampledFrom(all).Draw(t, "unit"), Other: rapid.SampledFrom(append([]string{""}, all...)).Draw(t, "other")}
				c.At = rapid.SampledFrom([]int{0, c.N / 2, c.N - 1, c.N, -1}).Draw(t, "at")
				if c.At < 0 {
					c.At = rapid.IntRange(0, c.N).Draw(t, "where")
				}
				return c
			},
			Check: func(c far, info *rt.Info) error {
				info.NonTrivial = true
				if err := check(strings.Repeat(c.Unit, c.At) + c.Other + strings.Repeat(c.Unit, c.N-c.At)); err != nil {
					return fmt.Errorf("%.2000s", err)
				}
				return nil
			},
		},
	)
}
