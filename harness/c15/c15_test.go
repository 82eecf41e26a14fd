package c15

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"pgregory.net/rapid"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type block struct {
	From int
}

type text struct {
	Text rt.Bytes
	Mask uint64 `json:",omitempty"` // which tokens are lemmas already
}

func checkString(s string) error {
	want, folds := model.FoldString(s)
	got, folded := ascii.FoldString(s)
	if folded != folds {
		return fmt.Errorf("FoldString(%q): folded is %t, expected %t", s, folded, folds)
	}
	if got != want {
		return fmt.Errorf("FoldString(%q): got %q, expected %q", s, got, want)
	}
	again, more := ascii.FoldString(got)
	if again != got || more {
		return fmt.Errorf("FoldString is not idempotent: %q, then %q, then %q", s, got, again)
	}
	return nil
}

var foldable = func() []string {
	var ss []string
	for r := range data.Fold {
		ss = append(ss, string(r))
	}
	sort.Strings(ss)
	return ss
}()

func Test(t *testing.T) {
	rt.Main(t, "C15",
		rt.P[block]{
			Name:       "runes",
			Rule:       "every code point, alone, after and before a letter, and beside a character that folds, in blocks of 256; non-trivial: all",
			Exhaustive: true,
			Enum: func(yield func(block) bool) {
				for from := 0; from <= unicode.MaxRune; from += 256 {
					if !yield(block{from}) {
						return
					}
				}
			},
			Check: func(c block, info *rt.Info) error {
				info.NonTrivial = true
				for r := rune(c.From); r < rune(c.From+256); r++ {
					if !utf8.ValidRune(r) {
						continue
					}
					s := string(r)
					for _, v := range []string{s, "a" + s, s + "b", "é" + s, s + "é", s + s} {
						if err := checkString(v); err != nil {
							return fmt.Errorf("U+%04X: %w", r, err)
						}
					}
				}
				return nil
			},
		},
		rt.P[text]{
			Name:  "strings",
			Rule:  "strings of foldable characters, ASCII and others; non-trivial: something folds, something does not",
			Quick: 1200000, Thorough: 12000000,
			Gen: func(t *rapid.T) text {
				var b strings.Builder
				for i := rapid.IntRange(0, 12).Draw(t, "n"); i > 0; i-- {
					switch rapid.IntRange(0, 3).Draw(t, "piece") {
					case 0, 1:
						b.WriteString(rapid.SampledFrom(foldable).Draw(t, "foldable"))
					case 2:
						b.WriteString(rapid.SampledFrom([]string{"a", "Z", "0", " ", "日", "я", "\u0301", "😀", "~", "\x00", "\x7f", "\u0080"}).Draw(t, "other"))
					default:
						b.WriteRune(rapid.Rune().Draw(t, "rune"))
					}
				}
				return text{Text: rt.Bytes(strings.ToValidUTF8(b.String(), ""))}
			},
			Check: func(c text, info *rt.Info) error {
				_, folds := model.FoldString(string(c.Text))
				info.NonTrivial = folds && len([]rune(string(c.Text))) > 1
				return checkString(string(c.Text))
			},
		},
		rt.P[text]{
			Name:  "filter",
			Rule:  "texts through the filter: folded tokens become lemmas, others are left alone; non-trivial: some token folds, some does not",
			Quick: 480000, Thorough: 4000000,
			Gen: func(t *rapid.T) text {
				return text{Text: rt.Bytes(strings.ToValidUTF8(gen.Text(t, gen.Opt{Max: 12, Extra: foldable}), "?")), Mask: kit.GenMask(t)}
			},
			Check: func(c text, info *rt.Info) error {
				toks := kit.Mark(model.Tokenize(string(c.Text)), c.Mask)
				in := jargon.TokenizeString(string(c.Text))
				if c.Mask != 0 {
					in = kit.Source(toks, nil)
				}
				want := model.Fold(toks)
				n := len(model.Lemmas(want))
				info.NonTrivial = n > 0 && n < len(want)
				got, err := kit.Collect(ascii.Fold(in))
				if err != nil {
					return fmt.Errorf("unexpected error: %v", err)
				}
				return model.Diff(got, want)
			},
		},
		rt.P[text]{
			Name:  "long",
			Rule:  "strings of up to 60 KB, and tokens as long, made by repeating foldable characters and others; non-trivial: something folds",
			Quick: 4000, Thorough: 40000,
			Gen: func(t *rapid.T) text {
				pool := append([]string{"a", "Z", " ", "日", "я", "\u0301", "😀"}, foldable...)
				s := gen.Joined(t, foldable, 3) + gen.Joined(t, pool, 8)
				return text{Text: rt.Bytes(gen.Long(t, s) + gen.Joined(t, pool, 3))}
			},
			Check: func(c text, info *rt.Info) error {
				s := string(c.Text)
				if s == "" {
					return nil
				}
				_, info.NonTrivial = model.FoldString(s)
				if err := checkString(s); err != nil {
					return fmt.Errorf("%.2000s", err)
				}
				toks := []model.Tok{model.New(s, false), model.New("é", false), model.New(s, true)}
				got, err := kit.Collect(ascii.Fold(kit.Source(toks, nil)))
				if err != nil {
					return fmt.Errorf("unexpected error: %v", err)
				}
				if err := model.Diff(got, model.Fold(toks)); err != nil {
					return fmt.Errorf("%.2000s", err)
				}
				return nil
			},
		},
		kitf.Tokens([]string{"naïve", "café", "word", "ﬁn", "ß", "Ⅳ", "“x”", "日本", "two words"}, "ascii"),
		kitf.Runs([][]string{{"café"}, {"word", " "}, {"—", "é"}, {"日"}, {"\u00a0"}}, kitf.Spec{Kind: "ascii"}),
		kitf.Varied("ascii"),
	)
}
