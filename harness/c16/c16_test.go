package c16

import (
	"fmt"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/norm"
	xnorm "golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type block struct {
	From int
}

type text struct {
	Text rt.Bytes
	Mask uint64 `json:",omitempty"` // which tokens are lemmas already
}

var forms = []struct {
	name   string
	filter jargon.Filter
	form   xnorm.Form
}{
	{"NFC", norm.NFC, xnorm.NFC},
	{"NFD", norm.NFD, xnorm.NFD},
	{"NFKC", norm.NFKC, xnorm.NFKC},
	{"NFKD", norm.NFKD, xnorm.NFKD},
}

func check(toks []model.Tok, info *rt.Info) error {
	for _, f := range forms {
		want := model.Norm(f.form)(toks)
		if n := len(model.Lemmas(want)); n > 0 && n < len(want) {
			info.NonTrivial = true
		}
		got, err := kit.Collect(kit.Source(toks, nil).Filter(f.filter))
		if err != nil {
			return fmt.Errorf("%s: unexpected error: %v", f.name, err)
		}
		if err := model.Diff(got, want); err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
		// (x/text composes a few unassigned or supplementary characters wrongly, after which the result is not
		// normal; so go by what it says about its own result)
		for i, t := range got {
			if !f.form.IsNormalString(t.S) && f.form.IsNormalString(want[i].S) {
				return fmt.Errorf("%s: token %d %q is not normal", f.name, i, t.S)
			}
		}
		again, err := kit.Collect(kit.Source(toks, nil).Filter(f.filter, f.filter))
		if err != nil {
			return fmt.Errorf("%s twice: unexpected error: %v", f.name, err)
		}
		if err := model.Diff(again, model.Norm(f.form)(want)); err != nil {
			return fmt.Errorf("%s twice: %w", f.name, err)
		}
	}
	return nil
}

var pieces = []string{"e", "a", "\u0301", "\u0323", "\u0308", "é", "ệ", "ﬁ", "①", "Å", "\u212b", "\u1e9b", "한", "\u1112\u1161\u11ab", "が", "か\u3099", "ｶﾞ", "½", "²", "\u0344", "\u0958", "ﷺ", "Ω", "\u00a0", "…", "™", "ſ", "ǅ", "日", "\uf900", "x"}

func Test(t *testing.T) {
	rt.Main(t, "C16",
		rt.P[block]{
			Name:       "runes",
			Rule:       "every code point as a token, alone and with a combining mark, in blocks of 256, through each of the four forms; non-trivial: some tokens of the block change, some do not",
			Exhaustive: true,
			Enum: func(yield func(block) bool) {
				for from := 0; from <= unicode.MaxRune; from += 256 {
					if !yield(block{from}) {
						return
					}
				}
			},
			Check: func(c block, info *rt.Info) error {
				var toks []model.Tok
				for r := rune(c.From); r < rune(c.From+256); r++ {
					if utf8.ValidRune(r) {
						toks = append(toks, model.New(string(r), false), model.New(string(r)+"\u0301", false), model.New("a"+string(r), true))
					}
				}
				return check(toks, info)
			},
		},
		rt.P[text]{
			Name:  "text",
			Rule:  "texts of composed and decomposed characters, marks in any order, compatibility characters; non-trivial: some tokens change, some do not",
			Quick: 180000, Thorough: 1000000,
			Gen: func(t *rapid.T) text {
				return text{Text: rt.Bytes(gen.Text(t, gen.Opt{Max: 8, Invalid: true, Extra: pieces}) + gen.Joined(t, pieces, 6)), Mask: kit.GenMask(t)}
			},
			Check: func(c text, info *rt.Info) error {
				toks := kit.Mark(model.Tokenize(string(c.Text)), c.Mask)
				info.LabelIf(strings.ToValidUTF8(string(c.Text), "") != string(c.Text), "invalid UTF-8")
				return check(toks, info)
			},
		},
		rt.P[text]{
			Name:  "long",
			Rule:  "tokens of up to 60 KB, made by repeating composed and decomposed characters, in any order, among others; non-trivial: some tokens change, some do not",
			Quick: 2400, Thorough: 24000,
			Gen: func(t *rapid.T) text {
				return text{Text: rt.Bytes(gen.Long(t, gen.Joined(t, pieces, 8)) + gen.Joined(t, pieces, 3))}
			},
			Check: func(c text, info *rt.Info) error {
				s := string(c.Text)
				if s == "" {
					return nil
				}
				toks := []model.Tok{model.New("x", false), model.New(s, false), model.New("é", false), model.New(s+"x", true)}
				if err := check(toks, info); err != nil {
					return fmt.Errorf("%.2000s", err)
				}
				return nil
			},
		},
		kitf.Tokens([]string{"naïve", "cafe\u0301", "word", "ﬁn", "가", "\u1100\u1161", "Å", "Ⅳ", "e", "\u0323\u0301", "two words"}, "nfc", "nfd", "nfkc", "nfkd"),
		kitf.Runs([][]string{{"café"}, {"word", " "}, {"e\u0301"}, {"ﬁ", "가"}, {"\u00a0"}, {"e", "\u0301"}}, kitf.Spec{Kind: "nfc"}, kitf.Spec{Kind: "nfd"}, kitf.Spec{Kind: "nfkc"}, kitf.Spec{Kind: "nfkd"}),
		kitf.Varied("nfc", "nfd", "nfkc", "nfkd"),
	)
}
