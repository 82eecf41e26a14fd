package c19

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/twitter"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type tweet struct {
	Text rt.Bytes
}

type custom struct {
	Sigil string
	Legal string // name of a predicate
	Toks  []model.Tok
}

var legals = map[string]func(string) bool{
	"handle": model.LegalHandle,
	"all":    func(string) bool { return true },
	"none":   func(string) bool { return false },
	"short":  func(s string) bool { return len(s) <= 2 },
	"sigil":  func(s string) bool { return s == "@" || s == "$" || s == "x" },
	"space":  func(s string) bool { return strings.TrimSpace(s) == "" },
}

func checkTweet(c tweet, info *rt.Info) error {
	toks := model.Tokenize(string(c.Text))
	run := func(name string, want []model.Tok, filters ...jargon.Filter) error {
		got, err := kit.Collect(jargon.TokenizeString(string(c.Text)).Filter(filters...))
		if err != nil {
			return fmt.Errorf("%s: unexpected error: %v", name, err)
		}
		if len(model.Lemmas(want)) > 0 {
			info.NonTrivial = true
			info.Label(name)
		}
		if model.Text(got) != string(c.Text) {
			return fmt.Errorf("%s: text is %q, expected %q", name, model.Text(got), string(c.Text))
		}
		if err := model.Diff(got, want); err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
		return nil
	}
	if err := run("handles", model.Handles(toks), twitter.Handles); err != nil {
		return err
	}
	if err := run("hashtags", model.Hashtags(toks), twitter.Hashtags); err != nil {
		return err
	}
	return run("both", model.Hashtags(model.Handles(toks)), twitter.Handles, twitter.Hashtags)
}

func checkCustom(c custom, info *rt.Info) error {
	var in []model.Tok
	for _, t := range c.Toks {
		if t.S != "" {
			in = append(in, model.New(t.S, t.Lemma))
		}
	}
	want := model.Sigil(c.Sigil, legals[c.Legal])(in)
	f := sigil.NewFilter(c.Sigil, legals[c.Legal])
	info.NonTrivial = len(want) < len(in)
	for i := 0; i < 2; i++ {
		got, err := kit.Collect(f(kit.Source(in, nil)))
		if err != nil {
			return fmt.Errorf("unexpected error: %v", err)
		}
		if err := model.Diff(got, want); err != nil {
			return fmt.Errorf("use %d: %w", i, err)
		}
	}
	return nil
}

func genTweet(t *rapid.T) tweet {
	var b strings.Builder
	for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
		switch rapid.IntRange(0, 6).Draw(t, "piece") {
		case 0, 1, 2:
			b.WriteString(rapid.SampledFrom([]string{"@", "#", "@", "#", "@@", "##", "#@", "＠", "＃"}).Draw(t, "sigil"))
			if rapid.IntRange(0, 5).Draw(t, "gap") == 0 {
				b.WriteString(rapid.SampledFrom([]string{" ", "\n", "."}).Draw(t, "between"))
			}
			switch rapid.IntRange(0, 4).Draw(t, "name") {
			case 0:
				b.WriteString(rapid.StringMatching(`[A-Za-z0-9_]{1,4}`).Draw(t, "short"))
			case 1:
				b.WriteString(rapid.StringMatching(`[A-Za-z0-9_]{13,18}`).Draw(t, "limit"))
			case 2:
				b.WriteString(rapid.SampledFrom([]string{"é", "日本", "日", "1", "12", "_", "__", "½", "Ⅳ", "a1", "1a", "привет", "à_b", "x-y", "x.y", "can't", "a:b", "😀", "é\u0301", "ก", "ก่", "٣", "٣٤", "3.5", "²", "ª"}).Draw(t, "odd"))
			case 3:
				b.WriteString(string(rapid.Rune().Draw(t, "rune")))
			}
		case 3:
			b.WriteString(rapid.SampledFrom([]string{"foo", "1", "_", "日"}).Draw(t, "word"))
		case 4:
			b.WriteString(gen.Fragment(t, gen.Opt{NoTerms: true, Invalid: true}))
		case 5:
			b.WriteString(rapid.SampledFrom([]string{".", ",", "!", "(", "\n", "\t", "-", "$"}).Draw(t, "punct"))
		}
		if rapid.IntRange(0, 2).Draw(t, "glued") > 0 {
			b.WriteString(" ")
		}
	}
	return tweet{rt.Bytes(b.String())}
}

func Test(t *testing.T) {
	rt.Main(t, "C19",
		rt.P[tweet]{
			Name:  "tweets",
			Rule:  "texts of handles and hashtags, legal and not (length around 15, one character, other scripts, doubled sigils, with gaps, after words and after punctuation), words and punctuation; non-trivial: some handle or hashtag is coalesced",
			Quick: 720000, Thorough: 6000000,
			Gen:   genTweet,
			Check: checkTweet,
		},
		rt.P[tweet]{
			Name:       "runes",
			Rule:       "every code point of the first three planes after @ and #, alone and before a letter, and before @x and #x; non-trivial: some is coalesced",
			Exhaustive: true,
			Enum: func(yield func(tweet) bool) {
				for from := rune(0); from < 0x30000; from += 16 {
					var b strings.Builder
					for r := from; r < from+16; r++ {
						fmt.Fprintf(&b, "@%c @%ca #%c #%ca %c@x %c#x ", r, r, r, r, r, r)
					}
					if !yield(tweet{rt.Bytes(b.String())}) {
						return
					}
				}
			},
			Check: checkTweet,
		},
		rt.P[custom]{
			Name:  "custom",
			Rule:  "other sigils and rules for what is legal, on streams of tokens; non-trivial: some are coalesced",
			Quick: 720000, Thorough: 6000000,
			Gen: func(t *rapid.T) custom {
				c := custom{
					Sigil: rapid.SampledFrom([]string{"@", "$", "#", "x", "--", " ", "!"}).Draw(t, "sigil"),
					Legal: rapid.SampledFrom([]string{"handle", "all", "none", "short", "sigil", "space"}).Draw(t, "legal"),
				}
				for i := rapid.IntRange(0, 12).Draw(t, "n"); i > 0; i-- {
					s := c.Sigil
					if rapid.IntRange(0, 2).Draw(t, "other") > 0 {
						s = rapid.SampledFrom([]string{"foo", "x", " ", ".", "@", "$", "averylongusername", "é", "\n", "1", "--"}).Draw(t, "s")
					}
					c.Toks = append(c.Toks, model.Tok{S: s, Lemma: rapid.IntRange(0, 5).Draw(t, "lemma") == 0})
				}
				return c
			},
			Check: checkCustom,
		},
		rt.P[tweet]{
			Name:  "long",
			Rule:  "texts of up to 60 KB, made by repeating a generated one or a run of sigils; non-trivial: some handle or hashtag is coalesced",
			Quick: 1600, Thorough: 16000,
			Gen: func(t *rapid.T) tweet {
				s := string(genTweet(t).Text) + rapid.SampledFrom([]string{"@", "#", " @x", " #y", " "}).Draw(t, "end")
				return tweet{rt.Bytes(gen.Long(t, s))}
			},
			Check: func(c tweet, info *rt.Info) error {
				for _, t := range model.Tokenize(string(c.Text)) {
					if len(t.S) > 60000 {
						return nil
					}
				}
				if err := checkTweet(c, info); err != nil {
					return fmt.Errorf("%.2000s", err)
				}
				return nil
			},
		},
		kitf.Tokens([]string{"@", "#", "$", "foo", "_x", "café", "1", "@foo", "#bar", "@@", " ", "two words", "日本"}, "handles", "hashtags", "dollar"),
		kitf.Runs([][]string{{"@"}, {"#"}, {"@", "foo"}, {"#", "bar", " "}, {"#", "1"}, {" "}, {"x"}, {"$", "x", "."}}, kitf.Spec{Kind: "handles"}, kitf.Spec{Kind: "hashtags"}, kitf.Spec{Kind: "dollar"}),
		kitf.Varied("handles", "hashtags", "dollar"),
	)
}
