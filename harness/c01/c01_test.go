package c01

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type text struct {
	Text rt.Bytes
}

// long is a text with a long token somewhere.
type long struct {
	Before rt.Bytes
	Unit   string
	Len    int
	Next   string `json:",omitempty"` // of what the next one is made, and how long it is
	More   int    `json:",omitempty"`
	After  rt.Bytes
	Chunk  int
}

func (l long) text() string {
	next := ""
	if l.Next != "" {
		next = strings.Repeat(l.Next, l.More/len(l.Next))
	}
	return string(l.Before) + strings.Repeat(l.Unit, l.Len/len(l.Unit)) + next + string(l.After)
}

func compare(s string, stream *jargon.TokenStream, info *rt.Info) error {
	want := model.Tokenize(s)
	toks, ptrs, err := kit.CollectTokens(stream)
	longest := 0
	for _, t := range want {
		if len(t.S) > longest {
			longest = len(t.S)
		}
	}
	if err != nil {
		if longest <= 64*1024 {
			return fmt.Errorf("unexpected error: %v (longest token has %d bytes)", err, longest)
		}
		info.Label("too long: error")
		if err := model.Prefix(toks, want); err != nil {
			return fmt.Errorf("before the error: %w", err)
		}
		return nil
	}
	if got := model.Text(toks); got != s {
		return fmt.Errorf("tokens do not add up to the text: %s", firstDiff(got, s))
	}
	for i, t := range toks {
		if t.S == "" {
			return fmt.Errorf("token %d is empty", i)
		}
		if t.Lemma {
			return fmt.Errorf("token %d (%v) is a lemma, but nothing replaced it", i, t)
		}
		// tokens are values; what came later must not have changed them
		if now := model.Of(ptrs[i]); now != t {
			return fmt.Errorf("token %d was %v when returned, is %v later", i, t, now)
		}
	}
	if err := model.Diff(toks, want); err != nil {
		return fmt.Errorf("not the word boundaries of UAX #29: %w", err)
	}
	return nil
}

func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	end := func(s string) string {
		if i+20 < len(s) {
			return s[i : i+20]
		}
		return s[i:]
	}
	return fmt.Sprintf("lengths %d and %d; from offset %d: %q, expected %q", len(got), len(want), i, end(got), end(want))
}

type varied struct {
	N    int
	Seed uint64
}

func Test(t *testing.T) {
	rt.Main(t, "C01",
		rt.P[text]{
			Name:  "text",
			Rule:  "texts of up to 30 fragments (words in many scripts, punctuation, white space, emoji, combining marks, controls, random runes, invalid UTF-8); non-trivial: at least 4 tokens, including a word, and not plain ASCII letters and spaces",
			Quick: 480000, Thorough: 6000000,
			Gen: func(t *rapid.T) text {
				return text{rt.Bytes(gen.Text(t, gen.Opt{Max: 30, Invalid: true}))}
			},
			Check: func(c text, info *rt.Info) error {
				s := string(c.Text)
				if err := compare(s, jargon.TokenizeString(s), info); err != nil {
					return fmt.Errorf("TokenizeString: %w", err)
				}
				r := &kit.Reader{Data: c.Text}
				if err := compare(s, jargon.Tokenize(r), info); err != nil {
					return fmt.Errorf("Tokenize: %w", err)
				}
				plain := strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ ") == ""
				toks := model.Tokenize(s)
				info.NonTrivial = len(toks) >= 4 && len(model.Words(toks)) > 0 && !plain
				info.LabelIf(!isASCII(s), "non-ASCII")
				info.LabelIf(strings.ToValidUTF8(s, "") != s, "invalid UTF-8")
				return nil
			},
		},
		rt.P[text]{
			Name:       "pairs",
			Rule:       "every sequence of two (thorough: three) of 56 characters that represent the classes of word segmentation, between two letters; non-trivial: at least two tokens",
			Exhaustive: true,
			Enum: func(yield func(text) bool) {
				for _, a := range classes {
					for _, b := range classes {
						if !rt.Thorough() {
							if !yield(text{rt.Bytes(a + b)}) || !yield(text{rt.Bytes("x" + a + b + "y")}) {
								return
							}
							continue
						}
						for _, c := range classes {
							if !yield(text{rt.Bytes(a + b + c)}) || !yield(text{rt.Bytes("x" + a + b + c + "1")}) {
								return
							}
						}
					}
				}
			},
			Check: func(c text, info *rt.Info) error {
				info.NonTrivial = len(model.Tokenize(string(c.Text))) > 1
				return compare(string(c.Text), jargon.Tokenize(&kit.Reader{Data: c.Text}), info)
			},
		},
		rt.P[text]{
			Name:  "large",
			Rule:  "texts of 3 KB to 300 KB, in which drawn fragments repeat, so that they straddle the boundaries of buffers; non-trivial: more than 4096 bytes",
			Quick: 6400, Thorough: 80000,
			Gen: func(t *rapid.T) text {
				size := rapid.IntRange(3000, 9000).Draw(t, "size")
				if rapid.IntRange(0, 9).Draw(t, "huge") == 0 {
					size = rapid.IntRange(60000, 300000).Draw(t, "hugesize")
				}
				return text{rt.Bytes(gen.Pack(t, gen.Opt{Min: 1, Max: 40, Invalid: true}, size))}
			},
			Check: func(c text, info *rt.Info) error {
				info.NonTrivial = len(c.Text) > 4096
				info.LabelIf(len(c.Text) > 65536, "over 64 KB")
				return compare(string(c.Text), jargon.Tokenize(&kit.Reader{Data: c.Text}), info)
			},
		},
		rt.P[long]{
			Name:  "longtoken",
			Rule:  "a token of 1 KB to 140 KB, in half of the cases another long one right after it, with text around: either all of it comes back, or there is an error (for which a token must have more than 64 KB); non-trivial: the token has more than 4096 bytes",
			Quick: 8000, Thorough: 60000,
			Gen: func(t *rapid.T) long {
				l := long{
					Before: rt.Bytes(gen.Text(t, gen.Opt{Max: 5})),
					Unit:   rapid.SampledFrom([]string{"a", "é", "ab1_", "7", "שּׁ", "한", "  ", "a\u0301", "ク"}).Draw(t, "unit"),
					After:  rt.Bytes(gen.Text(t, gen.Opt{Max: 5})),
					Chunk:  rapid.SampledFrom([]int{0, 0, 1000, 4096}).Draw(t, "chunk"),
				}
				if rapid.Bool().Draw(t, "another") {
					l.Next = rapid.SampledFrom([]string{"a", "é", "7", "שּׁ", " ", "\u0301", "ク", "日", ".", "\u00a0", "\u200d", "😀"}).Draw(t, "next")
					l.More = rapid.SampledFrom([]int{10, 100, 1000, 20000, 60000, 65536, 66000}).Draw(t, "more")
				}
				switch rapid.IntRange(0, 3).Draw(t, "len") {
				case 3:
					l.Len = rapid.IntRange(65400, 65536).Draw(t, "exact")
				case 0:
					l.Len = rapid.IntRange(1000, 64900).Draw(t, "some")
				case 1:
					l.Len = rapid.IntRange(65000, 67000).Draw(t, "limit")
				case 2:
					l.Len = rapid.IntRange(66000, 140000).Draw(t, "more")
				}
				return l
			},
			Check: func(c long, info *rt.Info) error {
				s := c.text()
				info.NonTrivial = c.Len > 4096
				r := &kit.Reader{Data: []byte(s)}
				if c.Chunk > 0 {
					r.Chunks.Sizes = []int{c.Chunk}
				}
				return compare(s, jargon.Tokenize(r), info)
			},
		},
		rt.P[varied]{
			Name:  "varied",
			Rule:  "a text of 200,000 to 500,000 different random words; all are non-trivial",
			Quick: 16, Thorough: 160,
			Gen: func(t *rapid.T) varied {
				return varied{N: rapid.IntRange(200000, 500000).Draw(t, "n"), Seed: rapid.Uint64Range(0, 1<<40).Draw(t, "seed")}
			},
			Check: func(c varied, info *rt.Info) error {
				info.NonTrivial = true
				words := kitf.Words(c.N, c.Seed, "abcdefghijklmnopqrstuvwxyz")
				s := jargon.Tokenize(strings.NewReader(strings.Join(words, " ")))
				for i := 0; i < 2*len(words)-1; i++ {
					want := " "
					if i%2 == 0 {
						want = words[i/2]
					}
					t, err := s.Next()
					if err != nil || t == nil || t.String() != want || t.IsLemma() || t.IsSpace() != (i%2 == 1) || t.IsPunct() {
						return fmt.Errorf("token %d: got %v, %v, expected %q", i, t, err, want)
					}
				}
				if t, err := s.Next(); t != nil || err != nil {
					return fmt.Errorf("after the last token: %v, %v", t, err)
				}
				return nil
			},
		},
	)
}

// one or two of each class of word segmentation
var classes = []string{
	"\r", "\n", "\u000b", "\u0085", "\u2028", "\u0301", "\u0308", "\u200d", "\u200c", "\u00ad", "\u2060", "\U000e0041", "\u0903",
	"ア", "ｱ", "ー", "א", "ש", "A", "é", "я", "ʼ", "ᄒ", "한", "'", "’", ".", "․", ":", "·", "״", ",", ";", "،", "\"", "1", "٣", "_", "‿",
	"\U0001f1fa", "\U0001f1f8", "😀", "❤", "\ufe0f", "\U0001f3fd", "👩", " ", "\u3000", "\u00a0", "\t", "日", "の", "ก", "-", "#", "@", "$", "+", "\x00", "\xff",
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
