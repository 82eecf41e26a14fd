package c02

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/model"
	"verif/harness/rt"
)

type chunked struct {
	Pad    int // bytes of words before the text, which move it relative to buffers
	Text   rt.Bytes
	HTML   bool
	Chunks kit.Chunks
}

func (c chunked) text() string {
	return strings.Repeat("ab ", c.Pad/3) + strings.Repeat("\n", c.Pad%3) + string(c.Text)
}

func tokenize(html bool, data []byte, chunks kit.Chunks) ([]model.Tok, error) {
	r := &kit.Reader{Data: data, Chunks: chunks}
	if html {
		return kit.Collect(jargon.TokenizeHTML(r))
	}
	return kit.Collect(jargon.Tokenize(r))
}

func check(c chunked, info *rt.Info) error {
	data := []byte(c.text())
	got, err := tokenize(c.HTML, data, c.Chunks)
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	want, err := tokenize(c.HTML, data, kit.Chunks{})
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	if err := model.Diff(got, want); err != nil {
		return fmt.Errorf("depends on chunks: %w", err)
	}
	ref := model.Tokenize(string(data))
	if c.HTML {
		if model.Text(got) != string(data) {
			return fmt.Errorf("chunked HTML does not add up to the source")
		}
	} else if err := model.Diff(got, ref); err != nil {
		return fmt.Errorf("chunked: %w", err)
	}
	info.NonTrivial = len(ref) >= 3 && (len(c.Chunks.Sizes) > 0 || len(data) > 4096)
	info.LabelIf(c.HTML, "html")
	info.LabelIf(len(data) > 4096, "over 4 KB")
	return nil
}

// words whose boundaries depend on what follows
var mid = []string{"node.js", "can't", "a.b", "1,000", "3.14", "a:b", "a.\u0301b", "a.\u0301\u0301\u0301 b", "א\"ב", "x_y", "e.g.", "a·b", "l’été", "1;2", "👨‍👩‍👧", "🇺🇸🇨🇦", "a\u200d.b", "foo. bar", "foo.bar.", "\r\n", "é", "한"}

func Test(t *testing.T) {
	rt.Main(t, "C02",
		rt.P[chunked]{
			Name:  "chunks",
			Rule:  "texts (or HTML) of fragments, many with boundaries that depend on what follows, read in generated chunks (single bytes, fixed sizes, mixed sizes with empty reads, end of data with or after the last bytes) and compared with a reader that has it all; non-trivial: at least 3 tokens, and more than one read",
			Quick: 180000, Thorough: 1500000,
			Gen: func(t *rapid.T) chunked {
				c := chunked{HTML: rapid.IntRange(0, 3).Draw(t, "html") == 0}
				if c.HTML {
					c.Text = rt.Bytes(gen.HTML(t, gen.Opt{Invalid: true, Extra: mid}, 12))
				} else {
					c.Text = rt.Bytes(gen.Text(t, gen.Opt{Max: 20, Invalid: true, Extra: mid}))
				}
				c.Chunks = kit.GenChunks(t)
				return c
			},
			Check: check,
		},
		rt.P[chunked]{
			Name:  "buffers",
			Rule:  "the same, after padding that puts the text across the 4 KB, 8 KB, … 64 KB boundaries of a buffer; non-trivial: more than 4096 bytes",
			Quick: 12000, Thorough: 80000,
			Gen: func(t *rapid.T) chunked {
				c := chunked{HTML: rapid.IntRange(0, 4).Draw(t, "html") == 0}
				size := 4096 << uint(rapid.IntRange(0, 4).Draw(t, "boundary"))
				c.Pad = size - rapid.IntRange(0, 60).Draw(t, "back")
				c.Text = rt.Bytes(gen.Text(t, gen.Opt{Min: 2, Max: 12, Extra: mid}))
				if rapid.Bool().Draw(t, "chunked") {
					c.Chunks.Sizes = []int{rapid.SampledFrom([]int{4096, 4095, 1000, 512}).Draw(t, "chunk")}
				}
				return c
			},
			Check: check,
		},
		rt.P[chunked]{
			Name:       "splits",
			Rule:       "every split in two of each of the words whose boundaries depend on what follows, in each of three contexts; non-trivial: at least 3 tokens",
			Exhaustive: true,
			Enum: func(yield func(chunked) bool) {
				for _, w := range mid {
					for _, v := range mid {
						for _, s := range []string{w, w + v, "x" + w + " " + v} {
							for i := 1; i < len(s); i++ {
								if !yield(chunked{Text: rt.Bytes(s), Chunks: kit.Chunks{Sizes: []int{i, 1000}}}) {
									return
								}
							}
						}
					}
				}
			},
			Check: check,
		},
		rt.P[chunked]{
			Name:  "marks",
			Rule:  "dots and apostrophes within words, followed by up to 200 combining marks, read in chunks; non-trivial: at least 3 tokens, and more than one read",
			Quick: 12000, Thorough: 50000,
			Gen: func(t *rapid.T) chunked {
				s := gen.Text(t, gen.Opt{Max: 3}) + rapid.SampledFrom([]string{"a", "1", "א", "я"}).Draw(t, "l") + rapid.SampledFrom([]string{".", "'", ",", "\"", "’"}).Draw(t, "m") +
					strings.Repeat(rapid.SampledFrom([]string{"\u0301", "\u200d", "\u00ad"}).Draw(t, "mark"), rapid.IntRange(0, 100).Draw(t, "marks")) +
					rapid.SampledFrom([]string{"b", "2", "ב", " ", "ж"}).Draw(t, "r") + gen.Text(t, gen.Opt{Max: 3})
				return chunked{Text: rt.Bytes(s), Chunks: kit.GenChunks(t)}
			},
			Check: check,
		},
	)
}
