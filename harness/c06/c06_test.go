package c06

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type history struct {
	Text    rt.Bytes
	HTML    bool
	Filters []kitf.Spec
	Grows   bool `json:",omitempty"` // the reader has more after its end
	Chunks  kit.Chunks
	// n: Next, s: Scan, t: Token, e: Err
	Ops string
}

func open(c history) *jargon.TokenStream {
	r := &kit.Reader{Data: c.Text, Grows: c.Grows, Chunks: c.Chunks}
	if c.HTML {
		return jargon.TokenizeHTML(r).Filter(kitf.Filters(c.Filters)...)
	}
	return jargon.Tokenize(r).Filter(kitf.Filters(c.Filters)...)
}

func check(c history, info *rt.Info) error {
	want, err := kit.Collect(open(c))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	s := open(c)
	pos := 0
	var current *jargon.Token
	var returned []*jargon.Token
	past, mixed := 0, 0
	var last rune
	step := func(i int, op rune) error {
		fail := func(format string, args ...interface{}) error {
			return fmt.Errorf("step %d (%c), at token %d of %d: %s", i, op, pos, len(want), fmt.Sprintf(format, args...))
		}
		advance := func(t *jargon.Token) error {
			if pos >= len(want) {
				past++
				if t != nil {
					return fail("exhausted, but got %v", model.Of(t))
				}
				current = nil
				return nil
			}
			if t == nil {
				return fail("got nil, expected %v", want[pos])
			}
			if got := model.Of(t); got != want[pos] {
				return fail("got %v, expected %v", got, want[pos])
			}
			returned = append(returned, t)
			current = t
			pos++
			return nil
		}
		switch op {
		case 'n':
			t, err := s.Next()
			if err != nil {
				return fail("unexpected error: %v", err)
			}
			if err := advance(t); err != nil {
				return err
			}
		case 's':
			more := pos < len(want)
			if got := s.Scan(); got != more {
				return fail("Scan returned %t, expected %t", got, more)
			}
			if err := advance(s.Token()); err != nil {
				return err
			}
		case 't':
			if s.Token() != current {
				return fail("Token() is not the token that was returned last")
			}
		case 'e':
			if err := s.Err(); err != nil {
				return fail("Err() is %v", err)
			}
		}
		if op == 'n' || op == 's' {
			if last != 0 && last != op {
				mixed++
			}
			last = op
		}
		return nil
	}
	i := 0
	for _, op := range c.Ops {
		if err := step(i, op); err != nil {
			return err
		}
		i++
	}
	// to the end, and beyond
	ops := []rune("ns")
	for j := 0; pos < len(want) || j%5 != 4; j++ {
		if err := step(i, ops[(j+len(c.Ops))%2]); err != nil {
			return err
		}
		i++
	}
	for j, t := range returned {
		if got := model.Of(t); got != want[j] {
			return fmt.Errorf("token %d was %v when it was returned, is %v after others were read", j, want[j], got)
		}
	}
	info.NonTrivial = mixed > 0 && len(want) >= 3
	info.LabelIf(past > 0, "read past the end")
	return nil
}

// many is a stream of many different words
type many struct {
	N       int
	HTML    bool
	Filters []kitf.Spec
	Ops     string
}

func Test(t *testing.T) {
	rt.Main(t, "C06",
		rt.P[history]{
			Name:  "history",
			Rule:  "a generated text or HTML and chain of filters; readers that have more after their end, too; a generated sequence of Next, Scan, Token and Err, then reading to the end and beyond it, against the list of tokens; non-trivial: Next and Scan are mixed, at least 3 tokens",
			Quick: 600000, Thorough: 5000000,
			Gen: func(t *rapid.T) history {
				c := history{HTML: rapid.IntRange(0, 3).Draw(t, "html") == 0}
				if c.HTML {
					c.Text = rt.Bytes(gen.HTML(t, gen.Opt{}, 8))
				} else {
					c.Text = rt.Bytes(gen.Text(t, gen.Opt{Max: 10}))
				}
				for i := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "filters"); i > 0; i-- {
					c.Filters = append(c.Filters, kitf.Gen(t, true))
				}
				c.Grows = rapid.Bool().Draw(t, "grows")
				if rapid.Bool().Draw(t, "chunked") {
					c.Chunks = kit.GenChunks(t)
				}
				c.Ops = rapid.StringOfN(rapid.SampledFrom([]rune("nnsste")), 0, 30, -1).Draw(t, "ops")
				return c
			},
			Check: check,
		},
		rt.P[many]{
			Name:  "many",
			Rule:  "streams of 20,000 to 200,000 different words, all tokens of which are kept and compared at the end; non-trivial: at least 20,000 words",
			Quick: 96, Thorough: 1600,
			Gen: func(t *rapid.T) many {
				c := many{N: rapid.IntRange(20000, 200000).Draw(t, "n"), HTML: rapid.Bool().Draw(t, "html")}
				if rapid.Bool().Draw(t, "filtered") {
					c.Filters = []kitf.Spec{kitf.Gen(t, true)}
				}
				c.Ops = rapid.StringOfN(rapid.SampledFrom([]rune("nnsste")), 0, 10, -1).Draw(t, "ops")
				return c
			},
			Check: func(c many, info *rt.Info) error {
				var b strings.Builder
				for i := 0; i < c.N; i++ {
					fmt.Fprintf(&b, "w%d", i)
					b.WriteString([]string{" ", "  ", ", ", "\n", ". The ", " can't "}[i%6])
					if c.HTML && i%11 == 0 {
						fmt.Fprintf(&b, "<p class=\"c%d\">", i)
					}
				}
				err := check(history{Text: rt.Bytes(b.String()), HTML: c.HTML, Filters: c.Filters, Ops: c.Ops}, info)
				info.NonTrivial = c.N >= 20000
				return err
			},
		},
	)
}
