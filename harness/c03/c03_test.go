package c03

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type faulty struct {
	Text    rt.Bytes
	HTML    bool
	Filters []kitf.Spec
	Use     string // how the stream is consumed
	Chunks  kit.Chunks
	// Where it fails; -1 is everywhere
	At    int
	Fault string `json:",omitempty"` // which error
}

var uses = []string{"next", "scan", "slice", "string", "count", "write"}

func open(c faulty, data []byte, fault error, filters []jargon.Filter) (*jargon.TokenStream, *kit.Reader) {
	r := &kit.Reader{Data: data, Chunks: c.Chunks, Err: fault}
	var s *jargon.TokenStream
	if c.HTML {
		s = jargon.TokenizeHTML(r)
	} else {
		s = jargon.Tokenize(r)
	}
	return s.Filter(filters...), r
}

func check(c faulty, info *rt.Info) error {
	filters := kitf.Filters(c.Filters)
	from, to := 0, len(c.Text)
	if c.At >= 0 && c.At <= to {
		from, to = c.At, c.At
	}
	for at := from; at <= to; at++ {
		if err := checkAt(c, at, filters); err != nil {
			return fmt.Errorf("reader fails after %d bytes: %w", at, err)
		}
	}
	info.NonTrivial = len(c.Text) >= 5
	info.Label("use " + c.Use)
	info.LabelIf(c.HTML, "html")
	for _, s := range c.Filters {
		info.Label("filter " + s.Kind)
	}
	return nil
}

func checkAt(c faulty, at int, filters []jargon.Filter) error {
	data := c.Text[:at]
	// What there is to get from the bytes before the fault
	sound, _ := open(c, data, nil, filters)
	want, err := kit.Collect(sound)
	if err != nil {
		return fmt.Errorf("unexpected error without a fault: %v", err)
	}
	fault := kit.Faults[c.Fault]
	s, r := open(c, data, fault, filters)
	err = consume(c.Use, s, want, true)
	if err == nil && !r.Ended {
		return fmt.Errorf("stream ended without reading to the end of the source")
	}
	return wrong(err, fault)
}

type mistake struct{ error }

// consume returns the error that the consumer was given, or a mistake
func consume(use string, s *jargon.TokenStream, want []model.Tok, sticky bool) error {
	switch use {
	case "next", "scan":
		var got []model.Tok
		var err error
		if use == "next" {
			got, err = kit.Collect(s)
		} else {
			for s.Scan() {
				got = append(got, model.Of(s.Token()))
			}
			err = s.Err()
		}
		if e := model.Prefix(got, want); e != nil {
			return mistake{fmt.Errorf("before the fault: %w", e)}
		}
		if err != nil && sticky {
			// Asking again must not make it look like the end
			for i := 0; i < 3; i++ {
				if i%2 == 0 {
					t, again := s.Next()
					if again == nil {
						return mistake{fmt.Errorf("the error was reported once, then Next returned %v, nil", t)}
					}
				} else if s.Scan() || s.Err() == nil {
					return mistake{fmt.Errorf("the error was reported once, then Scan found %v, Err %v", s.Token(), s.Err())}
				}
			}
		}
		return err
	case "slice":
		ts, err := s.ToSlice()
		if e := model.Prefix(model.All(ts), want); e != nil {
			return mistake{fmt.Errorf("slice: %w", e)}
		}
		return err
	case "string":
		str, err := s.String()
		if !strings.HasPrefix(model.Text(want), str) {
			return mistake{fmt.Errorf("string %q is not a prefix of %q", str, model.Text(want))}
		}
		return err
	case "count":
		n, err := s.Count()
		if n > len(want) {
			return mistake{fmt.Errorf("counted %d, of at most %d", n, len(want))}
		}
		return err
	case "write":
		var b bytes.Buffer
		n, err := s.WriteTo(&b)
		if int(n) != b.Len() {
			return mistake{fmt.Errorf("WriteTo says %d bytes, wrote %d", n, b.Len())}
		}
		if !strings.HasPrefix(model.Text(want), b.String()) {
			return mistake{fmt.Errorf("wrote %q, not a prefix of %q", b.String(), model.Text(want))}
		}
		return err
	}
	return rtErr(use)
}

func rtErr(use string) error {
	rt.Must(fmt.Errorf("unknown use %q", use))
	return nil
}

func wrong(err, fault error) error {
	var m mistake
	switch {
	case errors.As(err, &m):
		return m.error
	case err == nil:
		return fmt.Errorf("the fault was not reported: no error, as if it was the end of the text")
	case !errors.Is(err, fault):
		return fmt.Errorf("got error %q, expected the reader's: %q", err, fault)
	}
	return nil
}

// tokens is a fault in a source of tokens
type tokens struct {
	Text    rt.Bytes
	Filters []kitf.Spec
	Use     string
	Fault   string `json:",omitempty"`
	Then    string `json:",omitempty"` // after the fault: again (default), end, resume
	Along   bool   `json:",omitempty"` // a token comes along with the error
}

func checkTokens(c tokens, info *rt.Info) error {
	toks := model.Tokenize(string(c.Text))
	filters := kitf.Filters(c.Filters)
	for at := 0; at <= len(toks); at++ {
		want, err := kit.Collect(kit.Source(toks[:at], nil).Filter(filters...))
		if err != nil {
			return fmt.Errorf("unexpected error without a fault: %v", err)
		}
		i, failed := 0, false
		fault := kit.Faults[c.Fault]
		source := jargon.NewTokenStream(func() (*jargon.Token, error) {
			if failed && c.Then == "end" {
				return nil, nil
			}
			if i >= at && (c.Then != "resume" || !failed) {
				failed = true
				if c.Along {
					return jargon.NewToken("along", false), fault
				}
				return nil, fault
			}
			if i >= len(toks) {
				return nil, nil
			}
			i++
			return jargon.NewToken(toks[i-1].S, false), nil
		})
		if err := wrong(consume(c.Use, source.Filter(filters...), want, c.Then == ""), fault); err != nil {
			return fmt.Errorf("source fails after %d tokens: %w", at, err)
		}
	}
	info.NonTrivial = len(toks) >= 3 && len(c.Filters) > 0
	return nil
}

func genFilters(t *rapid.T) []kitf.Spec {
	var fs []kitf.Spec
	for i := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(t, "filters"); i > 0; i-- {
		fs = append(fs, kitf.Gen(t, true))
	}
	return fs
}

var samples = []string{"I can't @foo Ruby on Rails, the node.js ab cd #x $y", "x", "the the", "Ruby on", "@", "café . ", "don't\r\n", "ab  cd\u00a0"}

func Test(t *testing.T) {
	rt.Main(t, "C03",
		rt.P[faulty]{
			Name:  "reader",
			Rule:  "a generated text or HTML, chain of up to 3 filters, way of reading (6), chunks and kind of error; the reader is made to fail at every offset of the text in turn; non-trivial: at least 6 such faults",
			Quick: 80000, Thorough: 750000,
			Gen: func(t *rapid.T) faulty {
				c := faulty{At: -1, HTML: rapid.IntRange(0, 2).Draw(t, "html") == 0}
				o := gen.Opt{Max: 8}
				if c.HTML {
					c.Text = rt.Bytes(gen.HTML(t, o, 6))
				} else {
					c.Text = rt.Bytes(gen.Text(t, o))
				}
				if len(c.Text) > 150 {
					c.Text = c.Text[:150]
				}
				c.Filters = genFilters(t)
				c.Use = rapid.SampledFrom(uses).Draw(t, "use")
				c.Chunks = kit.GenChunks(t)
				c.Fault = kit.GenFault(t)
				return c
			},
			Check: check,
		},
		rt.P[faulty]{
			Name:       "every",
			Rule:       "every kind of filter, every way of reading, text and HTML, faults at every offset of 8 sample texts; non-trivial: at least 6 faults",
			Exhaustive: true,
			Enum: func(yield func(faulty) bool) {
				for _, s := range samples {
					for _, use := range uses {
						for _, html := range []bool{false, true} {
							for _, f := range append([]kitf.Spec{{}}, kitf.Every()...) {
								var fs []kitf.Spec
								if f.Kind != "" {
									fs = append(fs, f)
								}
								text := s
								if html {
									text = "<p>" + s + "</p><script>x<y</script>" + s
								}
								if !yield(faulty{Text: rt.Bytes(text), HTML: html, Filters: fs, Use: use, At: -1}) {
									return
								}
							}
						}
					}
				}
			},
			Check: check,
		},
		rt.P[faulty]{
			Name:  "late",
			Rule:  "faults at a drawn offset of a text of 5 to 150 KB, so after many buffers; non-trivial: all",
			Quick: 4000, Thorough: 40000,
			Gen: func(t *rapid.T) faulty {
				c := faulty{HTML: rapid.Bool().Draw(t, "html")}
				c.Text = rt.Bytes(gen.Pack(t, gen.Opt{Min: 3, Max: 30}, rapid.IntRange(5000, 150000).Draw(t, "size")))
				c.At = rapid.IntRange(4000, len(c.Text)).Draw(t, "at")
				c.Filters = genFilters(t)
				c.Use = rapid.SampledFrom(uses).Draw(t, "use")
				return c
			},
			Check: check,
		},
		rt.P[tokens]{
			Name:  "source",
			Rule:  "a source of tokens fails after every number of tokens (and then goes on failing, ends, or goes on giving tokens; with or without a token along with the error, which counts for nothing), below a generated chain of filters; non-trivial: at least 3 tokens and a filter",
			Quick: 80000, Thorough: 750000,
			Gen: func(t *rapid.T) tokens {
				return tokens{
					Text:    rt.Bytes(gen.Text(t, gen.Opt{Max: 8})),
					Filters: genFilters(t),
					Use:     rapid.SampledFrom(uses).Draw(t, "use"),
					Fault:   kit.GenFault(t),
					Then:    rapid.SampledFrom([]string{"", "end", "resume"}).Draw(t, "then"),
					Along:   rapid.IntRange(0, 3).Draw(t, "along") == 0,
				}
			},
			Check: checkTokens,
		},
	)
}
