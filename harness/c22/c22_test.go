package c22

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type chain struct {
	Text    rt.Bytes
	HTML    bool
	Filters []kitf.Spec
}

func open(c chain) *jargon.TokenStream {
	r := strings.NewReader(string(c.Text))
	if c.HTML {
		return jargon.TokenizeHTML(r)
	}
	return jargon.Tokenize(r)
}

func check(c chain, info *rt.Info) error {
	originals, ptrs, err := kit.CollectTokens(open(c))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	filters := kitf.Filters(c.Filters)
	filtered := open(c).Filter(filters...)
	for i := range filters {
		// What becomes of the caller's slice is not the stream's business
		filters[i] = func(*jargon.TokenStream) *jargon.TokenStream { return kit.SourceOf(nil) }
	}
	got, err := kit.Collect(filtered)
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}

	// One stage after the other
	stage := ptrs
	for i, f := range c.Filters {
		var err error
		_, stage, err = kit.CollectTokens(f.Filter()(kit.SourceOf(stage)))
		if err != nil {
			return fmt.Errorf("stage %d: unexpected error: %v", i, err)
		}
	}
	if err := model.Diff(got, model.All(stage)); err != nil {
		return fmt.Errorf("chain is not its stages, one after the other: %w", err)
	}

	if err := provenance(originals, got, dropping(c.Filters)); err != nil {
		return err
	}
	lemmas := len(model.Lemmas(got))
	info.NonTrivial = len(c.Filters) >= 2 && lemmas > 0 && lemmas < len(got)
	info.LabelIf(c.HTML, "html")
	info.LabelIf(!dropping(c.Filters), "keeps all tokens")
	return nil
}

func dropping(fs []kitf.Spec) bool {
	for _, f := range fs {
		switch f.Kind {
		case "words", "lemmas", "distinct", "stop":
			return true
		case "synonyms":
			for _, c := range f.Mappings {
				if c == "" {
					return true
				}
			}
		}
	}
	return false
}

// provenance: tokens that are not lemmas are originals, in order, and unless filters drop tokens, any original
// that is missing was replaced by a lemma at its place.
func provenance(originals, got []model.Tok, drops bool) error {
	if drops {
		i := 0
		for j, t := range got {
			if t.Lemma {
				continue
			}
			for i < len(originals) && originals[i] != t {
				i++
			}
			if i == len(originals) {
				return fmt.Errorf("token %d (%v) is not a lemma, but there is no such original left", j, t)
			}
			i++
		}
		return nil
	}
	// Which numbers of originals can be accounted for by the output so far
	can := make([]bool, len(originals)+1)
	can[0] = true
	for j := 0; j < len(got); {
		next := make([]bool, len(originals)+1)
		if !got[j].Lemma {
			ok := false
			for i := range originals {
				if can[i] && originals[i] == got[j] {
					next[i+1] = true
					ok = true
				}
			}
			if !ok {
				return fmt.Errorf("token %d (%v) is not a lemma, and not the original at its place", j, got[j])
			}
			can = next
			j++
			continue
		}
		// A series of lemmas stands for one or more originals
		for j < len(got) && got[j].Lemma {
			j++
		}
		reached := false
		for i := range originals {
			reached = reached || can[i]
			if reached {
				next[i+1] = true
			}
		}
		can = next
	}
	if !can[len(originals)] {
		return fmt.Errorf("some originals are missing, and no lemma is at their place: %v → %v", originals, got)
	}
	return nil
}

func genChain(t *rapid.T, max int, selecting bool) []kitf.Spec {
	var fs []kitf.Spec
	for i := rapid.IntRange(1, max).Draw(t, "filters"); i > 0; i-- {
		fs = append(fs, kitf.Gen(t, selecting))
	}
	return fs
}

func Test(t *testing.T) {
	rt.Main(t, "C22",
		rt.P[chain]{
			Name:  "keeping",
			Rule:  "any text, also invalid UTF-8, or HTML, through up to 5 filters that replace but do not drop tokens; non-trivial: at least 2 filters, some tokens replaced, some not",
			Quick: 480000, Thorough: 4000000,
			Gen: func(t *rapid.T) chain {
				c := chain{HTML: rapid.IntRange(0, 3).Draw(t, "html") == 0}
				if c.HTML {
					c.Text = rt.Bytes(gen.HTML(t, gen.Opt{Invalid: true}, 8))
				} else {
					c.Text = rt.Bytes(gen.Text(t, gen.Opt{Max: 12, Invalid: true, Extra: kitf.Vocabulary}))
				}
				c.Filters = genChain(t, 5, false)
				return c
			},
			Check: check,
		},
		rt.P[chain]{
			Name:  "any",
			Rule:  "the same, also with filters that select or drop tokens; non-trivial: at least 2 filters, some tokens replaced, some not",
			Quick: 480000, Thorough: 4000000,
			Gen: func(t *rapid.T) chain {
				return chain{Text: rt.Bytes(gen.Text(t, gen.Opt{Max: 12, Invalid: true, Extra: kitf.Vocabulary})), Filters: genChain(t, 5, true)}
			},
			Check: check,
		},
		rt.P[chain]{
			Name:       "pairs",
			Rule:       "every ordered pair of kinds of filter on 6 sample texts; non-trivial: some tokens replaced, some not",
			Exhaustive: true,
			Enum: func(yield func(chain) bool) {
				texts := []string{"I can't run Ruby on Rails, @foo #bar $x café ﬁne node.js the ab cd.", "", "Étés naïves  LeBron James’s\r\n#x@y", "<p>Don't</p><script>running</script> the React.js", "\xff\x00 running\u0301 ①", "We’ve We’ve 3.5 the THE gonna @averylongusername1 #1"}
				for _, s := range texts {
					for _, a := range kitf.Every() {
						for _, b := range kitf.Every() {
							if !yield(chain{Text: rt.Bytes(s), HTML: strings.HasPrefix(s, "<"), Filters: []kitf.Spec{a, b}}) {
								return
							}
						}
					}
				}
			},
			Check: check,
		},
		rt.P[chain]{
			Name:  "long",
			Rule:  "chains of up to 30 filters, the same one several times too, on texts repeated up to 60 times; non-trivial: at least 2 filters, some tokens replaced, some not",
			Quick: 6400, Thorough: 80000,
			Gen: func(t *rapid.T) chain {
				c := chain{Filters: genChain(t, 30, rapid.Bool().Draw(t, "selecting"))}
				for i := range c.Filters {
					if i > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
						c.Filters[i] = c.Filters[rapid.IntRange(0, i-1).Draw(t, "which")]
					}
				}
				text := gen.Text(t, gen.Opt{Max: 8, Invalid: true, Extra: kitf.Vocabulary})
				c.Text = rt.Bytes(strings.Repeat(text, rapid.SampledFrom([]int{1, 3, 20, 60}).Draw(t, "times")))
				return c
			},
			Check: check,
		},
	)
}
