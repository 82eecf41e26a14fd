// Package dict checks the filters that come with a dictionary.
package dict

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/model"
	"verif/harness/rt"
)

type term struct {
	Term string
	Form string
}

// page is a long text, determined by a seed
type page struct {
	Seed uint64
	N    int
}

type prose struct {
	Text rt.Bytes
	Mask uint64 `json:",omitempty"` // which tokens are lemmas already
}

var forms = []string{"as is", "lower", "UPPER", "Title", "joined", "JOINED", "dotted", "hyphenated", "slashed", "curly", "sentence", "quoted", "after"}

func spell(term, form string) string {
	sep := func(s string) string { return strings.Join(strings.Fields(term), s) }
	switch form {
	case "lower":
		return strings.ToLower(term)
	case "UPPER":
		return strings.ToUpper(term)
	case "Title":
		return strings.Title(strings.ToLower(term))
	case "joined":
		return sep("")
	case "JOINED":
		return strings.ToUpper(sep(""))
	case "dotted":
		return sep(".")
	case "hyphenated":
		return sep("-")
	case "slashed":
		return sep("/")
	case "dashed":
		return sep("–")
	case "dash":
		return strings.ReplaceAll(term, "-", "–")
	case "apostrophes":
		return sep("'")
	case "curly":
		return strings.ReplaceAll(term, "'", "’")
	case "all":
		return sep(" -.'’/–")
	}
	return term
}

// Run checks a dictionary.
func Run(t *testing.T, property string, filter jargon.Filter, m *model.Synonyms, keys []string) {
	if m.Conflict {
		rt.Must(fmt.Errorf("reference dictionary has conflicts"))
	}
	known := map[string]string{}
	for _, f := range rt.Findings(property) {
		for _, in := range f.Inputs {
			known[in] = f.What
		}
	}

	check := func(s string) error {
		want := m.Filter(model.Tokenize(s))
		got, err := kit.Collect(filter(jargon.TokenizeString(s)))
		if err != nil {
			return fmt.Errorf("unexpected error: %v", err)
		}
		return model.Diff(got, want)
	}

	rt.Main(t, property,
		rt.P[term]{
			Name:       "terms",
			Rule:       "every synonym of the dictionary in 13 spellings and contexts (as is, three cases, run together, dotted, hyphenated, slashed, with curly apostrophes, in a sentence, in quotes, after a word); non-trivial: the term has to be identified as a single lemma",
			Exhaustive: true,
			Enum: func(yield func(term) bool) {
				for _, k := range keys {
					for _, f := range forms {
						if !yield(term{k, f}) {
							return
						}
					}
				}
				for _, f := range rt.Findings(property) {
					for _, in := range f.Inputs {
						if !yield(term{in, "as is"}) {
							return
						}
					}
				}
			},
			Check: func(c term, info *rt.Info) error {
				s := spell(c.Term, c.Form)
				canonical, ok := m.Keys[m.Normal(s)]
				toks := model.Tokenize(s)
				broken := false
				for _, t := range toks {
					broken = broken || t.Punct
				}
				if what, listed := known[s]; listed && ok && c.Form == "as is" {
					got, err := kit.Collect(filter(jargon.TokenizeString(s)))
					if err != nil {
						return fmt.Errorf("unexpected error: %v", err)
					}
					if model.Diff(got, []model.Tok{model.New(canonical, true)}) == nil {
						return nil
					}
					rt.Known(what)
					info.Label("known finding")
					return check(s)
				}
				if ok && c.Form == "as is" && broken {
					return fmt.Errorf("dictionary term %q is broken by punctuation, and not identified as %q; this is not among the known findings", s, canonical)
				}
				identified := ok && !broken && len(model.Words(toks)) <= m.MaxWords
				info.NonTrivial = identified
				before, after := "", ""
				switch c.Form {
				case "sentence":
					before, after = "zzqx! ", ", zzqx."
				case "quoted":
					before, after = "\"", "\""
				case "after":
					before, after = "zzqx ", " zzqx"
				}
				text := before + s + after
				if identified {
					var want []model.Tok
					want = append(want, model.Tokenize(before)...)
					want = append(want, model.New(canonical, true))
					want = append(want, model.Tokenize(after)...)
					got, err := kit.Collect(filter(jargon.TokenizeString(text)))
					if err != nil {
						return fmt.Errorf("unexpected error: %v", err)
					}
					if err := model.Diff(got, want); err != nil {
						return fmt.Errorf("term %q in %q: %w", c.Term, text, err)
					}
					return nil
				}
				info.Label("broken by punctuation: as the reference")
				return check(text)
			},
		},
		rt.P[term]{
			Name:       "tokens",
			Rule:       "every synonym of the dictionary in each spelling as a single token, and split by spaces only, as from another tokenizer or filter, alone and beside other tokens; non-trivial: it is identified",
			Exhaustive: true,
			Enum: func(yield func(term) bool) {
				for _, k := range keys {
					for _, f := range append([]string{"dashed", "dash", "apostrophes", "all"}, forms[:10]...) {
						if !yield(term{k, f}) {
							return
						}
					}
				}
			},
			Check: func(c term, info *rt.Info) error {
				s := spell(c.Term, c.Form)
				parts := []model.Tok{}
				for i, w := range strings.Fields(s) {
					if i > 0 {
						parts = append(parts, model.New(" ", false))
					}
					parts = append(parts, model.New(w, i%2 == 1))
				}
				whole := model.New(s, false)
				for _, toks := range [][]model.Tok{{whole}, {model.New(s, true)}, {model.New("zzqx", false), whole, whole, model.New(".", false)}, parts, append([]model.Tok{model.New("(", false)}, append(parts, whole)...)} {
					want := m.Filter(toks)
					if len(model.Lemmas(want)) > 0 {
						info.NonTrivial = true
					}
					got, err := kit.Collect(filter(kit.Source(toks, nil)))
					if err != nil {
						return fmt.Errorf("unexpected error: %v", err)
					}
					if err := model.Diff(got, want); err != nil {
						return fmt.Errorf("tokens %v: %w", toks, err)
					}
				}
				return nil
			},
		},
		rt.P[prose]{
			Name:  "prose",
			Rule:  "texts of terms in various spellings, parts of terms, words and punctuation, some of them lemmas already, against the reference filter over a snapshot of the dictionary; non-trivial: at least one term identified",
			Quick: 60000, Thorough: 1000000,
			Gen: func(t *rapid.T) prose {
				var b strings.Builder
				for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
					switch rapid.IntRange(0, 5).Draw(t, "piece") {
					case 0, 1, 2:
						k := rapid.SampledFrom(keys).Draw(t, "key")
						s := spell(k, rapid.SampledFrom(forms).Draw(t, "form"))
						switch rapid.IntRange(0, 5).Draw(t, "part") {
						case 0: // some of its words
							f := strings.Fields(s)
							if len(f) > 0 {
								s = strings.Join(f[:rapid.IntRange(1, len(f)).Draw(t, "words")], " ")
							}
						case 1: // with a space somewhere
							r := []rune(s)
							at := rapid.IntRange(0, len(r)).Draw(t, "at")
							s = string(r[:at]) + " " + string(r[at:])
						}
						if rapid.IntRange(0, 9).Draw(t, "kelvin") == 0 {
							// k has another upper case, U+212A
							s = strings.NewReplacer("k", "\u212a", "K", "\u212a").Replace(s)
						}
						b.WriteString(s)
					case 3:
						b.WriteString(rapid.SampledFrom([]string{"the", "and", "I", "of", "using", "zzqx", "3", "x_1", "é"}).Draw(t, "word"))
					case 4:
						b.WriteString(gen.Fragment(t, gen.Opt{NoTerms: true, Invalid: true}))
					case 5:
						b.WriteString(rapid.SampledFrom([]string{",", ".", "-", "!", "\n", "(", ")", "'", "’s", "/"}).Draw(t, "punct"))
					}
					b.WriteString(rapid.SampledFrom([]string{" ", " ", " ", " ", "", "  ", "\n", "\u00a0"}).Draw(t, "space"))
				}
				return prose{Text: rt.Bytes(b.String()), Mask: kit.GenMask(t)}
			},
			Check: func(c prose, info *rt.Info) error {
				info.NonTrivial = len(model.Lemmas(m.Filter(model.Tokenize(string(c.Text))))) > 0
				if c.Mask == 0 {
					return check(string(c.Text))
				}
				toks := kit.Mark(model.Tokenize(string(c.Text)), c.Mask)
				got, err := kit.Collect(filter(kit.Source(toks, nil)))
				if err != nil {
					return fmt.Errorf("unexpected error: %v", err)
				}
				return model.Diff(got, m.Filter(toks))
			},
		},
		rt.P[page]{
			Name:  "page",
			Rule:  "texts of 200 to 3,000 terms in various spellings, and words; non-trivial: at least one term identified",
			Quick: 800, Thorough: 16000,
			Gen: func(t *rapid.T) page {
				return page{Seed: rapid.Uint64Range(0, 1<<40).Draw(t, "seed"), N: rapid.IntRange(200, 3000).Draw(t, "n")}
			},
			Check: func(c page, info *rt.Info) error {
				r := rand.New(rand.NewPCG(c.Seed, 12))
				var b strings.Builder
				for i := 0; i < c.N; i++ {
					s := spell(keys[r.IntN(len(keys))], forms[r.IntN(len(forms))])
					switch r.IntN(5) {
					case 0:
						s = []string{"the", "of", "zzqx", "3"}[r.IntN(4)]
					case 1:
						f := strings.Fields(s)
						s = strings.Join(f[:r.IntN(len(f)+1)], " ")
					}
					b.WriteString(s)
					b.WriteString([]string{" ", " ", " ", ", ", "  ", "\n"}[r.IntN(6)])
				}
				info.NonTrivial = true
				return check(b.String())
			},
		},
	)
}
