package c09

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms/trie"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/model"
	"verif/harness/rt"
)

type entry struct {
	Tokens    []string
	Canonical string
}

type step struct {
	Add    *entry   `json:",omitempty"`
	Search []string `json:",omitempty"`
}

type history struct {
	Fold   bool
	Ignore string
	Steps  []step
}

func toks(ss []string) []*jargon.Token {
	var ts []*jargon.Token
	for _, s := range ss {
		if t := jargon.NewToken(s, false); t != nil {
			ts = append(ts, t)
		}
	}
	return ts
}

func check(c history, info *rt.Info) error {
	tr := trie.New(c.Fold, []rune(c.Ignore))
	norm := model.NewSynonyms(nil, c.Fold, []rune(c.Ignore))
	added := map[string]string{}
	hits, longer := 0, 0
	for i, s := range c.Steps {
		if s.Add != nil {
			tr.Add(toks(s.Add.Tokens), s.Add.Canonical)
			if key := norm.Normal(strings.Join(s.Add.Tokens, "")); key != "" {
				added[key] = s.Add.Canonical
			}
			continue
		}
		var found bool
		var canonical string
		var consumed int
		text, prev := "", ""
		matches := 0
		ts := toks(s.Search)
		for j, t := range ts {
			text += norm.Normal(t.String())
			if v, ok := added[text]; ok && text != "" && text != prev {
				found, canonical, consumed = true, v, j+1
				matches++
			}
			prev = text
		}
		f, v, n := tr.SearchCanonical(ts...)
		if f != found || v != canonical || n != consumed {
			return fmt.Errorf("step %d: search %q: got %t, %q, %d; expected %t, %q, %d", i, s.Search, f, v, n, found, canonical, consumed)
		}
		if found {
			hits++
		}
		if matches > 1 {
			longer++
		}
	}
	info.NonTrivial = hits > 0
	info.LabelIf(longer > 0, "a longer match over a shorter one")
	return nil
}

var vocab = []string{"a", "b", "ab", "A", "é", "É", "c", " ", " ", "-", ".", "  ", "日", "ba", "B", "\u00a0", "1", "ǅ", "İ", "ß", "😀", "𐐀", "𐐨"}

// scale is a long history, determined by a seed
type scale struct {
	Seed                            uint64
	Steps, Tokens, Length, Alphabet int
	Fold                            bool
	Ignore                          string
}

func (c scale) history() history {
	if c.Tokens*c.Length > 1000 && c.Steps > 400 {
		c.Steps = 400
	}
	h := history{Fold: c.Fold, Ignore: c.Ignore}
	r := rand.New(rand.NewPCG(c.Seed, 9))
	phrase := func() []string {
		var p []string
		for i := 1 + r.IntN(c.Tokens); i > 0; i-- {
			var b strings.Builder
			for j := 1 + r.IntN(c.Length); j > 0; j-- {
				b.WriteRune('a' + rune(r.IntN(c.Alphabet)))
			}
			p = append(p, b.String())
		}
		return p
	}
	var known [][]string
	for i := 0; i < c.Steps; i++ {
		if len(known) == 0 || r.IntN(2) == 0 {
			p := phrase()
			if len(known) > 0 && r.IntN(3) == 0 {
				// extends a beginning of another
				k := known[r.IntN(len(known))]
				p = append(append([]string{}, k[:r.IntN(len(k)+1)]...), p...)
				if len(p) > 2*c.Tokens {
					p = p[:2*c.Tokens]
				}
			}
			known = append(known, p)
			h.Steps = append(h.Steps, step{Add: &entry{p, fmt.Sprint("c", r.IntN(1+c.Steps))}})
			continue
		}
		k := known[r.IntN(len(known))]
		s := append([]string{}, k[:1+r.IntN(len(k))]...)
		if r.IntN(2) == 0 {
			s = append([]string{}, k...)
		}
		switch r.IntN(4) {
		case 0:
			s = append(s, phrase()...)
		case 1:
			// run together
			s = []string{strings.Join(s, "")}
		case 2:
			j := r.IntN(len(s))
			s[j] = strings.ToUpper(s[j])
		}
		h.Steps = append(h.Steps, step{Search: s})
	}
	return h
}

// every is a trie of all code points, or with some of them ignored
type every struct {
	Fold   bool
	Ignore string
}

func checkEvery(c every, info *rt.Info) error {
	info.NonTrivial = true
	norm := model.NewSynonyms(nil, c.Fold, []rune(c.Ignore))
	tr := trie.New(c.Fold, []rune(c.Ignore))
	if c.Ignore != "" {
		tr.Add(toks([]string{"qq"}), "X")
	}
	last := map[string]string{}
	for pass := 0; pass < 2; pass++ {
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			if c.Ignore != "" {
				if pass == 1 {
					break
				}
				ts := toks([]string{"q" + string(r) + "q"})
				want := norm.Normal(ts[0].String()) == "qq"
				if found, _, _ := tr.SearchCanonical(ts...); found != want {
					return fmt.Errorf("search %q: got %t, expected %t", ts, found, want)
				}
				continue
			}
			key := norm.Normal(string(r))
			if pass == 0 {
				last[key] = fmt.Sprintf("%x", r)
				tr.Add(toks([]string{string(r)}), last[key])
				continue
			}
			want, ok := last[key]
			if found, canonical, consumed := tr.SearchCanonical(toks([]string{string(r)})...); found != ok || canonical != want || consumed != 1 {
				return fmt.Errorf("search %q: got %t, %q, %d; expected %t, %q", r, found, canonical, consumed, ok, want)
			}
		}
	}
	return nil
}

func Test(t *testing.T) {
	rt.Main(t, "C09",
		rt.P[history]{
			Name:  "history",
			Rule:  "sequences of up to 24 additions and searches, over a vocabulary in which entries share beginnings; non-trivial: a search finds something",
			Quick: 1500000, Thorough: 15000000,
			Gen: func(t *rapid.T) history {
				c := history{Fold: rapid.Bool().Draw(t, "fold"), Ignore: rapid.SampledFrom([]string{"", " ", " -", " -.\u00a0", ".", "b", " é", "ab", "😀 ", "𐐨", "日😀"}).Draw(t, "ignore")}
				canonicals := []string{"X", "Y", "", "x y", "é"}
				phrase := rapid.SliceOfN(rapid.SampledFrom(vocab), 0, 5)
				var known [][]string
				for i := rapid.IntRange(1, 24).Draw(t, "steps"); i > 0; i-- {
					switch rapid.IntRange(0, 4).Draw(t, "step") {
					case 0, 1:
						p := phrase.Draw(t, "phrase")
						known = append(known, p)
						c.Steps = append(c.Steps, step{Add: &entry{p, rapid.SampledFrom(canonicals).Draw(t, "canonical")}})
					case 2:
						c.Steps = append(c.Steps, step{Search: phrase.Draw(t, "search")})
					default:
						var s []string
						if len(known) > 0 {
							for _, w := range rapid.SampledFrom(known).Draw(t, "known") {
								s = append(s, w)
								if rapid.IntRange(0, 5).Draw(t, "vary") == 0 {
									s[len(s)-1] = gen.CaseOf(t, w)
								} else if rapid.IntRange(0, 5).Draw(t, "alias") == 0 {
									s[len(s)-1] = gen.Alias(t, w)
								}
							}
						}
						s = append(s, phrase.Draw(t, "tail")...)
						c.Steps = append(c.Steps, step{Search: s})
					}
				}
				return c
			},
			Check: check,
		},
		rt.P[every]{
			Name:       "runes",
			Rule:       "every code point as an entry of one trie, and as a character which is ignored or not, with case and without; all are non-trivial",
			Exhaustive: true,
			Enum: func(yield func(every) bool) {
				for _, ignore := range []string{"", " ", "-", " -.\u00a0", "é", "日", "😀", "K", "𐐨ß", "\x00", "İ'’\u200d"} {
					if !yield(every{false, ignore}) || !yield(every{true, ignore}) {
						return
					}
				}
			},
			Check: checkEvery,
		},
		rt.P[scale]{
			Name:  "scale",
			Rule:  "histories of up to 5,000 additions and searches, of entries of up to 60 tokens of up to 300 characters, over an alphabet of up to 40,000 characters; non-trivial: a search finds something",
			Quick: 1200, Thorough: 24000,
			Gen: func(t *rapid.T) scale {
				return scale{
					Seed:     rapid.Uint64Range(0, 1<<40).Draw(t, "seed"),
					Steps:    rapid.SampledFrom([]int{4, 40, 400, 5000}).Draw(t, "steps"),
					Tokens:   rapid.SampledFrom([]int{1, 3, 12, 60}).Draw(t, "tokens"),
					Length:   rapid.SampledFrom([]int{1, 3, 20, 300}).Draw(t, "length"),
					Alphabet: rapid.SampledFrom([]int{2, 30, 700, 40000}).Draw(t, "alphabet"),
					Fold:     rapid.Bool().Draw(t, "fold"),
					Ignore:   rapid.SampledFrom([]string{"", "a", "ab", "-"}).Draw(t, "ignore"),
				}
			},
			Check: func(c scale, info *rt.Info) error { return check(c.history(), info) },
		},
	)
}
