package c11

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

// shared is one filter (or chain) that several streams use at the same time.
type shared struct {
	Filters  []kitf.Spec
	Texts    []rt.Bytes
	Parallel bool
	// which stream is read next, when not parallel
	Schedule []int
}

func check(c shared, info *rt.Info) error {
	if len(c.Texts) == 0 {
		return nil
	}
	filters := kitf.Filters(c.Filters)
	want := make([][]model.Tok, len(c.Texts))
	for i, text := range c.Texts {
		want[i] = kitf.Model(c.Filters, model.Tokenize(string(text)))
	}
	got := make([][]model.Tok, len(c.Texts))
	errs := make([]error, len(c.Texts))

	if c.Parallel {
		info.Label("parallel")
		var start, done sync.WaitGroup
		start.Add(1)
		panics := make([]interface{}, len(c.Texts))
		for i := range c.Texts {
			done.Add(1)
			go func(i int) {
				defer done.Done()
				defer func() { panics[i] = recover() }()
				start.Wait()
				for n := 0; n < 3; n++ {
					toks, err := kit.Collect(jargon.TokenizeString(string(c.Texts[i])).Filter(filters...))
					if n > 0 && len(toks) != len(got[i]) {
						errs[i] = fmt.Errorf("use %d gave %d tokens, use %d gave %d", n-1, len(got[i]), n, len(toks))
						return
					}
					got[i], errs[i] = toks, err
					if err != nil {
						return
					}
				}
			}(i)
		}
		start.Done()
		done.Wait()
		for i, p := range panics {
			if p != nil {
				return fmt.Errorf("stream %d: panic: %v", i, p)
			}
		}
	} else {
		info.Label("interleaved")
		streams := make([]*jargon.TokenStream, len(c.Texts))
		for i, text := range c.Texts {
			streams[i] = jargon.TokenizeString(string(text)).Filter(filters...)
		}
		read := func(i int) bool {
			t, err := streams[i].Next()
			if err != nil {
				errs[i] = err
				return false
			}
			if t == nil {
				return false
			}
			got[i] = append(got[i], model.Of(t))
			return true
		}
		for _, i := range c.Schedule {
			read(i % len(streams))
		}
		for more := true; more; {
			more = false
			for i := range streams {
				if read(i) {
					more = true
				}
			}
		}
	}
	for i := range c.Texts {
		if errs[i] != nil {
			return fmt.Errorf("stream %d: %v", i, errs[i])
		}
		if err := model.Diff(got[i], want[i]); err != nil {
			return fmt.Errorf("stream %d of %d: %w", i, len(c.Texts), err)
		}
	}
	info.NonTrivial = len(c.Texts) >= 2 && len(c.Filters) > 0
	return nil
}

// same is one chain of filters applied several times to one stream: what one of them takes is not there for the others,
// and each does what it should with what it took.
type same struct {
	Filters []kitf.Spec
	Text    rt.Bytes
	N       int
	Steps   []int
}

func checkSame(c same, info *rt.Info) error {
	filters := kitf.Filters(c.Filters)
	in := model.Tokenize(string(c.Text))
	current, next := 0, 0
	pulled, got := make([][]model.Tok, c.N), make([][]model.Tok, c.N)
	base := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if next == len(in) {
			return nil, nil
		}
		t := in[next]
		next++
		pulled[current] = append(pulled[current], t)
		return jargon.NewToken(t.S, t.Lemma), nil
	})
	streams := make([]*jargon.TokenStream, c.N)
	read := func(i int) (bool, error) {
		current = i
		if streams[i] == nil {
			streams[i] = base.Filter(filters...)
		}
		t, err := streams[i].Next()
		if err != nil || t == nil {
			return false, err
		}
		got[i] = append(got[i], model.Of(t))
		return true, nil
	}
	for _, i := range c.Steps {
		if _, err := read(i % c.N); err != nil {
			return err
		}
	}
	for i := range streams {
		for {
			more, err := read(i)
			if err != nil {
				return err
			}
			if !more {
				break
			}
		}
	}
	users := 0
	for i := range streams {
		if len(pulled[i]) > 0 {
			users++
		}
		if err := model.Diff(got[i], kitf.Model(c.Filters, pulled[i])); err != nil {
			return fmt.Errorf("use %d of %d, of the same filters on the same stream: %w", i, c.N, err)
		}
	}
	info.NonTrivial = users >= 2
	return nil
}

// first is the first use, in this process, of the filters that the packages provide
type first struct {
	Kinds []string
}

func checkFirst(c first, info *rt.Info) error {
	var texts []rt.Bytes
	for i := 0; i < 8; i++ {
		texts = append(texts, rt.Bytes(strings.Repeat(fmt.Sprintf("Ruby on Rails %d node.js LeBron James can't café running @foo #bar ", i), 3)))
	}
	for _, k := range c.Kinds {
		if err := check(shared{Filters: []kitf.Spec{{Kind: k}}, Texts: texts, Parallel: true}, &rt.Info{}); err != nil {
			return fmt.Errorf("first use of %s: %w", k, err)
		}
	}
	info.NonTrivial = true
	return nil
}

func Test(t *testing.T) {
	rt.Main(t, "C11",
		rt.P[first]{
			Name: "first",
			Rule: "the first use in a process of every filter that the packages provide, by 8 goroutines at once, under the race detector; non-trivial: all",
			Enum: func(yield func(first) bool) {
				for i := 0; i < 8; i++ { // one for each shard, i.e. process
					kinds := append([]string{}, kitf.Plain...)
					kinds = append(kinds[i:], kinds[:i]...)
					if !yield(first{kinds}) {
						return
					}
				}
			},
			Check: checkFirst,
		},
		rt.P[shared]{
			Name:  "shared",
			Rule:  "one chain of up to 3 filters, newly made, on 2 to 6 generated texts: in parallel goroutines, under the race detector, or in one with a generated interleaving; each stream compared with the reference for its own text; non-trivial: at least 2 texts and a filter",
			Quick: 24000, Thorough: 200000,
			Gen: func(t *rapid.T) shared {
				var c shared
				for i := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "filters"); i > 0; i-- {
					c.Filters = append(c.Filters, kitf.Gen(t, true))
				}
				if rapid.Bool().Draw(t, "synonyms") {
					c.Filters = append(c.Filters, kitf.GenSynonyms(t, true))
				}
				for i := rapid.IntRange(2, 6).Draw(t, "texts"); i > 0; i-- {
					if last := c.Filters[len(c.Filters)-1]; last.Kind == "synonyms" {
						c.Texts = append(c.Texts, rt.Bytes(kitf.SynonymText(t, last)))
						continue
					}
					c.Texts = append(c.Texts, rt.Bytes(gen.Text(t, gen.Opt{Max: 10})))
				}
				c.Parallel = rapid.Bool().Draw(t, "parallel")
				if !c.Parallel {
					c.Schedule = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 40).Draw(t, "schedule")
				}
				return c
			},
			Check: check,
		},
		rt.P[same]{
			Name:  "same",
			Rule:  "one chain of up to 3 filters applied 2 to 4 times to one stream, read in turns: each gives what it should for the tokens it took; non-trivial: at least 2 of them got tokens",
			Quick: 24000, Thorough: 200000,
			Gen: func(t *rapid.T) same {
				c := same{N: rapid.IntRange(2, 4).Draw(t, "n")}
				for i := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "filters"); i > 0; i-- {
					c.Filters = append(c.Filters, kitf.Gen(t, true))
				}
				if rapid.IntRange(0, 2).Draw(t, "synonyms") == 0 {
					c.Filters = append(c.Filters, kitf.GenSynonyms(t, true))
					for i := 0; i < 3; i++ {
						c.Text = append(append(c.Text, kitf.SynonymText(t, c.Filters[len(c.Filters)-1])...), ' ')
					}
				} else {
					c.Text = rt.Bytes(gen.Text(t, gen.Opt{Max: 20}))
				}
				c.Steps = rapid.SliceOfN(rapid.IntRange(0, c.N-1), 0, 30).Draw(t, "steps")
				return c
			},
			Check: checkSame,
		},
		rt.P[shared]{
			Name:  "many",
			Rule:  "one chain of up to 3 filters on 20 to 120 texts of up to 2,000 characters, in parallel or interleaved; non-trivial: at least 2 texts and a filter",
			Quick: 160, Thorough: 3200,
			Gen: func(t *rapid.T) shared {
				var c shared
				for i := rapid.IntRange(1, 3).Draw(t, "filters"); i > 0; i-- {
					c.Filters = append(c.Filters, kitf.Gen(t, true))
				}
				var units []string
				for i := 0; i < 6; i++ {
					units = append(units, gen.Text(t, gen.Opt{Max: 6}))
				}
				for i := rapid.IntRange(20, 120).Draw(t, "texts"); i > 0; i-- {
					u := fmt.Sprintf("%s n%d ", units[i%6], i)
					c.Texts = append(c.Texts, rt.Bytes(strings.Repeat(u, 1+(i*37)%40*50/(len(u)+20))))
				}
				c.Parallel = rapid.Bool().Draw(t, "parallel")
				if !c.Parallel {
					c.Schedule = rapid.SliceOfN(rapid.IntRange(0, 119), 0, 200).Draw(t, "schedule")
				}
				return c
			},
			Check: check,
		},
	)
}
