package c10

import (
	"bufio"
	"fmt"
	"io"
	"runtime"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

// endless repeats a text forever, in chunks.
type endless struct {
	unit   []byte
	chunk  int
	served int
	limit  int // beyond which it panics: the code reads without end
	reads  int
}

type runaway string

func (e *endless) Read(p []byte) (int, error) {
	e.reads++
	if e.served > e.limit {
		panic(runaway(fmt.Sprintf("read more than %d bytes", e.limit)))
	}
	n := len(p)
	if n > e.chunk {
		n = e.chunk
	}
	for i := 0; i < n; i++ {
		p[i] = e.unit[(e.served+i)%len(e.unit)]
	}
	e.served += n
	return n, nil
}

type stream struct {
	Unit    rt.Bytes // a text that is repeated forever
	Chunk   int
	HTML    bool
	Filters []kitf.Spec
	Take    int // tokens
}

// ahead is how many bytes of the source may be read beyond what has come out. It covers buffers of 64 KB for
// the longest token plus its lookahead, and the words that a multi-word term may span; what matters is that
// there is a bound that does not depend on the length of the input.
const ahead = 300000

func catch(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if why, ok := r.(runaway); ok {
				err = fmt.Errorf("%s", string(why))
				return
			}
			panic(r)
		}
	}()
	return f()
}

func checkEndless(c stream, info *rt.Info) error {
	unit := c.Unit
	filters := kitf.Filters(c.Filters)
	// How many bytes must be processed for the tokens we want: ask the same pipeline with finite input.
	reps := 1
	need := -1
	for reps*len(unit) < 400000 {
		text := strings.Repeat(string(unit), reps)
		toks, err := kit.Collect(source(c.HTML, strings.NewReader(text)).Filter(filters...))
		if err != nil {
			return fmt.Errorf("unexpected error: %v", err)
		}
		if len(toks) > c.Take+40 || (len(c.Filters) == 1 && c.Filters[0].Kind == "distinct" && len(toks) > c.Take) {
			// (the end of a finite text may have a few tokens that an endless one does not)
			need = len(text)
			break
		}
		reps *= 4
	}
	if need < 0 {
		info.Label("excluded: selects too few tokens")
		return nil
	}
	return catch(func() error {
		e := &endless{unit: unit, chunk: c.Chunk, limit: need + ahead}
		s := source(c.HTML, e).Filter(filters...)
		if e.reads > 0 {
			return fmt.Errorf("making the stream read %d bytes, before any token was asked for", e.served)
		}
		for i := 0; i < c.Take; i++ {
			t, err := s.Next()
			if err != nil {
				return fmt.Errorf("token %d: unexpected error: %v", i, err)
			}
			if t == nil {
				return fmt.Errorf("token %d: an endless text ended", i)
			}
		}
		info.NonTrivial = c.Take >= 3
		info.LabelIf(c.HTML, "html")
		return nil
	})
}

func source(html bool, r interface {
	Read([]byte) (int, error)
}) *jargon.TokenStream {
	if html {
		return jargon.TokenizeHTML(r)
	}
	return jargon.Tokenize(r)
}

// pull is a stream of tokens, where we count how many are read ahead.
type pull struct {
	Text    rt.Bytes
	Filters []kitf.Spec
}

func checkPull(c pull, info *rt.Info) error {
	toks := model.Tokenize(string(c.Text))
	pulled := 0
	s := kit.Source(toks, &pulled)
	bound := 4
	words, spaces := 0, 0
	for _, f := range c.Filters {
		n := 2
		switch f.Kind {
		case "synonyms":
			n = model.NewSynonyms(f.Mappings, f.Fold, []rune(f.Ignore)).MaxWords
		case "tags":
			n = model.Tags.MaxWords
		case "nba":
			n = model.NBA.MaxWords
		}
		words += n + 2
	}
	// the longest series of spaces may separate the words
	run := 0
	for _, t := range toks {
		if t.Space && !t.Punct {
			run++
			if run > spaces {
				spaces = run
			}
		} else {
			run = 0
		}
	}
	bound += words * (2 + spaces)

	s = s.Filter(kitf.Filters(c.Filters)...)
	if pulled > 0 {
		return fmt.Errorf("making the stream read %d tokens, before any was asked for", pulled)
	}
	// What a prefix of the input gives, with certainty, must be out by the time that the prefix and the
	// lookahead have been read. All but the last bound tokens of input are certain.
	out := 0
	var at []int // how many had been read when a token came out
	for {
		before := pulled
		t, err := s.Next()
		if err != nil {
			return fmt.Errorf("unexpected error: %v", err)
		}
		if t == nil {
			break
		}
		// To decide on this token, no more was needed than what precedes it in the output (all known to
		// be decided before), plus the lookahead beyond the input it stands for.
		if pulled-before > bound+consumedBy(toks, before, t) {
			return fmt.Errorf("token %d (%v): read %d tokens at once, expected at most %d", out, model.Of(t), pulled-before, bound)
		}
		out++
		at = append(at, pulled)
	}
	// Nor does it get further and further ahead: what has been read, but for the lookahead, has come out
	for i := 1; i <= 8; i++ {
		j := len(at) * i / 8
		if j == 0 {
			continue
		}
		if k := at[j-1] - 2*bound; k > 0 {
			if certain := len(kitf.Model(c.Filters, toks[:k])); certain > j+bound {
				return fmt.Errorf("%d tokens have been read when token %d came out; the first %d are enough for %d", at[j-1], j-1, k, certain)
			}
		}
	}
	info.NonTrivial = len(toks) > 2*bound
	return nil
}

// consumedBy is generous: a lemma may stand for as many tokens as it has characters
func consumedBy(toks []model.Tok, from int, t *jargon.Token) int {
	return utf8.RuneCountInString(t.String())
}

// hard are units which, many of them in a row, may be more than a stage is made for
var hard = []string{"\u00a0", "\u2028", "\f", " \u00a0", "日本", "日\u0301", "при вет ", "@", "@a", "#", "'", "a.", "a'", ".a", "a ", "a\u00a0", "1,", "\r\n", "\r", "\n", "\t", "- ", "\u200d ", "🇩🇪", "👩\u200d👧 ", "e\u0301 ", "ruby on ", "can't ", "\x00", "\u00ad ", "ｱ", "คำ", "한글", "$ ", "&nbsp;", "LeBron ", "_ "}

// big is a text so long that anything that is not about linear would take forever
type big struct {
	Unit    rt.Bytes
	Size    int
	HTML    bool
	Filters []kitf.Spec
}

// growth is a text that gets 8 times as long
type growth struct {
	Head    rt.Bytes // once
	Unit    rt.Bytes // repeated
	HTML    bool
	Filters []kitf.Spec
}

func (c growth) text(size int) string {
	return string(c.Head) + strings.Repeat(string(c.Unit), size/len(c.Unit)+1) + " end"
}

func (c growth) time(size int) (time.Duration, error) {
	text := c.text(size)
	filters := kitf.Filters(c.Filters)
	start := rt.CPU()
	s := source(c.HTML, strings.NewReader(text)).Filter(filters...)
	for {
		t, err := s.Next()
		if err != nil {
			return 0, err
		}
		if t == nil {
			return rt.CPU() - start, nil
		}
	}
}

const (
	enough = 30 * time.Millisecond // to be measured
	factor = 8                     // by which the text grows
	much   = 3 * factor            // more than this is not linear
)

func checkGrowth(c growth, info *rt.Info) error {
	if len(c.Unit) == 0 {
		return nil
	}
	size := 1 << 14
	var err error
	for try := 0; try < 4; try++ {
		var small, large time.Duration
		for {
			small, err = c.time(size)
			if err == bufio.ErrTooLong {
				info.Label("excluded: token too long")
				return nil
			}
			if err != nil {
				return fmt.Errorf("unexpected error: %v", err)
			}
			if small >= enough || size >= 1<<21 {
				break
			}
			size *= 2
		}
		if large, err = c.time(size * factor); err != nil {
			return fmt.Errorf("unexpected error: %v", err)
		}
		if small < enough {
			small = enough
		}
		info.NonTrivial = true
		info.LabelIf(c.HTML, "html")
		info.LabelIf(len(c.Filters) > 0, "filters")
		if large <= much*small {
			if len(c.Head) < 1000 {
				return nil
			}
			// Nor does it matter for the rest that there was a long token
			short := c
			short.Head = nil
			without, err2 := short.time(size * factor)
			if err2 != nil {
				return fmt.Errorf("unexpected error: %v", err2)
			}
			if without < enough {
				without = enough
			}
			if large <= 6*without {
				return nil
			}
			err = fmt.Errorf("%d bytes take %v of CPU time; after a token of %d bytes, they take %v", size*factor, without, len(c.Head), large)
			continue
		}
		err = fmt.Errorf("%d bytes take %v of CPU time, %d times as many take %v", size, small, factor, large)
	}
	return err
}

// unique gives words that are all different, for a while. It watches the memory in use when a tenth has been
// read, and when nearly all has been.
type unique struct {
	form  string // of a word and what follows it
	size  int    // bytes
	left  int    // bytes
	n     int
	rest  []byte
	first int // in use
	last  int
}

func (u *unique) Read(p []byte) (int, error) {
	if len(u.rest) == 0 {
		if u.left <= 0 {
			return 0, io.EOF
		}
		if u.first == 0 && u.left < u.size*9/10 {
			u.first = live()
		}
		if u.last == 0 && u.left < u.size/50 {
			u.last = live()
		}
		for len(u.rest) < 4096 {
			u.n++
			if strings.Contains(u.form, "%d") {
				u.rest = append(u.rest, fmt.Sprintf(u.form, u.n)...)
			} else {
				u.rest = append(u.rest, u.form...) // all the same
			}
		}
		u.left -= len(u.rest)
	}
	n := copy(p, u.rest)
	u.rest = u.rest[n:]
	return n, nil
}

type memory struct {
	Form    string
	HTML    bool
	Filters []kitf.Spec
	Size    int
	Way     string `json:",omitempty"` // in which it is consumed
}

func live() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc + m.StackInuse)
}

// At least 24 bytes for each token that is kept; there are more than Size/8 tokens
func checkMemory(c memory, info *rt.Info) error {
	u := &unique{form: c.Form, left: c.Size, size: c.Size}
	s := source(c.HTML, u).Filter(kitf.Filters(c.Filters)...)
	var err error
	switch c.Way {
	case "count":
		_, err = s.Count()
	case "write":
		_, err = s.WriteTo(io.Discard)
	case "scan":
		for s.Scan() {
		}
		err = s.Err()
	default:
		var t *jargon.Token
		for t, err = s.Next(); t != nil && err == nil; t, err = s.Next() {
		}
	}
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	if u.first == 0 || u.last == 0 {
		return fmt.Errorf("%d bytes of %d have not been read", u.left, u.size)
	}
	if grown := u.last - u.first; grown > 1<<20+c.Size/8 {
		return fmt.Errorf("%d bytes are in use after %d bytes of text, in addition to %d", grown, c.Size, u.first)
	}
	info.NonTrivial = true
	info.LabelIf(c.HTML, "html")
	info.LabelIf(c.Way != "", c.Way)
	return nil
}

// stop is a writer that fails, on an endless text
type stop struct {
	Unit    rt.Bytes
	HTML    bool
	Filters []kitf.Spec
	Limit   int // what the writer takes
}

// batch is how much more may be read: writing need not happen token by token
const batch = 1 << 20

func checkStop(c stop, info *rt.Info) error {
	filters := kitf.Filters(c.Filters)
	// What comes of a megabyte
	reps := batch/len(c.Unit) + 1
	n, err := source(c.HTML, strings.NewReader(strings.Repeat(string(c.Unit), reps))).Filter(filters...).WriteTo(io.Discard)
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	if n < 1000 {
		info.Label("excluded: selects too few tokens")
		return nil
	}
	need := (c.Limit/int(n) + 1) * (reps + 1) * len(c.Unit)
	return catch(func() error {
		e := &endless{unit: c.Unit, chunk: 4096, limit: need + batch + 100000}
		w := &kit.Writer{Limit: c.Limit}
		n, err := source(c.HTML, e).Filter(filters...).WriteTo(w)
		info.NonTrivial = w.Failed > 0
		if err != kit.ErrWrite || int(n) != len(w.Got) || w.After > 0 {
			return fmt.Errorf("an endless text, written to a writer that fails after %d bytes: %d, %v; the writer took %d, and was called %d times after that", c.Limit, n, err, len(w.Got), w.After)
		}
		return nil
	})
}

func Test(t *testing.T) {
	units := []string{"the quick brown fox, jumps. ", "word ", "Ruby on Rails and node.js ", "@foo #bar $x can't ", "naïve café ", "a b c d e f g h ", "word\u00a0", ", ", "x", "don't "}
	rt.Main(t, "C10",
		rt.P[stream]{
			Name:  "endless",
			Rule:  "an endless text (a generated unit, repeated) through up to 3 filters: making the stream reads nothing, and the first tokens come out after reading a bounded amount; non-trivial: at least 3 tokens are taken",
			Quick: 6000, Thorough: 60000,
			Gen: func(t *rapid.T) stream {
				c := stream{Chunk: rapid.SampledFrom([]int{1, 7, 100, 4096, 100000}).Draw(t, "chunk"), HTML: rapid.IntRange(0, 3).Draw(t, "html") == 0, Take: rapid.IntRange(1, 40).Draw(t, "take")}
				unit := rapid.SampledFrom(units).Draw(t, "unit")
				if rapid.Bool().Draw(t, "free") {
					unit = gen.Text(t, gen.Opt{Min: 1, Max: 8}) + " x. "
				}
				unit += rapid.SampledFrom([]string{" ", ". ", "\n"}).Draw(t, "end")
				if c.HTML {
					// no tag, comment or script without end
					unit = "<p>" + strings.ReplaceAll(unit, "<", "") + "</p>"
				}
				c.Unit = rt.Bytes(unit)
				for i := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "filters"); i > 0; i-- {
					// One that selects tokens can only be the last: an endless text may have only so many
					// distinct words, and then what follows, if it looks ahead, rightly waits forever
					f := kitf.Gen(t, false)
					if i == 1 && rapid.IntRange(0, 3).Draw(t, "select") == 0 {
						f = kitf.Spec{Kind: rapid.SampledFrom([]string{"words", "lemmas"}).Draw(t, "selecting")}
						switch {
						case len(c.Filters) == 0 && rapid.Bool().Draw(t, "distinct"):
							f.Kind = "distinct"
						case rapid.Bool().Draw(t, "stop"):
							f = kitf.GenStop(t)
						}
					}
					c.Filters = append(c.Filters, f)
				}
				return c
			},
			Check: checkEndless,
		},
		rt.P[pull]{
			Name:  "lookahead",
			Rule:  "a stream of 50 to 600 tokens through up to 3 filters: no token takes reading ahead more than the words that a term can span; non-trivial: the input has more than twice that",
			Quick: 10000, Thorough: 150000,
			Gen: func(t *rapid.T) pull {
				var c pull
				for i := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "filters"); i > 0; i-- {
					c.Filters = append(c.Filters, kitf.Gen(t, false))
				}
				unit := rapid.SampledFrom(units).Draw(t, "unit")
				if rapid.Bool().Draw(t, "free") {
					unit = gen.Text(t, gen.Opt{Min: 1, Max: 8}) + " "
				}
				c.Text = rt.Bytes(strings.Repeat(unit, rapid.IntRange(10, 60).Draw(t, "times")))
				return c
			},
			Check: checkPull,
		},
		rt.P[growth]{
			Name:  "growth",
			Rule:  "texts and HTML, some with a long token first, of 16 KB to 16 MB, through up to 3 filters: 8 times the text takes at most 24 times the CPU time (the best of 4 attempts), and a long token first makes no difference of more than 6 times; non-trivial: all",
			Quick: 96, Thorough: 4000,
			Enum: func(yield func(growth) bool) {
				for _, u := range hard {
					for _, fs := range [][]kitf.Spec{nil, {{Kind: "tags"}}, {{Kind: "nba"}, {Kind: "contractions"}, {Kind: "english"}}, {{Kind: "handles"}, {Kind: "ascii"}, {Kind: "hashtags"}}, {{Kind: "distinct"}}, {{Kind: "synonyms", Mappings: map[string]string{"a b": "c", "word b c d e": "x", "end": "e"}, Ignore: " \u00a0\u2028,", Fold: true}}} {
						for _, head := range []string{"", "word" + strings.Repeat("x", 60000) + " "} {
							if !rt.Thorough() && head != "" && len(fs) > 0 {
								continue
							}
							if !yield(growth{Head: rt.Bytes(head + "word"), Unit: rt.Bytes(u), Filters: fs}) {
								return
							}
						}
					}
					if !yield(growth{Head: rt.Bytes("<p>"), Unit: rt.Bytes("<b>" + u + "</b>"), HTML: true, Filters: []kitf.Spec{{Kind: "tags"}}}) {
						return
					}
				}
			},
			Gen: func(t *rapid.T) growth {
				c := growth{HTML: rapid.IntRange(0, 3).Draw(t, "html") == 0}
				unit := gen.Text(t, gen.Opt{Min: 1, Max: 4, Extra: kitf.Vocabulary})
				if c.HTML {
					unit = "<i>" + strings.ReplaceAll(unit, "<", "") + "</i>"
				}
				c.Unit = rt.Bytes(unit)
				for i := rapid.IntRange(0, 3).Draw(t, "filters"); i > 0; i-- {
					c.Filters = append(c.Filters, kitf.Gen(t, true))
				}
				return c
			},
			Check: checkGrowth,
		},
		rt.P[memory]{
			Name: "memory",
			Rule: "2 MB (thorough: 32 MB) of text or HTML in which all words are different, or, for those that drop tokens, all the same, through each kind of filter that does not have to remember them, consumed in 4 ways: the heap and stack in use do not grow with the text; non-trivial: all",
			Enum: func(yield func(memory) bool) {
				for _, form := range []string{"w%d ", "é%dé, ", "#t%d @u ", "%dx\n", "<b id=%d>x</b> ", "<script>var x%d</script>"} {
					for _, f := range append(kitf.Every(), kitf.Spec{}) {
						if f.Kind == "distinct" {
							continue
						}
						if !rt.Thorough() && (f.Kind == "french" || f.Kind == "norwegian" || f.Kind == "russian" || f.Kind == "spanish" || f.Kind == "swedish" || f.Kind == "nfd" || f.Kind == "nfkc" || f.Kind == "nfkd") {
							continue
						}
						c := memory{Form: form, HTML: form[0] == '<', Size: rt.Pick(2000000, 32000000)}
						if f.Kind != "" {
							c.Filters = []kitf.Spec{f}
						}
						if !yield(c) {
							return
						}
						if rt.Thorough() || f.Kind == "" {
							for _, way := range []string{"count", "write", "scan"} {
								c.Way = way
								if !yield(c) {
									return
								}
							}
						}
					}
				}
				// Those of which nothing, or nearly nothing, comes out
				for _, f := range []kitf.Spec{{Kind: "lemmas"}, {Kind: "where"}, {Kind: "words"}, {Kind: "distinct"}, {Kind: "stop", List: []string{"x", " ", ",", "É"}, Fold: true}, {Kind: "synonyms", Mappings: map[string]string{"x": "", "é": "", "日": ""}, Fold: true}} {
					for _, form := range []string{"x x ", "É ", "é\u00a0, ", "\r\n", ", ", "日", "<x>x</x>"} {
						c := memory{Form: form, HTML: form[0] == '<', Filters: []kitf.Spec{f}, Size: rt.Pick(2000000, 32000000)}
						if !yield(c) {
							return
						}
						c.Way = "count"
						if rt.Thorough() && !yield(c) {
							return
						}
					}
				}
			},
			Check: checkMemory,
		},
		rt.P[stop]{
			Name:  "stop",
			Rule:  "an endless text, written to a writer that takes up to 100,000 bytes, through up to 3 filters: WriteTo comes back with the error after reading at most about 1 MB more than that; non-trivial: the writer failed",
			Quick: 48, Thorough: 1000,
			Gen: func(t *rapid.T) stop {
				c := stop{HTML: rapid.IntRange(0, 3).Draw(t, "html") == 0, Limit: rapid.SampledFrom([]int{0, 1, 10, 4096, 100000}).Draw(t, "limit")}
				unit := rapid.SampledFrom(units).Draw(t, "unit") + " "
				if c.HTML {
					unit = "<p>" + unit + "</p>"
				}
				c.Unit = rt.Bytes(unit)
				for i := rapid.IntRange(0, 3).Draw(t, "filters"); i > 0; i-- {
					c.Filters = append(c.Filters, kitf.Gen(t, i == 1))
				}
				return c
			},
			Check: checkStop,
		},
		rt.P[big]{
			Name: "big",
			Rule: "texts and HTML of 1 MB (thorough: 8 MB) through each kind of filter, within 90 s of CPU time, where it takes about 0.2 s; non-trivial: all",
			Enum: func(yield func(big) bool) {
				for _, u := range units {
					for _, f := range kitf.Every() {
						for _, html := range []bool{false, true} {
							if !rt.Thorough() && f.Kind != "tags" && f.Kind != "synonyms" {
								continue
							}
							unit := u
							if html {
								unit = "<b>" + u + "</b>"
							}
							if u == "x" {
								unit += strings.Repeat("y", 500) + " "
							}
							if !yield(big{Unit: rt.Bytes(unit), Size: rt.Pick(1000000, 8000000), HTML: html, Filters: []kitf.Spec{f}}) {
								return
							}
						}
					}
				}
			},
			Check: func(c big, info *rt.Info) error {
				info.NonTrivial = true
				text := strings.Repeat(string(c.Unit), c.Size/len(c.Unit))
				n, err := source(c.HTML, strings.NewReader(text)).Filter(kitf.Filters(c.Filters)...).Count()
				if err != nil {
					return fmt.Errorf("unexpected error: %v", err)
				}
				if n == 0 && c.Filters[0].Kind != "lemmas" && c.Filters[0].Kind != "words" && c.Filters[0].Kind != "stop" && c.Filters[0].Kind != "distinct" {
					return fmt.Errorf("no tokens")
				}
				return nil
			},
		},
	)
}
