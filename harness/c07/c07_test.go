package c07

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/kitf"
	"verif/harness/model"
	"verif/harness/rt"
)

type op struct {
	Kind string
	Arg  string
	List string `json:",omitempty"` // filters given to Filter at once; see listed
}

type ops struct {
	Toks []model.Tok
	Ops  []op
}

// Predicates of Where
var predicates = map[string]func(model.Tok) bool{
	"short": func(t model.Tok) bool { return len(t.S) <= 2 },
	"punct": func(t model.Tok) bool { return t.Punct },
	"none":  func(t model.Tok) bool { return false },
	"all":   func(t model.Tok) bool { return true },
	"lemma": func(t model.Tok) bool { return t.Lemma },
	"e":     func(t model.Tok) bool { return strings.Contains(t.S, "e") },
}

func apply(s *jargon.TokenStream, o op) *jargon.TokenStream {
	switch o.Kind {
	case "where":
		return s.Where(func(t *jargon.Token) bool { return predicates[o.Arg](model.Of(t)) })
	case "words":
		return s.Words()
	case "lemmas":
		return s.Lemmas()
	case "distinct":
		return s.Distinct()
	case "filter":
		// Filter with none, or several, filters
		switch o.Arg {
		case "none":
			return s.Filter()
		case "one":
			return s.Filter((*jargon.TokenStream).Distinct)
		case "list":
			var fs []jargon.Filter
			for _, k := range o.List {
				fs = append(fs, listed(k).filter)
			}
			return s.Filter(fs...)
		default:
			return s.Filter((*jargon.TokenStream).Words, (*jargon.TokenStream).Distinct, upper)
		}
	}
	rt.Must(fmt.Errorf("no op %q", o.Kind))
	return nil
}

type listedFilter struct {
	filter jargon.Filter
	model  model.Filter
}

// listed is a filter by its letter. The order matters for most of them.
func listed(k rune) listedFilter {
	switch k {
	case 'w':
		return listedFilter{(*jargon.TokenStream).Words, model.Words}
	case 'l':
		return listedFilter{(*jargon.TokenStream).Lemmas, model.Lemmas}
	case 'd':
		return listedFilter{(*jargon.TokenStream).Distinct, model.Distinct}
	case 'u':
		return listedFilter{upper, model.Map(func(t model.Tok) model.Tok { return model.New(strings.ToUpper(t.S), true) })}
	}
	suffix := string(k)
	return listedFilter{func(s *jargon.TokenStream) *jargon.TokenStream {
		return jargon.NewTokenStream(func() (*jargon.Token, error) {
			t, err := s.Next()
			if t == nil || err != nil {
				return nil, err
			}
			return jargon.NewToken(t.String()+suffix, t.IsLemma()), nil
		})
	}, model.Map(func(t model.Tok) model.Tok { return model.New(t.S+suffix, t.Lemma) })}
}

func upper(s *jargon.TokenStream) *jargon.TokenStream {
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		t, err := s.Next()
		if t == nil || err != nil {
			return nil, err
		}
		return jargon.NewToken(strings.ToUpper(t.String()), true), nil
	})
}

func applyModel(in []model.Tok, o op) []model.Tok {
	switch o.Kind {
	case "where":
		return model.Where(predicates[o.Arg])(in)
	case "words":
		return model.Words(in)
	case "lemmas":
		return model.Lemmas(in)
	case "distinct":
		return model.Distinct(in)
	case "filter":
		switch o.Arg {
		case "none":
			return in
		case "one":
			return model.Distinct(in)
		case "list":
			for _, k := range o.List {
				in = listed(k).model(in)
			}
			return in
		default:
			return model.Map(func(t model.Tok) model.Tok { return model.New(strings.ToUpper(t.S), true) })(model.Distinct(model.Words(in)))
		}
	}
	return nil
}

func check(c ops, info *rt.Info) error {
	in := canonical(c.Toks)
	open := func() *jargon.TokenStream {
		s := kit.Source(in, nil)
		for _, o := range c.Ops {
			s = apply(s, o)
		}
		return s
	}
	want := in
	for _, o := range c.Ops {
		want = applyModel(want, o)
		info.Label(o.Kind)
	}
	info.NonTrivial = len(in) >= 4 && len(want) > 0

	got, err := kit.Collect(open())
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	if err := model.Diff(got, want); err != nil {
		return err
	}

	ts, err := open().ToSlice()
	if err != nil {
		return err
	}
	if err := model.Diff(model.All(ts), want); err != nil {
		return fmt.Errorf("ToSlice: %w", err)
	}
	str, err := open().String()
	if err != nil {
		return err
	}
	if str != model.Text(want) {
		return fmt.Errorf("String: got %q, expected %q", str, model.Text(want))
	}
	s := open()
	n, err := s.Count()
	if err != nil {
		return err
	}
	if n != len(want) {
		return fmt.Errorf("Count: got %d, expected %d", n, len(want))
	}
	if t, err := s.Next(); t != nil || err != nil {
		return fmt.Errorf("after Count: got %v, %v, expected the end", t, err)
	}

	// WriteTo, and a writer that fails at every point
	text := model.Text(want)
	for limit := -1; limit <= len(text); limit++ {
		for kind := 0; kind < 4; kind++ {
			short := kind&1 != 0
			fault := kit.WriteErrs[(limit+1+len(want))%len(kit.WriteErrs)]
			w := &kit.Writer{Limit: limit, Short: short, Err: fault}
			var dst io.Writer = w
			if kind&2 != 0 {
				dst = kit.StringWriter{Writer: w}
			}
			n, err := open().WriteTo(dst)
			if int(n) != len(w.Got) {
				return fmt.Errorf("WriteTo says %d bytes, the writer took %d", n, len(w.Got))
			}
			if !strings.HasPrefix(text, string(w.Got)) {
				return fmt.Errorf("wrote %q, not a prefix of %q", w.Got, text)
			}
			if w.Failed > 0 {
				if !errors.Is(err, fault) {
					return fmt.Errorf("writer failed after %d bytes with %q, WriteTo returned %v", len(w.Got), fault, err)
				}
				if w.After > 0 {
					return fmt.Errorf("WriteTo went on writing after the writer failed")
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("WriteTo: unexpected error %v", err)
			}
			if len(w.Got) != len(text) {
				return fmt.Errorf("WriteTo wrote %q, expected %q", w.Got, text)
			}
		}
	}
	return checkWriters(open, text)
}

// checkWriters writes to those of the standard library
func checkWriters(open func() *jargon.TokenStream, text string) error {
	var buf bytes.Buffer
	var builder strings.Builder
	under := &kit.Writer{Limit: -1}
	bw := bufio.NewWriterSize(under, 16)
	pr, pw := io.Pipe()
	got := make(chan string)
	go func() {
		b, _ := io.ReadAll(pr)
		got <- string(b)
	}()
	for _, w := range []io.Writer{&buf, &builder, bw, pw, io.MultiWriter(&buf, &builder)} {
		if n, err := open().WriteTo(w); int(n) != len(text) || err != nil {
			return fmt.Errorf("WriteTo a %T: %d, %v, expected %d", w, n, err, len(text))
		}
	}
	bw.Flush()
	pw.Close()
	for i, s := range []string{buf.String(), builder.String(), string(under.Got), <-got} {
		if w := []string{text + text, text + text, text, text}[i]; s != w {
			return fmt.Errorf("WriteTo: writer %d got %q, expected %q", i, s, w)
		}
	}
	// One that fails when its buffer is full
	under = &kit.Writer{Limit: len(text) / 2}
	bw = bufio.NewWriterSize(under, 16)
	n, err := open().WriteTo(bw)
	if err != nil && !errors.Is(err, kit.ErrWrite) || err == nil && int(n) != len(text) {
		return fmt.Errorf("WriteTo a buffer on a writer that fails: %d, %v", n, err)
	}
	if err == nil && under.Failed > 0 {
		return fmt.Errorf("WriteTo a buffer on a writer that fails: the error got lost")
	}
	if ferr := bw.Flush(); len(text) > 0 && ferr == nil {
		return fmt.Errorf("WriteTo a buffer on a writer that takes %d bytes of %d: no error", len(text)/2, len(text))
	}
	return nil
}

// canonical makes the tokens ones that NewToken would make
func canonical(in []model.Tok) []model.Tok {
	var out []model.Tok
	for _, t := range in {
		if t.S != "" {
			out = append(out, model.New(t.S, t.Lemma))
		}
	}
	return out
}

// resume is a partial read, then an operator on the rest
type resume struct {
	Toks []model.Tok
	Read int
	Op   op
	Way  string
}

func checkResume(c resume, info *rt.Info) error {
	in := canonical(c.Toks)
	s := kit.Source(in, nil)
	n := c.Read
	if n > len(in) {
		n = len(in)
	}
	for i := 0; i < n; i++ {
		if c.Way == "scan" {
			s.Scan()
		} else if _, err := s.Next(); err != nil {
			return err
		}
	}
	want := applyModel(in[n:], c.Op)
	info.NonTrivial = n > 0 && len(want) > 0
	got, err := kit.Collect(apply(s, c.Op))
	if err != nil {
		return err
	}
	if err := model.Diff(got, want); err != nil {
		return fmt.Errorf("operator on the rest of a stream: %w", err)
	}
	return nil
}

// branches are several operators on one stream, made and read in any order. What one of them reads from the
// stream is not there for the others.
type branches struct {
	Toks  []model.Tok
	Ops   [][]op
	Steps []int // make the branch, if it is not there yet, and read a token of it
}

func checkBranches(c branches, info *rt.Info) error {
	in := canonical(c.Toks)
	current, next := -1, 0
	pulled := make([][]model.Tok, len(c.Ops)+1)
	base := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if next == len(in) {
			return nil, nil
		}
		t := in[next]
		next++
		pulled[current] = append(pulled[current], t)
		return jargon.NewToken(t.S, t.Lemma), nil
	})
	streams := make([]*jargon.TokenStream, len(c.Ops)+1)
	got := make([][]model.Tok, len(c.Ops)+1)
	read := func(i int) (bool, error) {
		current = i
		if streams[i] == nil {
			s := base
			if i < len(c.Ops) {
				for _, o := range c.Ops[i] {
					s = apply(s, o)
				}
			}
			streams[i] = s
		}
		t, err := streams[i].Next()
		if err != nil || t == nil {
			return false, err
		}
		got[i] = append(got[i], model.Of(t))
		return true, nil
	}
	for _, i := range c.Steps {
		if _, err := read(i % len(streams)); err != nil {
			return err
		}
	}
	for i := range streams {
		for n := 0; ; n++ {
			more, err := read(i)
			if err != nil {
				return err
			}
			if !more {
				break
			}
			if n > 2*len(in) {
				return fmt.Errorf("branch %d does not end", i)
			}
		}
	}
	users := 0
	for i := range streams {
		want := pulled[i]
		if i < len(c.Ops) {
			for _, o := range c.Ops[i] {
				want = applyModel(want, o)
			}
		}
		if len(pulled[i]) > 0 {
			users++
		}
		if err := model.Diff(got[i], want); err != nil {
			return fmt.Errorf("operators %v on a stream that is read by others, too: %w", i, err)
		}
	}
	if next != len(in) {
		return fmt.Errorf("%d of %d tokens were read", next, len(in))
	}
	info.NonTrivial = users >= 2
	return nil
}

// many is a long list, made of numbers, in which texts are repeated only after Period different ones
type many struct {
	N, Period int
	Ops       []op
	Write     int // limit of the writer
}

func checkMany(c many, info *rt.Info) error {
	in := make([]model.Tok, 0, c.N)
	for i := 0; i < c.N; i++ {
		k := i % c.Period
		s := fmt.Sprintf("%d", k)
		switch k % 7 {
		case 3:
			s = strings.Repeat(" ", k/7+1)
			if k > 700 {
				s = fmt.Sprintf(" %d", k)
			}
		case 5:
			s = "—" + s
		}
		in = append(in, model.New(s, k%3 == 0))
	}
	open := func() *jargon.TokenStream {
		s := kit.Source(in, nil)
		for _, o := range c.Ops {
			s = apply(s, o)
		}
		return s
	}
	want := in
	for _, o := range c.Ops {
		want = applyModel(want, o)
	}
	info.NonTrivial = len(want) > 1000 && len(c.Ops) > 0
	ts, err := open().ToSlice()
	if err != nil {
		return err
	}
	if err := model.Diff(model.All(ts), want); err != nil {
		return err
	}
	n, err := open().Count()
	if err != nil || n != len(want) {
		return fmt.Errorf("Count: got %d, %v, expected %d", n, err, len(want))
	}
	text := model.Text(want)
	str, err := open().String()
	if err != nil || str != text {
		return fmt.Errorf("String: got %d bytes, %v, expected %d", len(str), err, len(text))
	}
	w := &kit.Writer{Limit: c.Write, Short: c.N%2 == 0}
	m, err := open().WriteTo(w)
	if int(m) != len(w.Got) || !strings.HasPrefix(text, string(w.Got)) || (err != nil) != (w.Failed > 0) || w.After > 0 || err == nil && len(w.Got) != len(text) {
		return fmt.Errorf("WriteTo of %d bytes, the writer takes %d: says %d, %v; the writer took %d, and was called %d times after it failed", len(text), c.Write, m, err, len(w.Got), w.After)
	}
	return nil
}

type varied struct {
	N, Seed int
	Pad     int `json:",omitempty"` // they have that many bytes in common, before and after
}

// words are many different random words
func (c varied) words() []string {
	x := uint64(c.Seed)
	ws := make([]string, c.N)
	seen := make(map[string]bool, c.N)
	for i := 0; i < c.N; {
		x += 0x9e3779b97f4a7c15 // splitmix64
		z := (x ^ x>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		w := strconv.FormatUint(z>>(z%6*6), 36)
		if c.Pad > 0 {
			w = strings.Repeat("x", c.Pad) + w + strings.Repeat("y", c.Pad)
		}
		if !seen[w] {
			seen[w] = true
			ws[i] = w
			i++
		}
	}
	return ws
}

func checkVaried(c varied, info *rt.Info) error {
	ws := c.words()
	info.NonTrivial = true
	i := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i == 2*len(ws) {
			return nil, nil
		}
		w := ws[i%len(ws)]
		i++
		return jargon.NewToken(w, false), nil
	}).Distinct()
	for n := range ws {
		t, err := s.Next()
		if err != nil || t == nil || t.String() != ws[n] {
			return fmt.Errorf("token %d of Distinct: got %v, %v, expected %q", n, t, err, ws[n])
		}
	}
	if t, err := s.Next(); t != nil || err != nil {
		return fmt.Errorf("Distinct: %v, %v after %d different tokens", t, err, len(ws))
	}
	return nil
}

func genToks(t *rapid.T) []model.Tok {
	var toks []model.Tok
	for i := rapid.IntRange(0, 10).Draw(t, "toks"); i > 0; i-- {
		var s string
		if rapid.IntRange(0, 2).Draw(t, "any") == 0 {
			s = gen.Fragment(t, gen.Opt{NoTerms: true})
		} else {
			s = rapid.SampledFrom([]string{"the", "The", " ", ".", "foo", "e", "é", "\n", "\t", "-", "a b", "The", " ", "日"}).Draw(t, "s")
		}
		toks = append(toks, model.Tok{S: s, Lemma: rapid.IntRange(0, 2).Draw(t, "lemma") == 0})
	}
	return toks
}

func genOp(t *rapid.T) op {
	o := op{Kind: rapid.SampledFrom([]string{"where", "words", "lemmas", "distinct", "filter"}).Draw(t, "op")}
	switch o.Kind {
	case "where":
		o.Arg = rapid.SampledFrom([]string{"short", "punct", "none", "all", "lemma", "e"}).Draw(t, "predicate")
	case "filter":
		o.Arg = rapid.SampledFrom([]string{"none", "one", "several", "list", "list"}).Draw(t, "filters")
		if o.Arg == "list" {
			o.List = rapid.StringOfN(rapid.SampledFrom([]rune("wldu-xyz12")), 0, 12, -1).Draw(t, "list")
		}
	}
	return o
}

func Test(t *testing.T) {
	rt.Main(t, "C07",
		rt.P[ops]{
			Name:  "operators",
			Rule:  "lists of up to 10 tokens, lemmas and not, repeated and not, through up to 3 operators, consumed in each of 5 ways, and written to a writer that fails at every point; non-trivial: at least 4 tokens in and 1 out",
			Quick: 320000, Thorough: 2400000,
			Gen: func(t *rapid.T) ops {
				c := ops{Toks: genToks(t)}
				for i := rapid.IntRange(0, 3).Draw(t, "ops"); i > 0; i-- {
					c.Ops = append(c.Ops, genOp(t))
				}
				return c
			},
			Check: check,
		},
		rt.P[resume]{
			Name:  "resume",
			Rule:  "part of a stream is read, then an operator applied to the rest; non-trivial: something was read, and something is left",
			Quick: 320000, Thorough: 2400000,
			Gen: func(t *rapid.T) resume {
				return resume{Toks: genToks(t), Read: rapid.IntRange(0, 6).Draw(t, "read"), Op: genOp(t), Way: rapid.SampledFrom([]string{"next", "scan"}).Draw(t, "way")}
			},
			Check: checkResume,
		},
		rt.P[branches]{
			Name:  "branches",
			Rule:  "2 to 4 chains of operators on one stream, made and read in turns: each gives what it should for the tokens it took; non-trivial: at least 2 of them (or the stream itself) got tokens",
			Quick: 160000, Thorough: 2400000,
			Gen: func(t *rapid.T) branches {
				c := branches{Toks: append(genToks(t), genToks(t)...)}
				for i := rapid.IntRange(2, 4).Draw(t, "branches"); i > 0; i-- {
					var ops []op
					for j := rapid.IntRange(1, 2).Draw(t, "ops"); j > 0; j-- {
						ops = append(ops, genOp(t))
					}
					c.Ops = append(c.Ops, ops)
				}
				c.Steps = rapid.SliceOfN(rapid.IntRange(0, len(c.Ops)), 0, 16).Draw(t, "steps")
				return c
			},
			Check: checkBranches,
		},
		rt.P[many]{
			Name:  "many",
			Rule:  "lists of 1,000 to 120,000 tokens, with up to as many different texts, through up to 3 operators; non-trivial: an operator, and more than 1,000 tokens out",
			Quick: 512, Thorough: 6400,
			Gen: func(t *rapid.T) many {
				c := many{N: rapid.IntRange(1000, 120000).Draw(t, "n")}
				c.Period = rapid.IntRange(c.N/3, c.N).Draw(t, "period")
				for i := rapid.IntRange(0, 3).Draw(t, "ops"); i > 0; i-- {
					c.Ops = append(c.Ops, op{Kind: rapid.SampledFrom([]string{"distinct", "distinct", "words", "lemmas"}).Draw(t, "op")})
				}
				if c.Write = -1; rapid.Bool().Draw(t, "fails") {
					c.Write = rapid.IntRange(0, 500000).Draw(t, "write")
				}
				return c
			},
			Check: checkMany,
		},
		rt.P[varied]{
			Name:  "varied",
			Rule:  "Distinct of 300,000 to 600,000 different random words of 5 to 13 characters, each of them twice; or of up to 2,000 words of up to 10 KB that differ in the middle only; all are non-trivial",
			Quick: 32, Thorough: 320,
			Gen: func(t *rapid.T) varied {
				if rapid.Bool().Draw(t, "padded") {
					return varied{N: rapid.IntRange(2, 2000).Draw(t, "n"), Seed: rapid.IntRange(0, 1<<40).Draw(t, "seed"), Pad: rapid.SampledFrom([]int{10, 60, 300, 5000}).Draw(t, "pad")}
				}
				return varied{N: rapid.IntRange(300000, 600000).Draw(t, "n"), Seed: rapid.IntRange(0, 1<<40).Draw(t, "seed")}
			},
			Check: checkVaried,
		},
		kitf.Runs([][]string{{"x"}, {" "}, {"."}, {"x", " "}, {"a", "b", "c", "d", "."}}, kitf.Spec{Kind: "words"}, kitf.Spec{Kind: "lemmas"}, kitf.Spec{Kind: "distinct"}, kitf.Spec{Kind: "where"}),
	)
}
