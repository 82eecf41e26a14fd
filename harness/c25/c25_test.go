package c25

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/cli"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rt"
	"verif/harness/web"
)

type request struct {
	Route   string
	Body    rt.Bytes
	Size    int  `json:",omitempty"` // made by repeating
	Chunked bool // transfer encoding
	Chunks  kit.Chunks
	Extra   web.Extra
}

func (c request) body() string {
	s := string(c.Body)
	if c.Size > 0 && s != "" {
		s = strings.Repeat(s, c.Size/len(s)+1)
	}
	return s
}

func post(c request) error {
	s := web.Start()
	body := c.body()
	var r io.Reader = &kit.Reader{Data: []byte(body), Chunks: c.Chunks}
	length := int64(len(body))
	if c.Chunked || length == 0 {
		length = -1
		if body == "" {
			r = nil
		}
	}
	resp, err := s.Do("POST", "/"+c.Route, r, length, c.Extra)
	if err != nil {
		return err
	}
	if resp.Status != 200 {
		return fmt.Errorf("status %d: %s", resp.Status, cli.Short(resp.Body))
	}
	got, err := web.Parse(resp.Body)
	if err != nil {
		return err
	}
	return web.Differ(got, web.Expected(c.Route, body))
}

// giant is a body that is a line many times, or that takes its time
type giant struct {
	Route   string
	MB      int
	Seconds int
}

// pieces reads a text again and again, with pauses
type pieces struct {
	text  string
	n     int
	rest  string
	pause time.Duration // at each of 10 places
	every int
}

func (r *pieces) Read(b []byte) (int, error) {
	if r.rest == "" {
		if r.n == 0 {
			return 0, io.EOF
		}
		r.n--
		r.rest = r.text
		if r.pause > 0 && r.n%r.every == 0 {
			time.Sleep(r.pause)
		}
	}
	n := copy(b, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

func checkGiant(c giant, info *rt.Info) error {
	info.NonTrivial = true
	s := web.Start()
	unit := strings.Repeat("Some <b>text</b> about Ruby on Rails & the like.\n", 100)
	n := 10
	if c.MB > 0 {
		n = c.MB << 20 / len(unit) / 10 * 10
	}
	body := &pieces{text: unit, n: n, pause: time.Duration(c.Seconds) * time.Second / 10, every: n / 10}
	length := int64(n * len(unit))
	if c.MB%2 == 1 {
		length = -1
	}
	resp, err := s.DoSlowly("POST", "/"+c.Route, body, length, time.Duration(c.Seconds)*time.Second)
	if err != nil {
		return err
	}
	if resp.Status != 200 {
		return fmt.Errorf("status %d: %s", resp.Status, cli.Short(resp.Body))
	}
	if len(resp.Body)%n != 0 {
		return fmt.Errorf("response of %d bytes, which is not a multiple of %d", len(resp.Body), n)
	}
	first := resp.Body[:len(resp.Body)/n]
	got, err := web.Parse(first)
	if err != nil {
		return err
	}
	if err := web.Differ(got, web.Expected(c.Route, unit)); err != nil {
		return err
	}
	for at := 0; at < len(resp.Body); at += len(first) {
		if !bytes.Equal(resp.Body[at:at+len(first)], first) {
			return fmt.Errorf("response differs from byte %d on: %s", at, cli.Short(resp.Body[at:at+len(first)]))
		}
	}
	return nil
}

func lemmas(ps []web.Piece) int {
	n := 0
	for _, p := range ps {
		if p.Lemma {
			n++
		}
	}
	return n
}

func check(c request, info *rt.Info) error {
	body := c.body()
	if cli.TooLong(body) {
		info.Label("skipped: token too long")
		return nil
	}
	n := lemmas(web.Expected(c.Route, body))
	special := strings.ContainsAny(body, "<>&\"'")
	info.NonTrivial = n > 0 || special
	info.Label(c.Route)
	info.LabelIf(n > 0, "lemmas")
	info.LabelIf(special, "needs escaping")
	return post(c)
}

type several struct {
	Requests []request
}

func checkSeveral(c several, info *rt.Info) error {
	web.Start()
	total := 0
	for _, r := range c.Requests {
		if cli.TooLong(r.body()) {
			return nil
		}
		total += lemmas(web.Expected(r.Route, r.body()))
	}
	info.NonTrivial = len(c.Requests) >= 2 && total > 0
	errs := make(chan error, len(c.Requests))
	begin := make(chan bool)
	for _, r := range c.Requests {
		r := r
		go func() {
			<-begin
			errs <- post(r)
		}()
	}
	close(begin)
	var failed error
	for range c.Requests {
		if err := <-errs; err != nil && failed == nil {
			failed = fmt.Errorf("of %d requests at once: %w", len(c.Requests), err)
		}
	}
	return failed
}

var extra = []string{"<", ">", "&", "\"", "'", "&amp;", "&lt;", "<script>", "</span>", "<span class=\"lemma\">", "{{ . }}", "`", "&#43;", "Ruby on Rails", "node.js", "ObjC", "C++", "java script", "html 5"}

func genRequest(t *rapid.T) request {
	c := request{Route: rapid.SampledFrom([]string{"text", "html"}).Draw(t, "route"), Chunked: rapid.Bool().Draw(t, "chunked")}
	c.Extra = web.GenExtra(t)
	if rapid.Bool().Draw(t, "slow") {
		c.Chunks = kit.GenChunks(t)
	}
	var s string
	if c.Route == "html" && rapid.IntRange(0, 3).Draw(t, "source") > 0 {
		s = gen.HTML(t, gen.Opt{Extra: extra}, 12)
	} else {
		s = gen.Text(t, gen.Opt{Max: 16, Extra: extra})
	}
	// The response is HTML, which has no NUL
	c.Body = rt.Bytes(strings.ReplaceAll(strings.ToValidUTF8(s, ""), "\x00", ""))
	return c
}

func Test(t *testing.T) {
	defer web.Stop()
	rt.Main(t, "C25",
		rt.P[request]{
			Name:  "body",
			Rule:  "generated texts and HTML posted to both routes, with and without a content length, in generated chunks, with or without a query and headers; non-trivial: has a lemma, or a character that needs escaping",
			Quick: 20000, Thorough: 400000,
			Gen:   genRequest,
			Check: check,
		},
		rt.P[request]{
			Name:  "large",
			Rule:  "same, with bodies of 2 KB to 1 MB, made by repeating; non-trivial: has a lemma, or a character that needs escaping",
			Quick: 160, Thorough: 3200,
			Gen: func(t *rapid.T) request {
				c := genRequest(t)
				c.Chunks = kit.Chunks{}
				c.Body = append(c.Body, ". "...)
				c.Size = rapid.SampledFrom([]int{2048, 4096, 32768, 65536, 262144, 1 << 20}).Draw(t, "size")
				return c
			},
			Check: check,
		},
		rt.P[request]{
			Name: "huge",
			Rule: "bodies of 11 MB (thorough: up to 40 MB) to both routes, with and without a content length; all are non-trivial",
			Enum: func(yield func(request) bool) {
				for i := 0; i < 4; i++ {
					c := request{Route: []string{"text", "html"}[i&1], Chunked: i&2 != 0, Size: 11 << 20, Body: rt.Bytes("Some <b>text</b> about Ruby on Rails & the like.\n")}
					if i == 3 {
						c.Size = rt.Pick(11, 40) << 20
					}
					if !yield(c) {
						return
					}
				}
			},
			Check: check,
		},
		rt.P[giant]{
			Name: "giant",
			Rule: "bodies of 36 to 72 MB (thorough: 140 MB), of one line many times, for which the response is that of the line as many times; and bodies of which the pieces come over 13 seconds (thorough: 65), and the response of which is read slowly; all are non-trivial",
			Enum: func(yield func(giant) bool) {
				for _, g := range []giant{{"text", 36, 0}, {"html", 36, 0}, {"text", rt.Pick(72, 140), 0}, {"text", 0, rt.Pick(13, 65)}, {"html", 3, rt.Pick(13, 65)}} {
					if !yield(g) {
						return
					}
				}
			},
			Check: checkGiant,
		},
		rt.P[several]{
			Name:  "concurrent",
			Rule:  "2 to 12 requests at once: each gets its own response; non-trivial: at least 2 requests, and a lemma",
			Quick: 1200, Thorough: 24000,
			Gen: func(t *rapid.T) several {
				var c several
				for i := rapid.IntRange(2, 12).Draw(t, "n"); i > 0; i-- {
					c.Requests = append(c.Requests, genRequest(t))
				}
				return c
			},
			Check: checkSeveral,
		},
		rt.P[several]{
			Name:  "burst",
			Rule:  "64 to 256 requests at once, with bodies of up to 64 KB; non-trivial: at least 2 requests, and a lemma",
			Quick: 64, Thorough: 800,
			Gen: func(t *rapid.T) several {
				var c several
				var pool []request
				for i := 0; i < 8; i++ {
					r := genRequest(t)
					r.Chunks = kit.Chunks{}
					r.Body = append(r.Body, ". "...)
					pool = append(pool, r)
				}
				for i := rapid.IntRange(64, 256).Draw(t, "n"); i > 0; i-- {
					r := pool[i%8]
					r.Body = append(rt.Bytes(fmt.Sprintf("No. %d. ", i)), r.Body...)
					if i%16 < 8 {
						r.Size = []int{512, 2048, 4096, 16384, 65536}[i%5]
					}
					c.Requests = append(c.Requests, r)
				}
				return c
			},
			Check: checkSeveral,
		},
	)
}
