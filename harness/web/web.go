// Package web runs the web demo, and reads its responses.
package web

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
	"verif/harness/cli"
	"verif/harness/model"
	"verif/harness/rt"
)

// Server is a running web demo.
type Server struct {
	Addr string
	Log  string
	cmd  *exec.Cmd
	dead chan struct{}
}

// Client does not follow redirects.
var Client = &http.Client{
	Timeout:       2 * time.Minute,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	Transport:     &http.Transport{MaxIdleConnsPerHost: 16, DisableCompression: true},
}

var one struct {
	sync.Mutex
	server *Server
}

// Start returns a running server, the same for all cases as long as it runs.
func Start() *Server {
	one.Lock()
	defer one.Unlock()
	if one.server != nil && !one.server.Dead() {
		return one.server
	}
	shard, _ := strconv.Atoi(os.Getenv("VP_SHARD"))
	rnd := rand.New(rand.NewSource(int64(os.Getpid()) + time.Now().UnixNano()))
	var last error
	deaf := 0
	for try := 0; try < 40 && deaf < 2; try++ {
		// Below the range of ephemeral ports, and apart from those of other shards
		port := 20000 + shard*1000 + rnd.Intn(1000)
		began := time.Now()
		s, err := start(port)
		if err == nil {
			one.server = s
			return s
		}
		last = err
		if time.Since(began) > 50*time.Second {
			deaf++
		}
	}
	// Not a matter of ports, which were tried on this machine at random; so, a failure of the case
	panic(fmt.Sprintf("the server does not start: %v", last))
}

// Stop ends the server.
func Stop() {
	one.Lock()
	defer one.Unlock()
	if one.server != nil {
		one.server.cmd.Process.Kill()
		<-one.server.dead
		one.server = nil
	}
}

func start(port int) (*Server, error) {
	s := &Server{Addr: fmt.Sprintf("127.0.0.1:%d", port), dead: make(chan struct{})}
	s.Log = filepath.Join(os.Getenv("VP_SCRATCH"), "web.log")
	log, err := os.Create(s.Log)
	rt.Must(err)
	defer log.Close()
	s.cmd = exec.Command(cli.Bin("VP_BIN_WEB"))
	s.cmd.Env = append(os.Environ(), fmt.Sprintf("PORT=%d", port))
	s.cmd.Dir = os.Getenv("VP_SCRATCH")
	s.cmd.Stdout, s.cmd.Stderr = log, log
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		s.cmd.Wait()
		close(s.dead)
	}()
	deadline := time.Now().Add(time.Minute)
	for time.Now().Before(deadline) && !s.Dead() {
		resp, err := Client.Get("http://" + s.Addr + "/_ah/health")
		if err == nil {
			resp.Body.Close()
			// If another process has the port, ours ends
			time.Sleep(100 * time.Millisecond)
			if s.Dead() {
				break
			}
			return s, nil
		}
		time.Sleep(5 * time.Millisecond)
	}
	s.cmd.Process.Kill()
	<-s.dead
	text, _ := os.ReadFile(s.Log)
	return nil, fmt.Errorf("server does not listen: %s", text)
}

// Dead says whether the server ended.
func (s *Server) Dead() bool {
	select {
	case <-s.dead:
		return true
	default:
		return false
	}
}

// Died describes the end of the server, if it did.
func (s *Server) Died() error {
	for i := 0; i < 20; i++ {
		if s.Dead() {
			text, _ := os.ReadFile(s.Log)
			return fmt.Errorf("the server died: %s", cli.Short(text))
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil
}

// Response of the server.
type Response struct {
	Status int
	Header http.Header
	Body   []byte
}

// Extra is what a request may have besides.
type Extra struct {
	Query   string   `json:",omitempty"`
	Headers []string `json:",omitempty"` // Name: value
}

var queries = []string{"?", "?q=x", "?text", "?html=1&text=2", "?a=b;c=d", "?%zz", "?_method=OPTIONS", "?callback=f", "?format=json", "?%00", "?q=Ruby+on+Rails", "?a=" + strings.Repeat("x", 2000)}

var headers = []string{
	"Content-Type: text/plain", "Content-Type: text/html; charset=utf-8", "Content-Type: application/x-www-form-urlencoded", "Content-Type: multipart/form-data; boundary=x", "Content-Type: multipart/form-data", "Content-Type: application/json", "Content-Type: application/octet-stream", "Content-Type: text/plain; charset=iso-8859-1", "Content-Type: ;",
	"Accept: application/json", "Accept: text/html", "Accept: text/plain;q=0.1", "Accept: */*", "Accept-Language: de", "Accept-Charset: iso-8859-1",
	"Origin: https://example.com", "Origin: null", "X-Requested-With: XMLHttpRequest", "Access-Control-Request-Method: POST", "Access-Control-Request-Headers: x-foo", "Referer: http://example.com/", "Cookie: a=b", "Authorization: Basic eDp5",
	"User-Agent: ", "User-Agent: curl/8", "X-HTTP-Method-Override: OPTIONS", "X-Forwarded-Proto: http", "X-Forwarded-For: 10.0.0.1", "Range: bytes=0-3", "If-None-Match: *", "If-Modified-Since: Thu, 01 Jan 2099 00:00:00 GMT", "Expect: 100-continue", "Connection: close", "Cache-Control: no-cache", "Content-Language: fr", "DNT: 1", "Upgrade: websocket", "X-Original-URL: /nope", "Te: trailers",
	"Accept-Encoding: gzip", "Accept-Encoding: gzip, deflate, br", "Accept-Encoding: identity", "Accept-Encoding: *",
}

// GenExtra draws a query and headers, or none.
func GenExtra(t *rapid.T) Extra {
	var e Extra
	if rapid.IntRange(0, 3).Draw(t, "query") == 0 {
		e.Query = rapid.SampledFrom(queries).Draw(t, "which")
	}
	if rapid.Bool().Draw(t, "headers") {
		e.Headers = rapid.SliceOfN(rapid.SampledFrom(headers), 1, 4).Draw(t, "header")
	}
	return e
}

// Do makes a request.
func (s *Server) Do(method, path string, body io.Reader, length int64, extra Extra) (Response, error) {
	req, err := http.NewRequest(method, "http://"+s.Addr+path, body)
	rt.Must(err)
	if extra.Query != "" {
		req.URL.RawQuery = extra.Query[1:]
		req.URL.ForceQuery = true
	}
	for _, h := range extra.Headers {
		i := strings.Index(h, ": ")
		req.Header.Set(h[:i], h[i+2:])
	}
	if length >= 0 {
		req.ContentLength = length
	}
	resp, err := Client.Do(req)
	if err != nil {
		if err := s.Died(); err != nil {
			return Response{}, err
		}
		return Response{}, fmt.Errorf("no response: %v", err)
	}
	defer resp.Body.Close()
	got, err := io.ReadAll(resp.Body)
	if err != nil {
		if err := s.Died(); err != nil {
			return Response{}, err
		}
		return Response{}, fmt.Errorf("incomplete response: %v", err)
	}
	if got, err = decode(resp.Header.Get("Content-Encoding"), got); err != nil {
		return Response{}, fmt.Errorf("incomplete response: %v", err)
	}
	return Response{resp.StatusCode, resp.Header, got}, nil
}

// DoSlowly makes a request without further headers, and takes some time to read the response.
func (s *Server) DoSlowly(method, path string, body io.Reader, length int64, pause time.Duration) (Response, error) {
	req, err := http.NewRequest(method, "http://"+s.Addr+path, body)
	rt.Must(err)
	req.ContentLength = length
	fail := func(what string, err error) (Response, error) {
		if err := s.Died(); err != nil {
			return Response{}, err
		}
		return Response{}, fmt.Errorf("%s: %v", what, err)
	}
	client := &http.Client{Timeout: 5 * time.Minute, Transport: &http.Transport{DisableCompression: true, DisableKeepAlives: true}}
	resp, err := client.Do(req)
	if err != nil {
		return fail("no response", err)
	}
	defer resp.Body.Close()
	var got bytes.Buffer
	if pause > 0 {
		if _, err := io.CopyN(&got, resp.Body, 100); err != nil {
			return fail("incomplete response", err)
		}
		time.Sleep(pause)
	}
	if _, err := got.ReadFrom(resp.Body); err != nil {
		return fail("incomplete response", err)
	}
	return Response{resp.StatusCode, resp.Header, got.Bytes()}, nil
}

// decode a response that was compressed since the request allowed it.
func decode(encoding string, body []byte) ([]byte, error) {
	switch {
	case len(body) == 0:
		return body, nil
	case encoding == "gzip":
		r, err := gzip.NewReader(bytes.NewReader(body))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	case encoding == "deflate":
		r, err := zlib.NewReader(bytes.NewReader(body))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	}
	return body, nil
}

// Piece of a response: a lemma, or text between lemmas.
type Piece struct {
	S     string
	Lemma bool
}

const open, end = `<span class="lemma">`, `</span>`

// Parse a response: text, and lemmas in spans; there must not be other markup.
func Parse(body []byte) ([]Piece, error) {
	s := string(body)
	var pieces []Piece
	text := func(s string) error {
		if i := strings.IndexAny(s, "<>\"'"); i >= 0 {
			return fmt.Errorf("has %q that is not escaped: %s", s[i:i+1], cli.Short([]byte(s)))
		}
		pieces = add(pieces, html.UnescapeString(s), false)
		return nil
	}
	for {
		i := strings.Index(s, open)
		if i < 0 {
			return pieces, text(s)
		}
		if err := text(s[:i]); err != nil {
			return nil, err
		}
		s = s[i+len(open):]
		i = strings.Index(s, end)
		if i < 0 {
			return nil, fmt.Errorf("span does not end: %s", cli.Short([]byte(s)))
		}
		if j := strings.IndexAny(s[:i], "<>\"'"); j >= 0 {
			return nil, fmt.Errorf("has %q that is not escaped: %s", s[j:j+1], cli.Short([]byte(s[:i])))
		}
		pieces = add(pieces, html.UnescapeString(s[:i]), true)
		s = s[i+len(end):]
	}
}

func add(pieces []Piece, s string, lemma bool) []Piece {
	if s == "" && !lemma {
		return pieces
	}
	if n := len(pieces); !lemma && n > 0 && !pieces[n-1].Lemma {
		pieces[n-1].S += s
		return pieces
	}
	return append(pieces, Piece{s, lemma})
}

// Expected pieces for a route and body.
func Expected(route, body string) []Piece {
	toks := model.Tokenize(body)
	if route == "html" {
		toks = model.TokenizeHTML(body)
	}
	var pieces []Piece
	// many short pieces of text: join once
	var b bytes.Buffer
	for _, t := range model.Tags.Filter(toks) {
		if !t.Lemma {
			b.WriteString(t.S)
			continue
		}
		pieces = add(pieces, b.String(), false)
		b.Reset()
		pieces = add(pieces, t.S, true)
	}
	return add(pieces, b.String(), false)
}

// Differ compares pieces.
func Differ(got, want []Piece) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		var g, w *Piece
		if i < len(got) {
			g = &got[i]
		}
		if i < len(want) {
			w = &want[i]
		}
		if g == nil || w == nil || *g != *w {
			return fmt.Errorf("piece %d of %d (expected %d): got %s, expected %s", i, len(got), len(want), show(g), show(w))
		}
	}
	return nil
}

func show(p *Piece) string {
	if p == nil {
		return "nothing"
	}
	if p.Lemma {
		return "lemma " + cli.Short([]byte(p.S))
	}
	return "text " + cli.Short([]byte(p.S))
}
