package c26

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/cli"
	"verif/harness/gen"
	"verif/harness/rt"
	"verif/harness/web"
)

type call struct {
	Method string
	Path   string // clean
	Body   rt.Bytes
	Extra  web.Extra
}

func cors(h http.Header) error {
	if got := h.Get("Access-Control-Allow-Origin"); got != "*" {
		return fmt.Errorf("Access-Control-Allow-Origin is %q", got)
	}
	if got := h.Get("Access-Control-Allow-Headers"); got != "X-Requested-With" {
		return fmt.Errorf("Access-Control-Allow-Headers is %q", got)
	}
	return nil
}

func check(c call, info *rt.Info) error {
	s := web.Start()
	body := string(c.Body)
	var r io.Reader
	length := int64(-1)
	if body != "" {
		r, length = strings.NewReader(body), int64(len(body))
	}
	resp, err := s.Do(c.Method, c.Path, r, length, c.Extra)
	if err != nil {
		return err
	}
	if err := cors(resp.Header); err != nil {
		return err
	}
	// %74ext is another spelling of text
	path, err := url.PathUnescape(c.Path)
	rt.Must(err)
	first := strings.Split(path, "/")[1]
	info.NonTrivial = c.Path != "/"
	switch {
	case path == "/_ah/health":
		info.Label("health")
		if resp.Status != 200 {
			return fmt.Errorf("health: status %d", resp.Status)
		}
		if c.Method != "HEAD" && string(resp.Body) != "ok" {
			return fmt.Errorf("health: %s", cli.Short(resp.Body))
		}
	case c.Method == "OPTIONS":
		info.Label("options")
		if resp.Status != 200 || len(resp.Body) > 0 {
			return fmt.Errorf("OPTIONS: status %d, %s", resp.Status, cli.Short(resp.Body))
		}
	case first == "text" || first == "html":
		info.Label("route " + first)
		if resp.Status != 200 {
			return fmt.Errorf("status %d: %s", resp.Status, cli.Short(resp.Body))
		}
		if c.Method == "HEAD" {
			return nil
		}
		got, err := web.Parse(resp.Body)
		if err != nil {
			return err
		}
		return web.Differ(got, web.Expected(first, body))
	default:
		info.Label("no route")
		if resp.Status != 404 {
			return fmt.Errorf("no route: status %d: %s", resp.Status, cli.Short(resp.Body))
		}
	}
	return nil
}

var segments = []string{"text", "html", "Text", "HTML", "texts", "tex", "htmlx", "xhtml", "txt", "index.html", "health", "_ah", "api", "favicon.ico", "text.html", "html-text", "a%20b", "caf%C3%A9", "robots.txt", "TEXT", "Html", "v1", "%74ext", "htm%6C", "%54ext", "text%20", "html%00"}

// broken is a request whose body cannot be read to its end
type broken struct {
	Route string
	Kind  string
	Body  rt.Bytes
	Size  int `json:",omitempty"`
}

var kinds = []string{"short", "chunk size", "chunk end", "no last chunk", "token"}

func checkBroken(c broken, info *rt.Info) error {
	s := web.Start()
	info.NonTrivial = true
	info.Label(c.Kind)
	body := string(c.Body)
	if body == "" {
		body = "x "
	}
	if c.Size > 0 {
		body = strings.Repeat(body, c.Size/len(body)+1)
	}
	conn, err := net.DialTimeout("tcp", s.Addr, time.Minute)
	if err != nil {
		if err := s.Died(); err != nil {
			return err
		}
		return fmt.Errorf("cannot connect: %v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(2 * time.Minute))

	var payload string
	header := fmt.Sprintf("POST /%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n", c.Route)
	switch c.Kind {
	case "short":
		payload = fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body)+1+len(body)%7, body)
	case "chunk size":
		payload = fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\nzz\r\n", len(body), body)
	case "chunk end":
		payload = fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s**\r\n0\r\n\r\n", len(body), body)
	case "no last chunk":
		payload = fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(body), body)
	case "token":
		body = strings.Repeat("x", 70000) + " " + body
		payload = fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
	default:
		rt.Must(fmt.Errorf("no kind %q", c.Kind))
	}
	info.LabelIf(len(body) > 1<<20, "over 1 MB")
	go func() {
		io.WriteString(conn, header+payload)
		if c.Kind != "token" {
			conn.(*net.TCPConn).CloseWrite()
		}
	}()
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		if err := s.Died(); err != nil {
			return err
		}
		return fmt.Errorf("%s: no response: %v", c.Kind, err)
	}
	defer resp.Body.Close()
	if resp.StatusCode != 500 {
		return fmt.Errorf("%s: status %d, though the body could not be read", c.Kind, resp.StatusCode)
	}
	if err := cors(resp.Header); err != nil {
		return err
	}
	// and it goes on
	return check(call{Method: "POST", Path: "/" + c.Route, Body: rt.Bytes("Rails & <b>")}, &rt.Info{})
}

// history is calls and broken requests in any order
type step struct {
	Call   *call   `json:",omitempty"`
	Broken *broken `json:",omitempty"`
}

func genCall(t *rapid.T) call {
	c := call{Method: rapid.SampledFrom([]string{"GET", "POST", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "PROPFIND", "TRACE", "REPORT", "get", "X"}).Draw(t, "method")}
	switch rapid.IntRange(0, 6).Draw(t, "path") {
	case 0:
		c.Path = "/_ah/health"
	case 1:
		c.Path = "/" + rapid.SampledFrom([]string{"text", "html", ""}).Draw(t, "only")
	default:
		for i := rapid.IntRange(1, 3).Draw(t, "depth"); i > 0; i-- {
			c.Path += "/" + rapid.SampledFrom(segments).Draw(t, "segment")
		}
		if rapid.IntRange(0, 3).Draw(t, "slash") == 0 {
			c.Path += "/"
		}
	}
	if c.Method != "HEAD" && c.Method != "TRACE" && rapid.IntRange(0, 3).Draw(t, "body") > 0 {
		c.Body = genBody(t)
	}
	c.Extra = web.GenExtra(t)
	return c
}

func genBody(t *rapid.T) rt.Bytes {
	return rt.Bytes(strings.ReplaceAll(strings.ToValidUTF8(gen.Text(t, gen.Opt{Max: 6}), ""), "\x00", ""))
}

func genBroken(t *rapid.T) broken {
	return broken{Route: rapid.SampledFrom([]string{"text", "html"}).Draw(t, "route"), Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Body: genBody(t), Size: rapid.SampledFrom([]int{0, 0, 3000, 5000, 70000}).Draw(t, "size")}
}

func Test(t *testing.T) {
	defer web.Stop()
	rt.Main(t, "C26",
		rt.P[call]{
			Name:       "routes",
			Rule:       "every method × every path of one or two segments out of a list of routes, near misses and others; non-trivial: all but the root; exhaustive",
			Exhaustive: true,
			Enum: func(yield func(call) bool) {
				var paths []string
				paths = append(paths, "/", "/_ah/health")
				for _, a := range segments {
					paths = append(paths, "/"+a, "/"+a+"/")
					for _, b := range segments {
						paths = append(paths, "/"+a+"/"+b)
					}
				}
				for _, path := range paths {
					for _, m := range []string{"GET", "POST", "PUT", "HEAD", "OPTIONS"} {
						c := call{Method: m, Path: path}
						if m == "POST" || m == "PUT" {
							c.Body = rt.Bytes("Ruby on Rails <b>it's</b> & so on")
						}
						if !yield(c) {
							return
						}
					}
				}
			},
			Check: check,
		},
		rt.P[call]{
			Name:  "calls",
			Rule:  "any method and path, with or without a query and headers of all kinds; non-trivial: all but the root",
			Quick: 8000, Thorough: 100000,
			Gen:   genCall,
			Check: check,
		},
		rt.P[broken]{
			Name:  "broken",
			Rule:  "bodies that end before they should, malformed chunks, and tokens that are too long: status 500, and the server goes on; all are non-trivial",
			Quick: 4800, Thorough: 48000,
			Gen:   genBroken,
			Check: checkBroken,
		},
		rt.P[broken]{
			Name: "late",
			Rule: "every kind of broken body, of 300 KB to 12 MB (thorough: 30 MB), to both routes; all are non-trivial",
			Enum: func(yield func(broken) bool) {
				for _, size := range []int{300 << 10, 1200 << 10, 5 << 20, rt.Pick(12, 30) << 20} {
					for i, kind := range kinds {
						for j, route := range []string{"text", "html"} {
							if size > 2<<20 && (i+j)%2 == 1 {
								continue
							}
							if !yield(broken{Route: route, Kind: kind, Body: rt.Bytes("Ruby on Rails <b>it's</b> & so on\n"), Size: size}) {
								return
							}
						}
					}
				}
			},
			Check: checkBroken,
		},
		rt.P[[]step]{
			Name:  "history",
			Rule:  "sequences of requests, among them broken ones, on one server; non-trivial: at least 2",
			Quick: 1600, Thorough: 16000,
			Gen: func(t *rapid.T) []step {
				var steps []step
				for i := rapid.IntRange(1, 10).Draw(t, "n"); i > 0; i-- {
					if rapid.IntRange(0, 4).Draw(t, "kind") == 0 {
						b := genBroken(t)
						steps = append(steps, step{Broken: &b})
					} else {
						c := genCall(t)
						steps = append(steps, step{Call: &c})
					}
				}
				return steps
			},
			Check: func(steps []step, info *rt.Info) error {
				info.NonTrivial = len(steps) >= 2
				for i, s := range steps {
					var err error
					if s.Call != nil {
						err = check(*s.Call, &rt.Info{})
					} else {
						err = checkBroken(*s.Broken, &rt.Info{})
					}
					if err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
				}
				return nil
			},
		},
	)
}
