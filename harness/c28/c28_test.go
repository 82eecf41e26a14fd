package c28

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/cli"
	"verif/harness/goval"
	"verif/harness/rt"
)

type tag struct {
	Name      string   `json:"name"`
	Synonyms  []string `json:"synonyms,omitempty"`
	Moderator bool     `json:"is_moderator_only,omitempty"`
}

type page struct {
	Tags    []tag
	Backoff int `json:",omitempty"`
}

type site struct {
	Pages []page
	State string
	// Fault on the last page
	Fault string `json:",omitempty"`
	Limit int    `json:",omitempty"` // if positive, bytes that fit on the disk; if negative, generated.go is a directory
	Form  string `json:",omitempty"` // of the transfer
}

var ignored = map[string]bool{"drop-down": true, "datatable": true, "for": true, "this": true}

func spaced(s string) string { return strings.ReplaceAll(s, "-", " ") }

// want is the table for the pages.
func want(pages []page) map[string]string {
	result := map[string]string{}
	seen := map[string]bool{}
	for _, p := range pages {
		for _, t := range p.Tags {
			if t.Moderator {
				continue
			}
			var keep []string
			for _, s := range t.Synonyms {
				if !ignored[s] {
					keep = append(keep, spaced(s))
					seen[spaced(s)] = true
				}
			}
			if len(keep) > 0 {
				result[strings.Join(keep, ", ")] = t.Name
			}
		}
		for _, t := range p.Tags {
			if s := spaced(t.Name); !t.Moderator && !ignored[t.Name] && !seen[s] {
				result[s] = t.Name
			}
		}
	}
	return result
}

type envelope struct {
	Items        []tag  `json:"items"`
	HasMore      bool   `json:"has_more"`
	Backoff      int    `json:"backoff,omitempty"`
	ErrorID      int    `json:"error_id,omitempty"`
	ErrorName    string `json:"error_name,omitempty"`
	ErrorMessage string `json:"error_message,omitempty"`
	QuotaMax     int    `json:"quota_max"`
}

const most = 20 // pages

var faults = []string{"error", "error name", "error message", "status with error", "not json", "truncated json", "cut", "hangup", "backoff", "hang"}

func check(c site, info *rt.Info) error {
	var err error
	for try := 0; try < 5; try++ {
		// The generator has little patience, which may not be enough on a busy machine
		if err = check1(c, info); err == nil || !strings.Contains(err.Error(), "Client.Timeout") && !strings.Contains(err.Error(), "deadline exceeded") {
			break
		}
	}
	return err
}

func check1(c site, info *rt.Info) error {
	dir := cli.Scratch()
	old := goval.Prepare(dir, c.State)
	if c.Limit < 0 {
		goval.Blocked(dir)
	}
	var mu sync.Mutex
	var asked []int
	var wait error
	var answered time.Time
	var odd error
	proxy := goval.NewProxy(dir, "api.stackexchange.com", func(r *http.Request) goval.Answer {
		mu.Lock()
		defer mu.Unlock()
		q := r.URL.Query()
		n, err := strconv.Atoi(q.Get("page"))
		if err != nil {
			n = 1
		}
		if k := len(asked); k > 0 && asked[k-1] >= 1 && asked[k-1] <= len(c.Pages) {
			if b := time.Duration(c.Pages[asked[k-1]-1].Backoff) * time.Second; b > 0 && time.Since(answered) < b {
				wait = fmt.Errorf("asked for page %d %v after page %d, whose answer said to wait for %v", n, time.Since(answered), asked[k-1], b)
			}
		}
		asked = append(asked, n)
		answered = time.Now()
		if r.Host != "api.stackexchange.com" || !strings.HasSuffix(r.URL.Path, "/tags") || q.Get("site") != "stackoverflow" || q.Get("pagesize") != "100" {
			odd = fmt.Errorf("asked for %s%s", r.Host, r.URL)
		}
		if c.Fault == "backoff" && n == len(c.Pages)+1 {
			// The page that it should not wait for
			return goval.Answer{Form: c.Form, Status: 200, Type: "application/json; charset=utf-8", Body: []byte(`{"items":[],"has_more":false,"quota_max":300}`)}
		}
		if n < 1 || n > len(c.Pages) {
			odd = fmt.Errorf("asked for page %d of %d", n, len(c.Pages))
			return goval.Answer{Status: 400, Type: "application/json", Body: []byte(`{"error_id":400,"error_name":"bad_parameter","error_message":"page"}`)}
		}
		p := c.Pages[n-1]
		e := envelope{Items: p.Tags, HasMore: n < len(c.Pages), Backoff: p.Backoff, QuotaMax: 300}
		if e.Items == nil {
			e.Items = []tag{}
		}
		a := goval.Answer{Form: c.Form, Status: 200, Type: "application/json; charset=utf-8"}
		if n == len(c.Pages) {
			switch c.Fault {
			case "error":
				e = envelope{ErrorID: 502, ErrorName: "throttle_violation", ErrorMessage: "too many requests"}
			case "error name":
				e = envelope{ErrorID: 502, ErrorName: "throttle_violation"}
			case "error message":
				e = envelope{ErrorID: 502, ErrorMessage: "too many requests"}
			case "status with error":
				a.Status = 400
				e = envelope{ErrorID: 502, ErrorName: "throttle_violation", ErrorMessage: "too many requests"}
			case "backoff":
				e.HasMore, e.Backoff = true, 11+len(p.Tags)
			case "hangup":
				a.Status = goval.Hangup
			case "hang":
				a.Status = goval.Hang
			}
		}
		a.Body, err = json.Marshal(e)
		rt.Must(err)
		if n == len(c.Pages) {
			switch c.Fault {
			case "not json":
				a.Body = []byte("<html><body>Service unavailable</body></html>")
			case "truncated json":
				a.Body = a.Body[:len(a.Body)-1-len(a.Body)/3]
			case "cut":
				a.Cut = 1 + len(a.Body)/4
			}
		}
		return a
	})
	defer proxy.Close()
	result, err := cli.Do(cli.Run{Bin: cli.Bin("VP_BIN_GENERATE"), Dir: dir, Env: proxy.Env, Limited: c.Limit > 0, Limit: c.Limit})
	if err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	if c.Fault != "" {
		info.NonTrivial = true
		info.Label(c.Fault)
		if len(asked) == 0 {
			return fmt.Errorf("the generator did not ask: %v", result)
		}
		return goval.Failed(dir, result, old)
	}
	if wait != nil {
		return fmt.Errorf("%v: %v", wait, result)
	}
	if odd != nil {
		return fmt.Errorf("%v: %v", odd, result)
	}
	pages := c.Pages
	if len(pages) > most {
		pages = pages[:most]
	}
	w := want(pages)
	for _, p := range pages {
		for _, t := range p.Tags {
			info.LabelIf(t.Moderator, "moderator only")
			info.LabelIf(len(t.Synonyms) > 0, "synonyms")
			for _, s := range t.Synonyms {
				info.LabelIf(ignored[s], "ignored")
			}
		}
	}
	info.LabelIf(len(c.Pages) > 1, "several pages")
	info.NonTrivial = len(w) >= 2
	if len(asked) == 0 {
		return fmt.Errorf("the generator did not ask: %v", result)
	}
	if c.Limit != 0 {
		info.NonTrivial = true
		info.LabelIf(result.Code != 0, "does not fit")
		return goval.FailedWriting(dir, "stackoverflow", c.Limit < 0, result, w)
	}
	return goval.Succeeded(dir, "stackoverflow", result, w)
}

var name = rapid.Custom(func(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "pool") == 0 {
		return rapid.SampledFrom([]string{"c++", "c#", ".net", "node.js", "ruby-on-rails", "asp.net-mvc-3", "objective-c", "html5", "d3.js", "f#", "sql-server-2008", "a", "1.0", "x-", "-x", "русский-язык"}).Draw(t, "known")
	}
	return rapid.StringMatching(`[a-z0-9+#.]{1,6}(-[a-z0-9+#.]{1,4}){0,3}`).Draw(t, "name")
})

func genSite(t *rapid.T, maxPages int) site {
	c := site{State: rapid.SampledFrom(goval.States).Draw(t, "state"), Form: rapid.SampledFrom(goval.Forms).Draw(t, "form")}
	// Names are unique, and so are synonyms: what is to happen otherwise is not specified
	used := map[string]bool{"drop down": true, "datatable": true, "for": true, "this": true}
	fresh := func() (string, bool) {
		for i := 0; i < 3; i++ {
			n := name.Draw(t, "n")
			if !used[spaced(n)] {
				used[spaced(n)] = true
				return n, true
			}
		}
		return "", false
	}
	var all []string
	for i := rapid.IntRange(1, maxPages).Draw(t, "pages"); i > 0; i-- {
		var p page
		for j := rapid.IntRange(0, 6).Draw(t, "tags"); j > 0; j-- {
			n, ok := fresh()
			if !ok {
				continue
			}
			tg := tag{Name: n, Moderator: rapid.IntRange(0, 5).Draw(t, "moderator") == 0}
			for k := rapid.IntRange(-2, 3).Draw(t, "synonyms"); k > 0; k-- {
				if rapid.IntRange(0, 4).Draw(t, "ignored") == 0 {
					s := rapid.SampledFrom([]string{"drop-down", "datatable", "for", "this"}).Draw(t, "ignore")
					if !contains(tg.Synonyms, s) {
						tg.Synonyms = append(tg.Synonyms, s)
					}
				} else if s, ok := fresh(); ok {
					tg.Synonyms = append(tg.Synonyms, s)
					if !tg.Moderator {
						all = append(all, s)
					}
				}
			}
			p.Tags = append(p.Tags, tg)
		}
		// A synonym, also one of an earlier page, may be a tag of its own
		if len(all) > 0 && rapid.IntRange(0, 2).Draw(t, "also") == 0 {
			p.Tags = append(p.Tags, tag{Name: rapid.SampledFrom(all).Draw(t, "which")})
		}
		if rapid.IntRange(0, 5).Draw(t, "word") == 0 {
			p.Tags = append(p.Tags, tag{Name: rapid.SampledFrom([]string{"datatable", "for", "this"}).Draw(t, "ignored tag")})
		}
		c.Pages = append(c.Pages, p)
	}
	return c
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func Test(t *testing.T) {
	rt.Main(t, "C28",
		rt.P[site]{
			Name:  "tags",
			Rule:  "the generator of Stack Overflow tags against generated pages of tags, with synonyms, moderator-only tags and ignored words: the file has the table for them; non-trivial: at least 2 entries",
			Quick: 2400, Thorough: 40000,
			Gen:   func(t *rapid.T) site { return genSite(t, 3) },
			Check: check,
		},
		rt.P[site]{
			Name:  "disk",
			Rule:  "same, but the disk becomes full at any byte of generated.go, or a directory is in its place: it fails, unless everything fits; all are non-trivial",
			Quick: 600, Thorough: 3000,
			Gen: func(t *rapid.T) site {
				c := genSite(t, 2)
				c.Limit = rapid.SampledFrom([]int{-1, 1, 20, 100, 0}).Draw(t, "limit")
				if c.Limit == 0 {
					c.Limit = rapid.IntRange(1, 600).Draw(t, "bytes")
				}
				return c
			},
			Check: check,
		},
		rt.P[site]{
			Name:  "faults",
			Rule:  "same, but the last page is an error message, or not what it should be, or the connection breaks: it fails, and leaves generated.go as it was; all are non-trivial",
			Quick: 800, Thorough: 12000,
			Gen: func(t *rapid.T) site {
				c := genSite(t, 3)
				c.Fault = rapid.SampledFrom(faults[:len(faults)-1]).Draw(t, "fault")
				return c
			},
			Check: check,
		},
		rt.P[site]{
			Name: "limits",
			Rule: "21 pages, of which 20 are to be read; pages that ask to wait for 1 or 10 seconds; a server that never answers; pages of up to 1.5 MB; faults of pages from 8 to 20; all are non-trivial",
			Enum: func(yield func(site) bool) {
				for n := 19; n <= 21; n++ {
					c := site{State: "old"}
					for i := 0; i < n; i++ {
						c.Pages = append(c.Pages, page{Tags: []tag{{Name: fmt.Sprintf("tag-%d", i), Synonyms: []string{fmt.Sprintf("syn-%d", i)}}}})
					}
					if !yield(c) {
						return
					}
				}
				if !yield(site{State: "longer", Pages: []page{{Tags: []tag{{Name: "a"}}, Backoff: 1}, {Tags: []tag{{Name: "b"}}, Backoff: 30}}}) {
					return
				}
				if !yield(site{State: "longer", Pages: []page{{Tags: []tag{{Name: "a"}}, Backoff: 10}, {Tags: []tag{{Name: "b"}}}}}) {
					return
				}
				if !yield(site{State: "none", Pages: []page{{Tags: []tag{{Name: "a"}}}, {Tags: []tag{{Name: "b"}}}}, Fault: "hang"}) {
					return
				}
				var big page
				for i := 0; i < 100; i++ {
					big.Tags = append(big.Tags, tag{Name: fmt.Sprintf("tag-%d", i), Synonyms: []string{fmt.Sprintf("s-%d", i), fmt.Sprintf("r-%d", i)}})
				}
				if !yield(site{State: "none", Pages: []page{big}}) {
					return
				}
				// Pages of about 100 KB and more
				for _, n := range []int{25, 100, 400} {
					big = page{}
					for i := 0; i < 100; i++ {
						tg := tag{Name: fmt.Sprintf("tag-%d-with-quite-a-long-name-%d", i, i)}
						for j := 0; j < n; j++ {
							tg.Synonyms = append(tg.Synonyms, fmt.Sprintf("a-synonym-of-tag-%d-namely-no.%d", i, j))
						}
						big.Tags = append(big.Tags, tg)
					}
					if !yield(site{State: "old", Pages: []page{{}, big, {Tags: []tag{{Name: "z"}}}}, Form: goval.Forms[n&3]}) {
						return
					}
				}
				// Faults far on
				late := append(append([]string{}, faults[:len(faults)-1]...), "backoff", "backoff")
				for i, fault := range late {
					n := []int{8, 20, 14}[i%3]
					if fault == "backoff" {
						n = 10 + i - len(faults) + 2
						if i == len(late)-1 {
							n = most - 1
						}
					}
					c := site{State: "old", Fault: fault, Form: goval.Forms[i%4]}
					for i := 0; i < n; i++ {
						c.Pages = append(c.Pages, page{Tags: []tag{{Name: fmt.Sprintf("tag-%d", i), Synonyms: []string{fmt.Sprintf("syn-%d", i)}}}})
					}
					if !yield(c) {
						return
					}
				}
			},
			Check: func(c site, info *rt.Info) error {
				err := check(c, info)
				info.NonTrivial = true
				return err
			},
		},
	)
}
