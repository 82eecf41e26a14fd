package c29

import (
	"fmt"
	"html"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/cli"
	"verif/harness/goval"
	"verif/harness/model"
	"verif/harness/rt"
)

type player struct {
	Last, First string
	Space       string // between
	Entities    bool   // as HTML entities
	Before      string `json:",omitempty"` // in the same cell
	After       string `json:",omitempty"`
	Inside      bool   `json:",omitempty"` // markup within the link
}

type roster struct {
	Teams [][]player
	State string
	Fault string `json:",omitempty"`
	Limit int    `json:",omitempty"` // if positive, bytes that fit on the disk; if negative, generated.go is a directory
	Form  string `json:",omitempty"` // of the transfer
}

var faults = []string{"404", "500", "503", "429", "201", "203", "206", "304", "no comma", "two commas", "cut", "hangup"}

func entities(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r > 127 {
			fmt.Fprintf(&b, "&#%d;", r)
		} else {
			b.WriteString(html.EscapeString(string(r)))
		}
	}
	return b.String()
}

func (c roster) page() string {
	var b strings.Builder
	b.WriteString("<!DOCTYPE html>\n<html><head><title>List, of rosters</title></head><body><a href=\"#x\">Jump, To</a>\n")
	b.WriteString("<table class=\"sortable\"><tbody><tr><td>1</td><td>2</td><td><a href=\"/x\">Not, Aroster</a></td></tr></tbody></table>\n")
	for i, team := range c.Teams {
		fmt.Fprintf(&b, "<table class=\"toccolours\" style=\"width:85%%\"><tbody><tr><th colspan=\"2\"><a href=\"/team%d\">Team, Name</a></th></tr>\n<tr><th>Players</th><th>Coaches</th></tr>\n<tr><td>\n", i)
		b.WriteString("<table class=\"sortable\" style=\"background:transparent\">\n<thead><tr><th>Pos.</th><th>No.</th><th><a href=\"/n\">Name, Header</a></th><th>Height</th></tr></thead>\n<tbody>")
		for j, p := range team {
			name := p.Last + "," + p.Space + p.First
			if c.Fault != "" && i == len(c.Teams)-1 && j == len(team)-1 {
				switch c.Fault {
				case "no comma":
					name = p.First + p.Last
				case "two commas":
					name = p.Last + ", " + p.First + ", Jr."
				}
			}
			if p.Entities {
				name = entities(name)
			} else {
				name = html.EscapeString(name)
			}
			if p.Inside {
				name = "<span class=\"fn\"><b>" + name + "</b></span>"
			}
			fmt.Fprintf(&b, "<tr>\n<td><a href=\"/pos\" title=\"x\">G, F</a></td>\n<td>%d</td>\n<td style=\"text-align:left\">%s<a href=\"/wiki/%d_%d\" title=\"a, b\">%s</a>%s</td>\n<td><a href=\"/h\">6 ft, 3 in</a></td></tr>\n", j, p.Before, i, j, name, p.After)
		}
		b.WriteString("</tbody></table>\n</td><td><ul><li><a href=\"/coach\">Coach, Head</a></li></ul></td></tr></tbody></table>\n")
	}
	b.WriteString("<p>See also <a href=\"/y\">Draft, NBA</a></p></body></html>\n")
	return b.String()
}

func (c roster) want() map[string]string {
	result := map[string]string{}
	for _, team := range c.Teams {
		for _, p := range team {
			canonical := strings.TrimSpace(p.First) + " " + strings.TrimSpace(p.Last)
			key := canonical
			if folded, changed := model.FoldString(canonical); changed {
				key += ", " + folded
			}
			result[key] = canonical
		}
	}
	return result
}

func check(c roster, info *rt.Info) error {
	dir := cli.Scratch()
	old := goval.Prepare(dir, c.State)
	if c.Limit < 0 {
		goval.Blocked(dir)
	}
	page := []byte(c.page())
	var mu sync.Mutex
	asked := 0
	proxy := goval.NewProxy(dir, "en.wikipedia.org", func(r *http.Request) goval.Answer {
		mu.Lock()
		defer mu.Unlock()
		asked++
		a := goval.Answer{Form: c.Form, Status: 200, Type: "text/html; charset=UTF-8", Body: page}
		switch c.Fault {
		case "404", "500", "503", "429", "201", "203", "206", "304":
			a.Status, _ = strconv.Atoi(c.Fault)
			if a.Status == 304 {
				a.Body = nil
			}
		case "cut":
			a.Cut = 1 + len(page)/3
		case "hangup":
			a.Status = goval.Hangup
		}
		return a
	})
	defer proxy.Close()
	result, err := cli.Do(cli.Run{Bin: cli.Bin("VP_BIN_GENERATE"), Dir: dir, Env: proxy.Env, Limited: c.Limit > 0, Limit: c.Limit})
	if err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	if asked == 0 {
		return fmt.Errorf("the generator did not ask: %v", result)
	}
	if c.Fault != "" {
		info.NonTrivial = true
		info.Label(c.Fault)
		return goval.Failed(dir, result, old)
	}
	want := c.want()
	accents := 0
	for k := range want {
		if strings.Contains(k, ", ") {
			accents++
		}
	}
	info.NonTrivial = len(want) >= 2
	info.LabelIf(accents > 0, "accents")
	if c.Limit != 0 {
		info.NonTrivial = true
		info.LabelIf(result.Code != 0, "does not fit")
		return goval.FailedWriting(dir, "nba", c.Limit < 0, result, want)
	}
	return goval.Succeeded(dir, "nba", result, want)
}

var part = rapid.Custom(func(t *rapid.T) string {
	if rapid.Bool().Draw(t, "pool") {
		return rapid.SampledFrom([]string{"James", "LeBron", "Dončić", "Luka", "Jokić", "Nikola", "O'Neale", "Royce", "Karl-Anthony", "P. J.", "Şengün", "Alperen", "Dragić", "Schröder", "Porziņģis", "Kristaps", "Nenê", "Þór", "Łukasz", "Ilyasova", "Jr.", "Porter Jr.", "III", "Yao", "姚明", "Straße", "\"Magic\"", "A & B", "Valančiūnas", "D\u0301", "Müller", "(b. 1990)", "World B.", "X*", "Y†", "A/B", "[C]", "Nene (2)", "Yao Ming", "2nd", "#", "–", "Jr", "Sr.", "II", "st. x", "mc", "%d", "\\", "`x`", "${a}"}).Draw(t, "known")
	}
	return rapid.StringMatching(`[A-Z][a-z]{0,6}([ '.-][A-Z][a-zéčöşžñ]{0,5})?`).Draw(t, "part")
})

func genRoster(t *rapid.T, min int) roster {
	c := roster{State: rapid.SampledFrom(goval.States).Draw(t, "state"), Form: rapid.SampledFrom(goval.Forms).Draw(t, "form")}
	for i := rapid.IntRange(1, 3).Draw(t, "teams"); i > 0; i-- {
		var team []player
		for j := rapid.IntRange(min, 5).Draw(t, "players"); j > 0; j-- {
			team = append(team, player{Last: part.Draw(t, "last"), First: part.Draw(t, "first"), Space: rapid.SampledFrom([]string{" ", " ", "", "  ", "\u00a0", "\n"}).Draw(t, "space"), Entities: rapid.Bool().Draw(t, "entities")})
			p := &team[len(team)-1]
			if rapid.IntRange(0, 3).Draw(t, "before") == 0 {
				p.Before = rapid.SampledFrom([]string{" ", "<span class=\"flagicon\"></span>", "<span data-sort-value=\"x, y\"></span>&#160;", "<!-- a, b -->", "<img src=\"x\">", "<sup><a href=\"#n\">[b]</a></sup>"}).Draw(t, "what")
			}
			if rapid.IntRange(0, 3).Draw(t, "after") == 0 {
				p.After = rapid.SampledFrom([]string{" (TW)", "<sup><a href=\"#cite_note-1\">[1]</a></sup>", " <span>(<i>C</i>)</span>", "<br>", "&#160;<small><a href=\"/l\">DP</a></small>"}).Draw(t, "more")
			}
			if n := len(team) - 1; n > 0 && rapid.IntRange(0, 9).Draw(t, "again") == 0 {
				// another of the same first or last name, or of both
				q := team[rapid.IntRange(0, n-1).Draw(t, "which")]
				which := rapid.IntRange(0, 3).Draw(t, "what is the same")
				if which != 1 {
					p.Last = q.Last
				}
				if which != 2 {
					p.First = q.First
				}
			}
			p.Inside = rapid.IntRange(0, 7).Draw(t, "inside") == 0
		}
		c.Teams = append(c.Teams, team)
	}
	return c
}

func Test(t *testing.T) {
	rt.Main(t, "C29",
		rt.P[roster]{
			Name:  "players",
			Rule:  "the generator of NBA players against generated pages of rosters, with other tables, columns and links: the file has the table of players; non-trivial: at least 2 players",
			Quick: 7200, Thorough: 40000,
			Gen:   func(t *rapid.T) roster { return genRoster(t, 0) },
			Check: check,
		},
		rt.P[roster]{
			Name:  "disk",
			Rule:  "same, but the disk becomes full at any byte of generated.go, or a directory is in its place: it fails, unless everything fits; all are non-trivial",
			Quick: 2400, Thorough: 12000,
			Gen: func(t *rapid.T) roster {
				c := genRoster(t, 1)
				c.Limit = rapid.SampledFrom([]int{-1, 1, 20, 100, 0}).Draw(t, "limit")
				if c.Limit == 0 {
					c.Limit = rapid.IntRange(1, 600).Draw(t, "bytes")
				}
				return c
			},
			Check: check,
		},
		rt.P[roster]{
			Name:  "faults",
			Rule:  "same, but the status is not 200, the connection breaks, or a name is not last, first: it fails, and leaves generated.go as it was; all are non-trivial",
			Quick: 2400, Thorough: 12000,
			Gen: func(t *rapid.T) roster {
				c := genRoster(t, 1)
				c.Fault = rapid.SampledFrom(faults).Draw(t, "fault")
				return c
			},
			Check: check,
		},
		rt.P[roster]{
			Name:  "league",
			Rule:  "the same, with 10 to 40 teams of up to 25 players; non-trivial: at least 2 players",
			Quick: 160, Thorough: 1600,
			Gen: func(t *rapid.T) roster {
				c := roster{State: rapid.SampledFrom(goval.States).Draw(t, "state"), Form: rapid.SampledFrom(goval.Forms).Draw(t, "form")}
				var parts []string
				for i := 0; i < 30; i++ {
					parts = append(parts, part.Draw(t, "part"))
				}
				n := 0
				for i := rapid.IntRange(10, 40).Draw(t, "teams"); i > 0; i-- {
					var team []player
					for j := rapid.IntRange(0, 25).Draw(t, "players"); j > 0; j-- {
						team = append(team, player{Last: parts[n%30], First: parts[n/30%30], Space: " ", Entities: n%7 == 0})
						n++
					}
					c.Teams = append(c.Teams, team)
				}
				return c
			},
			Check: check,
		},
		rt.P[int]{
			Name: "large",
			Rule: "pages of about 100 KB to 3 MB (thorough: 12 MB), with as many players, or with much else between them; all are non-trivial",
			Enum: func(yield func(int) bool) {
				for _, n := range []int{300, 800, 1500, 3000, 6000, rt.Pick(8000, 30000)} {
					if !yield(n) || !yield(-n) {
						return
					}
				}
			},
			Check: func(n int, info *rt.Info) error {
				c := roster{State: "old", Form: goval.Forms[(n&0xff)%len(goval.Forms)]}
				padding := ""
				if n < 0 {
					// few players, of large cells
					n = -n / 10
					padding = strings.Repeat("<sup><a href=\"#cite_note-1\">[1]</a></sup>", 90)
				}
				for i := 0; i < n; i++ {
					if i%16 == 0 {
						c.Teams = append(c.Teams, nil)
					}
					team := &c.Teams[len(c.Teams)-1]
					*team = append(*team, player{Last: fmt.Sprintf("Players-%c", 'A'+i%26), First: fmt.Sprintf("No %d é", i/26), Space: " ", Before: padding, Entities: i%5 == 0})
				}
				err := check(c, info)
				info.NonTrivial = true
				return err
			},
		},
	)
}
