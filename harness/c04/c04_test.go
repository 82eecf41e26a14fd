package c04

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/model"
	"verif/harness/rt"
)

type page struct {
	HTML   rt.Bytes
	Chunks kit.Chunks
}

// node is a piece of a generated, well-formed document, of which we know what its tokens are
type node struct {
	Kind string // text, tag, comment, doctype, script, style
	S    rt.Bytes
	Open rt.Bytes `json:",omitempty"` // script, style
	End  rt.Bytes `json:",omitempty"`
}

type doc struct {
	Nodes []node
}

func selfClosedRaw(s string) bool {
	z := html.NewTokenizer(strings.NewReader(s))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return false
		case html.SelfClosingTagToken:
			name, _ := z.TagName()
			if n := string(name); n == "script" || n == "style" {
				return true
			}
		}
	}
}

func checkPage(c page, info *rt.Info) error {
	got, err := kit.Collect(jargon.TokenizeHTML(&kit.Reader{Data: c.HTML, Chunks: c.Chunks}))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	if text := model.Text(got); text != string(c.HTML) {
		return fmt.Errorf("tokens do not add up to the source: %q, expected %q", text, string(c.HTML))
	}
	for i, t := range got {
		if t.S == "" || t.Lemma {
			return fmt.Errorf("token %d is empty or a lemma: %v", i, t)
		}
	}
	if selfClosedRaw(string(c.HTML)) {
		// Whether what follows is script is contentious
		info.Label("self-closed script or style: round trip only")
		return nil
	}
	want := model.TokenizeHTML(string(c.HTML))
	markup, words := 0, 0
	for _, t := range want {
		if t.Punct && strings.HasPrefix(t.S, "<") {
			markup++
		}
		if t.Word() {
			words++
		}
	}
	info.NonTrivial = markup >= 2 && words >= 1
	info.LabelIf(strings.Contains(strings.ToLower(string(c.HTML)), "<script"), "script")
	info.LabelIf(strings.Contains(string(c.HTML), "<!--"), "comment")
	return model.Diff(got, want)
}

func checkDoc(c doc, info *rt.Info) error {
	var source string
	var want []model.Tok
	markup := func(b rt.Bytes) {
		source += string(b)
		want = append(want, model.Tok{S: string(b), Punct: true})
	}
	text := ""
	flush := func() {
		// adjacent text is one text
		want = append(want, model.Tokenize(text)...)
		text = ""
	}
	kinds := map[string]bool{}
	for _, n := range c.Nodes {
		kinds[n.Kind] = true
		if n.Kind != "text" {
			flush()
		}
		switch n.Kind {
		case "text":
			source += string(n.S)
			text += string(n.S)
		case "script", "style":
			markup(n.Open)
			if len(n.S) > 0 {
				source += string(n.S)
				want = append(want, model.Tok{S: string(n.S)})
			}
			markup(n.End)
		default:
			markup(n.S)
		}
	}
	flush()
	got, err := kit.Collect(jargon.TokenizeHTML(strings.NewReader(source)))
	if err != nil {
		return fmt.Errorf("unexpected error: %v", err)
	}
	info.NonTrivial = len(kinds) >= 2 && len(c.Nodes) >= 3
	for k := range kinds {
		info.Label(k)
	}
	return model.Diff(got, want)
}

var (
	tags      = []string{"<p>", "</p>", "<br>", "<br/>", "<BR />", "<div class=\"a b\">", "</div>", "<DIV ID='x y'>", "<a href=\"http://x.y/?a=1&amp;b=2\">", "</a>", "<img src=x alt=\"a > b\">", "<span\n data-x = 'y<z'\t>", "</span >", "<input disabled>", "<h1>", "<custom-tag a b=c>", "<svg/>", "<td align=LEFT>", "<A HREF=Foo>"}
	wholes    = []string{"&nbsp;", "&amp;", "&lt;", "&gt;", "&quot;", "&#160;", "&#xa0;", "&#39;", "&apos;", "&eacute;", "&copy;", "&NBSP;", "&nbsp", "&#0;", "&;", "&notanentity;", "&amp;amp;", "\u00a0", " ", "\n", "\t\n ", "\u200b", ">", "]]>", "-->", "&nbsp;&nbsp;", "a&nbsp;b"}
	comments  = []string{"<!-- a comment -->", "<!---->", "<!-- <p>no tag</p> don't -->", "<!--\nruby on rails\n-->", "<!-- a -- b -->"}
	doctypes  = []string{"<!doctype html>", "<!DOCTYPE HTML PUBLIC \"-//W3C//DTD\" \"x>", "<!DOCTYPE html SYSTEM \"about:legacy-compat\">"}
	openings  = map[string][]string{"script": {"<script>", "<script type=\"text/javascript\">", "<SCRIPT src='x.js'>", "<Script\nasync>"}, "style": {"<style>", "<STYLE type=text/css>", "<style\tmedia=\"print\">"}}
	closings  = map[string][]string{"script": {"</script>", "</SCRIPT>", "</script >"}, "style": {"</style>", "</Style>", "</style\n>"}}
	rawPieces = []string{"var a = \"<p>\";", " ", "\n", "if (a < b && c) { don't(); }", "// Ruby on Rails", "<b>", "</b>", "</div>", "&amp;", "x", "p > a { color: red }", "é", "/* </ */", "</scripty", "</styl", "'", "\r\n"}
)

type longtoken struct {
	Before, After rt.Bytes
	Unit          string
	Len           int
}

func checkLongtoken(c longtoken, info *rt.Info) error {
	info.NonTrivial = c.Len > 4096
	source := string(c.Before) + strings.Repeat(c.Unit, c.Len/len(c.Unit)) + string(c.After)
	got, err := kit.Collect(jargon.TokenizeHTML(strings.NewReader(source)))
	text := model.Text(got)
	if err == nil && text != source {
		return fmt.Errorf("no error, but %d bytes of %d are missing", len(source)-len(text), len(source))
	}
	if err != nil && c.Len < 65000-20 {
		return fmt.Errorf("unexpected error: %v", err)
	}
	info.LabelIf(err != nil, "too long: error")
	if err := model.Prefix(got, model.TokenizeHTML(source)); err != nil {
		return fmt.Errorf("%.2000s", err)
	}
	return nil
}

type huge struct {
	Kind, Unit string
	Size       int
}

func checkHuge(c huge, info *rt.Info) error {
	info.NonTrivial = true
	info.Label(c.Kind)
	content := strings.Repeat(c.Unit, c.Size/len(c.Unit)+1)
	n := node{Kind: c.Kind, S: rt.Bytes(content)}
	switch c.Kind {
	case "script", "style":
		n.Open, n.End = rt.Bytes("<"+c.Kind+">"), rt.Bytes("</"+c.Kind+">")
	case "comment":
		n.S = rt.Bytes("<!-- " + content + " -->")
	case "tag":
		n.S = rt.Bytes("<img src=\"" + content + "\">")
	case "text":
		if c.Unit == "a" {
			n.S = rt.Bytes(strings.ReplaceAll(content, "aaaaaaaaaa", "aaaaaa aa."))
		}
	}
	text := node{Kind: "text", S: rt.Bytes("before it, ")}
	err := checkDoc(doc{Nodes: []node{text, {Kind: "tag", S: rt.Bytes("<p>")}, n, {Kind: "tag", S: rt.Bytes("</p>")}, text}}, &rt.Info{})
	if err != nil && len(err.Error()) > 2000 {
		return fmt.Errorf("%.1000s ... %s", err, err.Error()[len(err.Error())-500:])
	}
	return err
}

func genNode(t *rapid.T) node {
	switch rapid.IntRange(0, 9).Draw(t, "node") {
	case 0, 1, 2:
		return node{Kind: "tag", S: rt.Bytes(rapid.SampledFrom(tags).Draw(t, "tag"))}
	case 3:
		return node{Kind: "comment", S: rt.Bytes(rapid.SampledFrom(comments).Draw(t, "comment"))}
	case 4:
		return node{Kind: "doctype", S: rt.Bytes(rapid.SampledFrom(doctypes[:1]).Draw(t, "doctype"))}
	case 5, 6:
		k := rapid.SampledFrom([]string{"script", "style"}).Draw(t, "raw")
		var pieces []string
		for _, p := range rapid.SliceOfN(rapid.SampledFrom(rawPieces), 0, 5).Draw(t, "content") {
			pieces = append(pieces, p)
		}
		return node{Kind: k, S: rt.Bytes(strings.Join(pieces, "")), Open: rt.Bytes(rapid.SampledFrom(openings[k]).Draw(t, "open")), End: rt.Bytes(rapid.SampledFrom(closings[k]).Draw(t, "close"))}
	}
	if rapid.IntRange(0, 4).Draw(t, "whole") == 0 {
		return node{Kind: "text", S: rt.Bytes(rapid.SampledFrom(wholes).Draw(t, "text"))}
	}
	s := gen.Text(t, gen.Opt{Max: 6})
	s = strings.NewReplacer("<", "&lt;", "\x00", "").Replace(s)
	return node{Kind: "text", S: rt.Bytes(s)}
}

// Every element, with contents of each sort
func enumElements(yield func(page) bool) {
	contents := []string{"some text, here", "", " ", "don't", "a <b>bold one</b> and, then", "<!-- no, comment --> x y", "&nbsp;", "&amp; co", "a\nb\r\n", "1 < 2 > 1", "Ruby on Rails", "<script>var a = b;</script> p q", "<p>un, closed"}
	for _, name := range gen.TagNames {
		for _, n := range []string{name, strings.ToUpper(name), strings.Title(name)} {
			for _, attrs := range []string{"", " ", " class=\"x y\"", " hidden", " type='text/x'\n"} {
				for _, c := range contents {
					for _, end := range []string{"</" + n + ">", "</" + strings.ToLower(n) + " >", ""} {
						if !yield(page{HTML: rt.Bytes("a b<" + n + attrs + ">" + c + end + " after it, all")}) {
							return
						}
					}
				}
			}
			if !yield(page{HTML: rt.Bytes("a b<" + n + "/> after it, <b>all</b> x")}) {
				return
			}
		}
	}
}

func Test(t *testing.T) {
	rt.Main(t, "C04",
		rt.P[page]{
			Name:       "elements",
			Rule:       "every element of HTML and names like them, in lower, upper and mixed case, with and without attributes, closed or not, with contents of 13 sorts: as the soup; non-trivial: at least 2 pieces of markup and a word",
			Exhaustive: true,
			Enum:       enumElements,
			Check:      checkPage,
		},
		rt.P[doc]{
			Name:  "document",
			Rule:  "documents built of tags, comments, doctypes, script and style elements, and text, whose tokens are known by construction; non-trivial: at least 3 nodes of 2 kinds",
			Quick: 480000, Thorough: 4800000,
			Gen: func(t *rapid.T) doc {
				var d doc
				for i := rapid.IntRange(0, 10).Draw(t, "nodes"); i > 0; i-- {
					d.Nodes = append(d.Nodes, genNode(t))
				}
				return d
			},
			Check: checkDoc,
		},
		rt.P[page]{
			Name:  "soup",
			Rule:  "HTML of any sort, also malformed, truncated and with invalid UTF-8, in generated chunks: round trip, and same nodes as the HTML tokenizer it is based on sees; non-trivial: at least 2 pieces of markup and a word",
			Quick: 480000, Thorough: 4800000,
			Gen: func(t *rapid.T) page {
				return page{HTML: rt.Bytes(gen.HTML(t, gen.Opt{Invalid: true}, 14)), Chunks: kit.GenChunks(t)}
			},
			Check: checkPage,
		},
		rt.P[page]{
			Name:  "large",
			Rule:  "HTML of 4 KB to 200 KB; non-trivial: at least 2 pieces of markup and a word",
			Quick: 3200, Thorough: 32000,
			Gen: func(t *rapid.T) page {
				unit := gen.HTML(t, gen.Opt{}, 20) + "<p> x "
				size := rapid.IntRange(4000, 20000).Draw(t, "size")
				if rapid.IntRange(0, 5).Draw(t, "huge") == 0 {
					size *= 10
				}
				s := strings.Repeat(unit, size/len(unit)+1)
				return page{HTML: rt.Bytes(s)}
			},
			Check: func(c page, info *rt.Info) error {
				for _, t := range model.TokenizeHTML(string(c.HTML)) {
					if t.Word() && len(t.S) > 65000 {
						info.Label("skipped: has a token too long")
						return nil
					}
				}
				return checkPage(c, info)
			},
		},
		rt.P[huge]{
			Name:  "huge",
			Rule:  "documents with one script, style, comment, tag or text of 1 to 20 MB among small ones; all are non-trivial",
			Quick: 48, Thorough: 480,
			Gen: func(t *rapid.T) huge {
				h := huge{
					Kind: rapid.SampledFrom([]string{"script", "style", "comment", "tag", "text"}).Draw(t, "kind"),
					Unit: rapid.SampledFrom([]string{"a", "x = y;\n", "é, ", "don't ", "日本 "}).Draw(t, "unit"),
					Size: rapid.IntRange(1, 40).Draw(t, "size") * 500000,
				}
				if h.Kind == "text" {
					h.Size /= 10 // many tokens
				}
				return h
			},
			Check: checkHuge,
		},
		rt.P[longtoken]{
			Name:  "longtoken",
			Rule:  "a word of 1 KB to 140 KB in text among other text and tags: either all of the source comes back, or there is an error (for which a word must have about 64 KB); non-trivial: the word has more than 4096 bytes",
			Quick: 4000, Thorough: 40000,
			Gen: func(t *rapid.T) longtoken {
				text := func() rt.Bytes {
					return rt.Bytes(rapid.SampledFrom([]string{"", "", "a ", "<p>", "b <i>c</i> ", "<script>x</script>, "}).Draw(t, "text"))
				}
				l := longtoken{Before: text(), After: text(), Unit: rapid.SampledFrom([]string{"a", "é", "7", "a\u0301", " "}).Draw(t, "unit")}
				switch rapid.IntRange(0, 2).Draw(t, "len") {
				case 0:
					l.Len = rapid.IntRange(1000, 64900).Draw(t, "some")
				case 1:
					l.Len = rapid.IntRange(65000, 67000).Draw(t, "limit")
				case 2:
					l.Len = rapid.IntRange(66000, 140000).Draw(t, "more")
				}
				return l
			},
			Check: checkLongtoken,
		},
	)
}
