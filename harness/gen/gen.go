// Package gen generates texts, HTML, readers and the like for the properties.
package gen

import (
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verif/harness/data"
)

// Words is a pool of ordinary words, in various scripts, including ones that the filters care about.
var Words = []string{
	"a", "b", "I", "x1", "the", "The", "and", "Not", "do", "is", "are", "to", "in", "on", "of", "Has", "it",
	"foo", "bar", "Foo", "FOO", "rails", "ruby", "Ruby", "js", "react", "node", "java", "script", "JavaScript", "java script",
	"running", "Management", "manager", "manag", "happily", "skies", "dying", "stemming",
	"café", "Café", "CAFÉ", "naïve", "Straße", "œuvre", "Ærø", "ﬁne", "ｆｕｌｌ", "Å", "Ａ", "①", "ñandú",
	"cafe\u0301", "n\u0303", "e\u0301\u0323", "o\u0308",
	"привет", "бегущий", "книгами", "Москва", "γειά", "Σίσυφος", "שלום", "صباح", "नमस्ते", "ไทย",
	"日本語", "こんにちは", "カタカナ", "ﾊﾝｶｸ", "한국어", "\u1112\u1161\u11ab", "中文",
	"courir", "continuellement", "chevaux", "hablando", "corriendo", "niños", "jaktkarlens", "havnedistriktene",
	"3", "42", "3.14", "1,000", "2,5", "10:30", "1st", "v2.0", "0x1F", "½", "Ⅳ", "²",
	"foo_bar", "_", "__init__", "snake_case", "x_", "_x",
	"node.js", "react.js", "asp.net", "U.S.A", "e.g", "example.com", "a.b.c", "a:b", "d'Artagnan", "rock'n'roll", "l’été", "it's",
	"c++", "c#", "C#", "f#", "objective-c", "x-y", "e-mail", "and/or", "a/b", "R&D", "AT&T", "$5", "€10", "50%", "a+b=c", "x<y", "1>0",
	"😀", "👍🏽", "👨‍👩‍👧", "🇺🇸", "🇺🇸🇨🇦", "❤️", "✈︎", "™", "©",
	"@foo", "#bar", "@", "#", "@@foo", "##x", "@foo_bar", "#2020", "#1", "#a", "foo@bar.com", "@averylongusername", "@exactlyfifteen_",
	"don't", "Don't", "DON'T", "dOn'T", "can't", "we’ve", "We’ve", "SHE'S", "gonna", "Gimme", "CANNOT", "should've", "i'd",
}

// Puncts is a pool of punctuation tokens.
var Puncts = []string{".", ",", "!", "?", ";", ":", "-", "--", "—", "–", "…", "...", "(", ")", "[", "]", "{", "}", "\"", "“", "”", "‘", "’", "'", "`", "/", "\\", "*", "&", "%", "#", "@", "¿", "¡", "。", "、", "«", "»", "·", "•", "_", "'s", "+", "=", "$", "|", "~", "^", "<", ">"}

// Spaces is a pool of white space.
var Spaces = []string{" ", " ", " ", " ", "  ", "   ", "\n", "\r\n", "\r", "\t", "\n\n", "\t\t", " \n ", "\u00a0", "\u3000", "\u2003", "\u2009", "\u2028", "\u2029", "\u0085", "\v", "\f", "\u202f", "\u1680", "\u200b", "\ufeff"}

// Oddities is a pool of characters with particular roles in segmentation and case mapping.
var Oddities = []string{"\u0301", "\u0308", "\u200d", "\u200c", "\u00ad", "\u2060", "\ufe0f", "\U0001f3fd", "\U0001f1e6", "\u0000", "\u001b", "\u007f", "\ufffd", "\uffff", "\U0010ffff", "İ", "ı", "ſ", "K", "Å", "ẞ", "ǅ", "\u0345", "ΐ", "ﬃ", "ﷺ", "\u1e9b\u0323", "\u0958", "\u2126", "\u0344", "゙", "ﾞ", "\u0e33", "\u0600", "\U000e0041", "\u02a8", "\uff5e", "\u2053"}

var invalid = []string{"\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\x80", "a\xffb", "caf\xe9"}

// SOKeys and NBAKeys are the single synonyms of the dictionaries, sorted.
var SOKeys, NBAKeys = keys(data.StackOverflow), keys(data.NBA)

func keys(m map[string]string) []string {
	var result []string
	for k := range m {
		for _, s := range strings.Split(k, ",") {
			if s = strings.TrimSpace(s); s != "" {
				result = append(result, s)
			}
		}
	}
	sort.Strings(result)
	return result
}

var contractionKeys = func() []string {
	var result []string
	for k := range data.Contractions {
		result = append(result, k)
	}
	sort.Strings(result)
	return result
}()

// CaseOf draws a variation of the case of s.
func CaseOf(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 4).Draw(t, "case") {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.Title(strings.ToLower(s))
	case 3:
		mask := rapid.Uint64().Draw(t, "mask")
		var b strings.Builder
		i := uint(0)
		for _, r := range s {
			if mask&(1<<(i%64)) != 0 {
				r = unicode.ToUpper(r)
			}
			b.WriteRune(r)
			i++
		}
		return b.String()
	}
	return s
}

// Alias replaces one character of s by another that has the same lower bits, or differs in one bit.
func Alias(t *rapid.T, s string) string {
	r := []rune(s)
	if len(r) == 0 {
		return s
	}
	i := rapid.IntRange(0, len(r)-1).Draw(t, "at")
	x := r[i]
	switch rapid.IntRange(0, 3).Draw(t, "alias") {
	case 0:
		x = x&0x7f | rapid.Rune().Draw(t, "any")&^0x7f
	case 1:
		x = x&0xff | rune(rapid.IntRange(0, 0x10ff).Draw(t, "high"))<<8
	case 2:
		x = x&0xffff | rune(rapid.IntRange(0, 0x10).Draw(t, "plane"))<<16
	case 3:
		x ^= 1 << uint(rapid.IntRange(0, 16).Draw(t, "bit"))
	}
	if utf8.ValidRune(x) {
		r[i] = x
	}
	return string(r)
}

// Contraction draws a contraction, with a straight or curly apostrophe, in any case.
func Contraction(t *rapid.T) string {
	s := rapid.SampledFrom(contractionKeys).Draw(t, "contraction")
	if rapid.Bool().Draw(t, "curly") {
		s = strings.ReplaceAll(s, "'", "’")
	}
	return CaseOf(t, s)
}

// Term draws a term of the dictionaries, as it is or with a variation of case and separators.
func Term(t *rapid.T) string {
	pool := SOKeys
	if rapid.IntRange(0, 3).Draw(t, "nba") == 0 {
		pool = NBAKeys
	}
	s := rapid.SampledFrom(pool).Draw(t, "term")
	sep := rapid.SampledFrom([]string{" ", " ", " ", "", ".", "-", "/", "  ", "\n"}).Draw(t, "sep")
	if sep != " " {
		s = strings.ReplaceAll(s, " ", sep)
	}
	return CaseOf(t, s)
}

var asciiWord = rapid.StringMatching(`[A-Za-z]{1,8}`)
var alnumWord = rapid.StringMatching(`[A-Za-z0-9_]{1,18}`)

// Opt tunes Text.
type Opt struct {
	Min, Max int  // number of fragments
	Invalid  bool // also invalid UTF-8
	NoTerms  bool // no dictionary terms
	Extra    []string
}

// Fragment draws a piece of text: a word, punctuation, space, a term, some oddity.
func Fragment(t *rapid.T, o Opt) string {
	n := 100
	if len(o.Extra) > 0 {
		n = 140
	}
	k := rapid.IntRange(0, n).Draw(t, "kind")
	switch {
	case k < 26:
		return rapid.SampledFrom(Words).Draw(t, "word")
	case k < 48:
		return rapid.SampledFrom(Spaces).Draw(t, "space")
	case k < 62:
		return rapid.SampledFrom(Puncts).Draw(t, "punct")
	case k < 68:
		return Contraction(t)
	case k < 76:
		if o.NoTerms {
			return asciiWord.Draw(t, "ascii")
		}
		return Term(t)
	case k < 81:
		return asciiWord.Draw(t, "ascii")
	case k < 85:
		return rapid.SampledFrom([]string{"@", "#", "@", "#", "_", "$"}).Draw(t, "sigil") + alnumWord.Draw(t, "alnum")
	case k < 90:
		return rapid.SampledFrom(Oddities).Draw(t, "odd")
	case k < 96:
		return string(rapid.Rune().Draw(t, "rune"))
	case k <= 100:
		if o.Invalid {
			return rapid.SampledFrom(invalid).Draw(t, "invalid")
		}
		return rapid.String().Draw(t, "string")
	}
	return rapid.SampledFrom(o.Extra).Draw(t, "extra")
}

// Text draws a text of fragments, usually but not always separated by spaces.
func Text(t *rapid.T, o Opt) string {
	if o.Max == 0 {
		o.Max = 12
	}
	n := rapid.IntRange(o.Min, o.Max).Draw(t, "n")
	spaced := rapid.IntRange(0, 2).Draw(t, "spaced") > 0
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 && spaced {
			b.WriteByte(' ')
		}
		b.WriteString(Fragment(t, o))
	}
	return b.String()
}

// Pack draws a text of at least size bytes by repeating drawn fragments, so that long texts are cheap to draw and shrink.
func Pack(t *rapid.T, o Opt, size int) string {
	unit := Text(t, o)
	if unit == "" {
		unit = "x "
	}
	return strings.Repeat(unit, size/len(unit)+1)
}

// Joined draws a text from the given pieces, concatenated.
func Joined(t *rapid.T, pieces []string, max int) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, max).Draw(t, "pieces"), "")
}

var htmlPieces = []string{
	"<p>", "</p>", "<br>", "<br/>", "<BR />", "<div class=\"a b\">", "<DIV ID='x'>", "</div>", "</DIV >", "<a href=\"http://x.y/?a=1&amp;b=2\" title='it\\'s'>", "</a>",
	"<img src=x alt=\"a > b\">", "<input disabled>", "<span\n data-x = 'y'\t>", "</span>",
	"<!-- a comment -->", "<!---->", "<!-- <p>not a tag</p> -->", "<!doctype html>", "<!DOCTYPE HTML PUBLIC \"-//W3C\">", "<?xml version=\"1.0\"?>", "<![CDATA[x < y]]>", "</>", "<>", "</ x>", "< p>", "<", ">", "a<b", "1 < 2", "&", "&amp;", "&lt;p&gt;", "&#233;", "&eacute;", "&notit;", "&bogus;", "&#0;",
	"<script>var a = \"<p>\" + 1;</script>", "<script type=\"text/javascript\">\nif (a < b && c) { don't(); }\n</script>", "<SCRIPT>x</SCRIPT>", "<script></script>", "<script>", "</script>", "<script><!-- </script -->", "<script> </script>", "<script src=\"x.js\"></script>",
	"<style>p > a { color: red }</style>", "<style>", "</style>", "<STYLE TYPE='text/css'>@media x { }</style>", "<style></style>",
	"<textarea>a <b> c</textarea>", "<title>Ruby &amp; Rails</title>", "<noscript><p>x</p></noscript>", "<iframe><p></iframe>", "<xmp><b></xmp>", "<svg><circle r=1 /></svg>", "<math>", "<plaintext>",
	"<td>&nbsp;</td>", "<b>&amp;</b>", "<i>&#160;</i>", "<p>&eacute;</p>", "<li>&lt;&gt;</li>", "<p> </p>", "<p>\n</p>", "<template>a b, c</template>",
	"<p", "<!--", "<a href=\"", "</", "<!", "<scr", "\x00", "\r\n", "\r",
}

// HTML draws HTML, well-formed or not.
func HTML(t *rapid.T, o Opt, max int) string {
	n := rapid.IntRange(0, max).Draw(t, "n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "html") {
		case 0, 1, 2:
			b.WriteString(rapid.SampledFrom(htmlPieces).Draw(t, "piece"))
		case 3:
			b.WriteString(element(t, o, 2))
		default:
			b.WriteString(Fragment(t, o))
		}
	}
	return b.String()
}

// TagNames are the elements of HTML, also obsolete ones, some of SVG and MathML, and names that are like others.
var TagNames = strings.Fields(`a abbr acronym address applet area article aside audio b base basefont bdi bdo bgsound big blink blockquote body br button
	canvas caption center cite code col colgroup command content data datalist dd del details dfn dialog dir div dl dt em embed fieldset figcaption figure
	font footer form frame frameset h1 h2 h6 head header hgroup hr html i iframe image img input ins isindex kbd keygen label legend li link listing main
	map mark marquee menu menuitem meta meter nav nobr noembed noframes noscript object ol optgroup option output p param picture plaintext pre progress
	q rb rp rt rtc ruby s samp script search section select shadow slot small source spacer span strike strong style sub summary sup table tbody td
	template textarea tfoot th thead time title tr track tt u ul var video wbr xmp
	svg g path foreignObject desc text tspan linearGradient math mi mo annotation-xml mtext x:y scripts styles s-cript scriptx TEXTAREA Title XMP`)

func element(t *rapid.T, o Opt, depth int) string {
	names := []string{"p", "b", "li", "H1", "td", "section", "script", "style", "Script", "custom-tag"}
	if rapid.Bool().Draw(t, "any") {
		names = TagNames
	}
	name := rapid.SampledFrom(names).Draw(t, "tag")
	var b strings.Builder
	b.WriteString("<" + name)
	attrs := rapid.IntRange(0, 2).Draw(t, "attrs")
	if rapid.IntRange(0, 9).Draw(t, "more") == 0 {
		attrs += rapid.SampledFrom([]int{3, 9, 17, 40}).Draw(t, "many")
	}
	for i := attrs; i > 0; i-- {
		b.WriteString(rapid.SampledFrom([]string{" a=1", " class=\"x y\"", " d='<'", " e", "\nf=\"&quot;\"", " HREF=x/y"}).Draw(t, "attr"))
	}
	b.WriteString(">")
	if depth > 0 && rapid.Bool().Draw(t, "nested") {
		b.WriteString(element(t, o, depth-1))
	}
	for i := rapid.IntRange(0, 4).Draw(t, "children"); i > 0; i-- {
		b.WriteString(Fragment(t, o))
	}
	b.WriteString("</" + name + ">")
	return b.String()
}

// Long repeats a string, up to a size of 200 to 60,000 bytes.
func Long(t *rapid.T, s string) string {
	if s == "" {
		return s
	}
	size := rapid.SampledFrom([]int{200, 300, 1100, 4200, 20000, 60000}).Draw(t, "size")
	if size < len(s) {
		return s
	}
	return strings.Repeat(s, size/len(s))
}
