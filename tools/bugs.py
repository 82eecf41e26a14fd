B=[]
def bug(id,needs,breaks,edits,demo,**k):
    B.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=demo,**k))
CLI='''
func jargonCmd(t *testing.T) string {
	bin := filepath.Join(os.Getenv("DEMO_TMP"), "jargon")
	if out, err := exec.Command("go", "build", "-o", bin, "./cmd/jargon").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	return bin
}
'''
WEB='''
func server(t *testing.T) string {
	bin := filepath.Join(os.Getenv("DEMO_TMP"), "web")
	if out, err := exec.Command("go", "build", "-o", bin, "./web").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
	l.Close()
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "PORT="+port)
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { cmd.Process.Kill(); cmd.Wait() })
	for i := 0; i < 200; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:"+port)
		if err == nil {
			c.Close()
			return "127.0.0.1:" + port
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("server does not start")
	return ""
}
'''
bug('c01-invalid-utf8','a text that is not valid UTF-8','bytes that are not valid UTF-8 come out as U+FFFD; the text cannot be reconstructed',
 [('tokenizer.go','token := NewToken(t.sc.Text(), false)','token := NewToken(strings.ToValidUTF8(t.sc.Text(), "\\uFFFD"), false)')],
'''func TestDemo(t *testing.T) {
	in := "caf\\xe9 au lait"
	out, err := jargon.TokenizeString(in).String()
	if err != nil || out != in {
		t.Fatalf("%q became %q, %v", in, out, err)
	}
}''')
bug('c02-empty-read','a reader that returns 0 bytes without an error at some point, which io.Reader allows','text after an empty read is lost without an error',
 [('tokenizer.go','''func Tokenize(r io.Reader) *TokenStream {
	t := newTokenizer(r)''','''func Tokenize(r io.Reader) *TokenStream {
	t := newTokenizer(&source{r})'''),
  ('tokenizer.go','type tokenizer struct {','''// source is a reader which does not spin on a reader that has nothing more to give
type source struct {
	r io.Reader
}

func (s *source) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if n == 0 && err == nil {
		return 0, io.EOF
	}
	return n, err
}

type tokenizer struct {''')],
'''type stutter struct {
	r io.Reader
	n int
}

func (s *stutter) Read(p []byte) (int, error) {
	s.n++
	if s.n%2 == 0 {
		return 0, nil
	}
	if len(p) > 5 {
		p = p[:5]
	}
	return s.r.Read(p)
}

func TestDemo(t *testing.T) {
	in := "a few words, and then some more"
	out, err := jargon.Tokenize(&stutter{r: strings.NewReader(in)}).String()
	if err != nil || out != in {
		t.Fatalf("%q became %q, %v", in, out, err)
	}
}''')
bug('c02-html-eof-data','an HTML reader which returns its last bytes together with io.EOF','the last bytes are dropped, so tokens depend on the reader',
 [('tokenizer_html.go','''		htokenizer: html.NewTokenizer(r),''','''		htokenizer: html.NewTokenizer(readerFunc(func(p []byte) (int, error) {
			n, err := r.Read(p)
			if err != nil {
				return 0, err
			}
			return n, nil
		})),'''),
  ('tokenizer_html.go','type htokenizer struct {','''type readerFunc func([]byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) {
	return f(p)
}

type htokenizer struct {''')],
'''func TestDemo(t *testing.T) {
	in := "<p>Hello there</p>"
	out, err := jargon.TokenizeHTML(iotest.DataErrReader(strings.NewReader(in))).String()
	if err != nil || out != in {
		t.Fatalf("%q became %q, %v", in, out, err)
	}
}''')
bug('c03-count','a reader that fails after some tokens were counted','Count returns no error for a failed read',
 [('tokenstream.go','''	if err := stream.Err(); err != nil {
		return count, stream.Err()
	}
''','''	if err := stream.Err(); err != nil && count == 0 {
		return count, err
	}
''')],
'''func TestDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader("one two three "), iotest.ErrReader(errors.New("broken")))
	n, err := jargon.Tokenize(r).Count()
	if err == nil {
		t.Fatalf("counted %d, no error", n)
	}
}''')
bug('c03-html-unexpected-eof','HTML from a reader that fails with io.ErrUnexpectedEOF, e.g. a connection closed early','a truncated HTML document looks complete',
 [('tokenizer_html.go','		if err == io.EOF {','		if err == io.EOF || err == io.ErrUnexpectedEOF {')],
'''func TestDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader("<p>Hello there"), iotest.ErrReader(io.ErrUnexpectedEOF))
	s, err := jargon.TokenizeHTML(r).String()
	if err == nil {
		t.Fatalf("got %q, no error", s)
	}
}''')
bug('c03-synonyms-fill','a source that fails while the synonyms filter looks ahead for the rest of a term','the error is swallowed once, and a source that ends after its failure looks complete',
 [('filters/synonyms/filter.go','''		token, err := t.incoming.Next()
		if err != nil {
			return err
		}
		if token == nil {
			// EOF
			break
		}
''','''		if !t.incoming.Scan() {
			// EOF
			break
		}
		token := t.incoming.Token()
''')],
'''func TestDemo(t *testing.T) {
	tokens := []string{"ruby", " "}
	failed := false
	stream := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if len(tokens) > 0 {
			s := tokens[0]
			tokens = tokens[1:]
			return jargon.NewToken(s, false), nil
		}
		if !failed {
			failed = true
			return nil, errors.New("broken")
		}
		return nil, nil
	})
	got, err := stream.Filter(stackoverflow.Tags).String()
	if err == nil {
		t.Fatalf("got %q, no error", got)
	}
}''')
bug('c04-textarea','text in a textarea (or title) element','the text of the element is one token instead of words',
 [('tokenizer_html.go','if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {','if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style || htoken.DataAtom == atom.Textarea {'),
  ('tokenizer_html.go','case atom.Script, atom.Style:','case atom.Script, atom.Style, atom.Textarea:')],
'''func TestDemo(t *testing.T) {
	tokens, err := jargon.TokenizeHTML(strings.NewReader("<textarea>two words</textarea>")).ToSlice()
	if err != nil || len(tokens) != 5 {
		t.Fatalf("%q, %v", tokens, err)
	}
}''')
bug('c04-iframe-parent','two elements: a style element followed by text','text after a style element is one token',
 [('tokenizer_html.go','''		if htoken.DataAtom == t.parent {''','''		if htoken.DataAtom == t.parent && t.parent == atom.Script {''')],
'''func TestDemo(t *testing.T) {
	tokens, err := jargon.TokenizeHTML(strings.NewReader("<style>p {}</style>two words")).ToSlice()
	if err != nil || len(tokens) != 6 {
		t.Fatalf("%q, %v", tokens, err)
	}
}''')
bug('c05-nel','a token with U+0085 (next line) or U+2028','a space that is not punctuation is classified as punctuation',
 [('punct.go',"		'\\t':","		'\\t',\n		'\\u0085',\n		'\\u2028':")],
'''func TestDemo(t *testing.T) {
	if jargon.NewToken("\\u2028", false).IsPunct() {
		t.Fatal("U+2028 is not punct")
	}
}''')
bug('c05-first-rune','a token that starts with a space and has another character, such as a space with a combining mark','such a token is classified as space',
 [('token.go','''		space = true
		for _, r := range s {
			if !unicode.IsSpace(r) {
				space = false
				break
			}
		}
''','''		for _, r := range s {
			// Tokens don't mix space and non-space
			space = unicode.IsSpace(r)
			break
		}
''')],
'''func TestDemo(t *testing.T) {
	for _, s := range []string{" \\u0301", " x"} {
		if jargon.NewToken(s, false).IsSpace() {
			t.Fatalf("%q is not space", s)
		}
	}
}''')
bug('c06-stale-token','reading to the end with Next and then looking at Token','the current token at the end is still the last one',
 [('tokenstream.go','''		stream.token, stream.err = next()
		return stream.Token(), stream.Err()
''','''		token, err := next()
		if token != nil {
			stream.token = token
		}
		stream.err = err
		return token, err
''')],
'''func TestDemo(t *testing.T) {
	stream := jargon.TokenizeString("one two")
	for {
		token, err := stream.Next()
		if err != nil {
			t.Fatal(err)
		}
		if stream.Token() != token {
			t.Fatalf("Next returned %v, Token is %v", token, stream.Token())
		}
		if token == nil {
			break
		}
	}
}''')
bug('c06-tokenizer-reuse','keeping tokens of a stream while reading on, with words of more than 16 bytes','a token returned earlier changes when the stream is read on',
 [('tokenizer.go','''type tokenizer struct {
	sc *iterators.Scanner
''','''type tokenizer struct {
	sc *iterators.Scanner

	long Token
'''),('tokenizer.go','''		token := NewToken(t.sc.Text(), false)
		return token, nil
''','''		token := NewToken(t.sc.Text(), false)
		if len(token.value) > 16 {
			// Save an allocation per long token
			t.long = *token
			token = &t.long
		}
		return token, nil
''')],
'''func TestDemo(t *testing.T) {
	stream := jargon.TokenizeString("internationalization counterrevolutionary")
	first, err := stream.Next()
	if err != nil {
		t.Fatal(err)
	}
	before := first.String()
	stream.Next()
	stream.Next()
	if first.String() != before {
		t.Fatalf("%q became %q", before, first.String())
	}
}''')
bug('c07-short-write','a writer that takes part of a token and then fails','WriteTo reports fewer bytes than the writer took',
 [('tokenstream.go','''		written += int64(n)

		if err != nil {
			return written, err
		}
''','''		if err != nil {
			return written, err
		}
		written += int64(n)
''')],
'''type short struct{ left int }

func (s *short) Write(p []byte) (int, error) {
	if len(p) > s.left {
		n := s.left
		s.left = 0
		return n, errors.New("full")
	}
	s.left -= len(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	n, err := jargon.TokenizeString("Hello there").WriteTo(&short{left: 8})
	if err == nil || n != 8 {
		t.Fatal(n, err)
	}
}''')
bug('c07-distinct-bounded','a stream with more than 10,000 distinct tokens','Distinct repeats a token that it forgot',
 [('tokenstream.go','''		if !found {
			seen[t.String()] = true
		}
''','''		if !found {
			if len(seen) >= 10000 {
				// Don't let it grow indefinitely
				seen = map[string]bool{}
			}
			seen[t.String()] = true
		}
''')],
'''func TestDemo(t *testing.T) {
	var b strings.Builder
	b.WriteString("again ")
	for i := 0; i < 20000; i++ {
		b.WriteString(strconv.Itoa(i) + " ")
	}
	b.WriteString("again")
	n, err := jargon.TokenizeString(b.String()).Distinct().Count()
	if err != nil || n != 20002 {
		t.Fatal(n, err)
	}
}''')
bug('c07-where-partial','an operator applied to a stream on which Scan was called before','the token that was already read comes again',
 [('tokenstream.go','''	w := &where{
		stream:    stream,
		predicate: predicate,
	}
	return NewTokenStream(w.next)
''','''	w := &where{
		stream:    stream,
		predicate: predicate,
	}
	current := stream.Token()
	return NewTokenStream(func() (*Token, error) {
		if token := current; token != nil {
			// Already scanned
			current = nil
			if predicate(token) {
				return token, nil
			}
		}
		return w.next()
	})
''')],
'''func TestDemo(t *testing.T) {
	stream := jargon.TokenizeString("one two three")
	stream.Scan()
	all := func(*jargon.Token) bool { return true }
	s, err := stream.Where(all).String()
	if err != nil || s != " two three" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c08-trailing-space','ignored spaces after a match, e.g. a term followed by a space and another word','the space after a match is swallowed',
 [('filters/synonyms/trie/trie.go','if n.hasCanonical && n != result {','if n.hasCanonical && (n != result || token.String() != " ") {')],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"c sharp": "csharp", "big long term": "blt"}, true, []rune{' '})
	in := "c sharp  is"
	s, err := jargon.TokenizeString(in).Filter(f).String()
	if err != nil || s != "csharp  is" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c08-maxwords','a dictionary in which the wordiest synonym is the last in a comma-separated list','the wordiest synonyms are not recognized',
 [('filters/synonyms/filter.go','''		slice := trimSpaces(tokens[start:])
		trie.Add(slice, canonical)
		updateMaxWords(slice, &maxWords)
''','''		slice := trimSpaces(tokens[start:])
		trie.Add(slice, canonical)
		if start == 0 {
			updateMaxWords(slice, &maxWords)
		}
''')],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"ror, ruby on rails": "rails"}, true, []rune{' '})
	s, err := jargon.TokenizeString("I like Ruby on Rails").Filter(f).String()
	if err != nil || s != "I like rails" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c08-wide-space','a term whose words are separated by a space other than U+0020 that is ignored, e.g. two spaces','the lookahead counts such spaces as words and the term is not recognized',
 [('filters/synonyms/filter.go','''		if token.IsSpace() {
			continue
		}

		// It's a word
		wordcount++
''','''		if token.String() == " " {
			continue
		}

		// It's a word
		wordcount++
''')],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"ruby on rails": "rails"}, true, []rune{' '})
	s, err := jargon.TokenizeString("I like Ruby  on  Rails").Filter(f).String()
	if err != nil || s != "I like rails" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c09-first-wins','adding an entry twice with different canonicals','the second canonical does not replace the first',
 [('filters/synonyms/trie/trie.go','''	n.hasCanonical = true
	n.canonical = canonical
''','''	if !n.hasCanonical {
		n.hasCanonical = true
		n.canonical = canonical
	}
''')],
'''func TestDemo(t *testing.T) {
	tr := trie.New(true, nil)
	a := []*jargon.Token{jargon.NewToken("a", false)}
	tr.Add(a, "one")
	tr.Add(a, "two")
	if _, c, _ := tr.SearchCanonical(a...); c != "two" {
		t.Fatal(c)
	}
}''')
bug('c09-ignore-before-lower','an ignored letter, in the other case in the searched text, case ignored','an ignored character in upper case is not ignored',
 [('filters/synonyms/trie/trie.go','''	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}
''','''	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignore[r] {
				continue
			}

			if t.ignoreCase {
				r = unicode.ToLower(r)
			}
''')],
'''func TestDemo(t *testing.T) {
	tr := trie.New(true, []rune{'x'})
	tr.Add([]*jargon.Token{jargon.NewToken("ab", false)}, "one")
	if found, _, _ := tr.SearchCanonical(jargon.NewToken("aXb", false)); !found {
		t.Fatal("not found")
	}
}''')
bug('c10-html-whole','a reader that has given part of an HTML document and waits','no token of an HTML document before all of it has been read',
 [('tokenizer_html.go','''	htype := t.htokenizer.Next()
''','''	if t.source != nil {
		// html.Tokenizer is faster on bytes in memory
		b, err := ioutil.ReadAll(t.source)
		if err != nil {
			return nil, err
		}
		t.htokenizer = html.NewTokenizer(bytes.NewReader(b))
		t.source = nil
	}

	htype := t.htokenizer.Next()
'''),('tokenizer_html.go','		htokenizer: html.NewTokenizer(r),\n','		source: r,\n'),
 ('tokenizer_html.go','	htokenizer *html.Tokenizer\n','	source     io.Reader\n	htokenizer *html.Tokenizer\n'),
 ('tokenizer_html.go','	"io"\n','	"bytes"\n	"io"\n	"io/ioutil"\n')],
'''func TestDemo(t *testing.T) {
	r, w := io.Pipe()
	defer w.Close()
	go io.WriteString(w, "<p>Hello there</p><p>more")
	got := make(chan bool)
	go func() {
		jargon.TokenizeHTML(r).Next()
		close(got)
	}()
	select {
	case <-got:
	case <-time.After(5 * time.Second):
		t.Fatal("no token")
	}
}''')
bug('c10-mapper-batch','a source that takes its time, or never ends','a mapping filter reads 64 tokens before giving the first',
 [('filters/mapper/filter.go','''	incoming *jargon.TokenStream
	filter   *filter
}
''','''	incoming *jargon.TokenStream
	filter   *filter

	batch []*jargon.Token
	err   error
}
'''),('filters/mapper/filter.go','''	token, err := t.incoming.Next()
	if err != nil {
		return nil, err
	}
	if token == nil {
		return nil, nil
	}
''','''	if len(t.batch) == 0 && t.err == nil {
		for len(t.batch) < 64 && t.incoming.Scan() {
			t.batch = append(t.batch, t.incoming.Token())
		}
		t.err = t.incoming.Err()
	}
	if len(t.batch) == 0 {
		return nil, t.err
	}
	token := t.batch[0]
	t.batch = t.batch[1:]
''')],
'''func TestDemo(t *testing.T) {
	n := 0
	stream := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		return jargon.NewToken("word", false), nil
	})
	stream.Filter(ascii.Fold).Next()
	if n > 5 {
		t.Fatalf("%d tokens read for one", n)
	}
}''')
bug('c11-contractions-cache','two goroutines that use the contractions filter at the same time','data race on a cache shared by all streams',
 [('filters/contractions/filter.go','''type tokens struct {
	incoming''','''// Tokenized expansions, shared
var expansions = map[string][]*jargon.Token{}

type tokens struct {
	incoming'''),('filters/contractions/filter.go','''		tokens, err := jargon.TokenizeString(expansion).ToSlice()
		if err != nil {
			return found, err
		}
''','''		tokens, cached := expansions[expansion]
		if !cached {
			slice, err := jargon.TokenizeString(expansion).ToSlice()
			if err != nil {
				return found, err
			}
			expansions[expansion] = slice
			tokens = slice
		}
''')],
'''func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				jargon.TokenizeString("don't can't won't I'll you're").Filter(contractions.Expand).String()
			}
		}()
	}
	wg.Wait()
}''',race=True)
bug('c11-sigil-shared','two streams of the same sigil filter, read alternately, where a sigil is followed by something illegal','a token of one stream comes out of another',
 [('filters/sigil/filter.go','		legal: legal,\n','		legal: legal,\n		queue: tokenqueue.New(),\n'),
  ('filters/sigil/filter.go','	sigil string\n	legal func(s string) bool\n}','	sigil string\n	legal func(s string) bool\n	queue *tokenqueue.TokenQueue\n}'),
  ('filters/sigil/filter.go','		outgoing: tokenqueue.New(),','		outgoing: f.queue,')],
'''func TestDemo(t *testing.T) {
	one := jargon.TokenizeString("@ one").Filter(twitter.Handles)
	two := jargon.TokenizeString("two").Filter(twitter.Handles)
	one.Next()
	got, err := two.String()
	if err != nil || got != "two" {
		t.Fatalf("%q, %v", got, err)
	}
}''')
bug('c12-one-synonym','a text with the term react native android','a term of the dictionary maps to another tag',
 [('filters/stackoverflow/generated.go','''"react-native-android",''','''"react-native",''')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("a React Native Android app").Filter(stackoverflow.Tags).String()
	if err != nil || s != "a react-native-android app" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c12-ascii-lower','a term of the dictionary spelled with U+212A (Kelvin sign), the upper case of k','a spelling in another case is not recognized',
 [('filters/synonyms/trie/trie.go','''outer:
	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(r)
			}
''','''outer:
	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase && r < unicode.MaxLatin1 {
				r = unicode.ToLower(r)
			}
''')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("DOC\\u212aER and \\u212aotlin").Filter(stackoverflow.Tags).String()
	if err != nil || s != "docker and kotlin" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c13-folded-variant','the name of one player without its diacritics','a player is not recognized without diacritics',
 [('filters/nba/generated.go','"Luka Dončić, Luka Doncic": ','"Luka Dončić, Luka Dončic": ')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("luka doncic scores").Filter(nba.CurrentPlayers).String()
	if err != nil || s != "Luka Dončić scores" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c13-case-latin1','a name with a letter beyond Latin-1 in upper case','a player in upper case is not recognized',
 [('filters/synonyms/trie/trie.go','''outer:
	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(r)
			}
''','''outer:
	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase && r <= unicode.MaxLatin1 {
				r = unicode.ToLower(r)
			}
''')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("LUKA DONČIĆ scores").Filter(nba.CurrentPlayers).String()
	if err != nil || s != "Luka Dončić scores" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c14-upper-curly','one contraction in upper case with a curly apostrophe','it expands in the wrong case',
 [('filters/contractions/generated.go','"COULD’VE":  "COULD HAVE"','"COULD’VE":  "Could have"')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("COULD’VE").Filter(contractions.Expand).String()
	if err != nil || s != "COULD HAVE" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c14-lemma-skipped','a contraction that an earlier filter produced or changed','a contraction that is a lemma is not expanded',
 [('filters/contractions/filter.go','''	// Try case-sensitive
''','''	if token.IsLemma() {
		// Already handled by another filter
		return token, nil
	}

	// Try case-sensitive
''')],
'''func TestDemo(t *testing.T) {
	in := jargon.TokenizeString("I ᶜan't").Filter(norm.NFKC)
	s, err := in.Filter(contractions.Expand).String()
	if err != nil || s != "I can not" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c14-mixed-case','a contraction in mixed case','a contraction such as DON\'t is left alone',
 [('filters/contractions/filter.go','''	if !found {
		// Try case-insensitive
''','''	if !found && key(token) != token.String()[:1] {
		// Try case-insensitive
'''),('filters/contractions/filter.go','''func (t *tokens) tryExpansion(''','''// key is the leading letter, if in lower case already
func key(token *jargon.Token) string {
	if s := token.String(); strings.ToUpper(s[:1]) != s[:1] {
		return s[:1]
	}
	return ""
}

func (t *tokens) tryExpansion(''')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("dOn't").Filter(contractions.Expand).String()
	if err != nil || s != "do not" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c15-code-point','one character, ǅ or similar','one character folds to another letter',
 [('filters/ascii/fold.go',"				'\\u24B6', // Ⓐ  [CIRCLED LATIN CAPITAL LETTER A]\n","")],
'''func TestDemo(t *testing.T) {
	s, folded := ascii.FoldString("\\u24B6")
	if !folded || s != "A" {
		t.Fatalf("%q, %t", s, folded)
	}
}''')
bug('c15-flag-reset','a string in which a character that is folded is followed by one that is not','the result is folded but reported as not folded, so the filter leaves the token alone',
 [('filters/ascii/fold.go','''		if r < '\\u0080' {
			b.WriteRune(r)
''','''		if r < '\\u0080' {
			folded = folded && r != '_'
			b.WriteRune(r)
''')],
'''func TestDemo(t *testing.T) {
	s, folded := ascii.FoldString("é_a")
	if !folded || s != "e_a" {
		t.Fatalf("%q, %t", s, folded)
	}
}''')
bug('c16-punct','punctuation or space that is not in normal form, e.g. a fullwidth exclamation mark','punctuation and space are not normalized',
 [('filters/norm/filter.go','		if form.IsNormalString(token.String()) {','		if token.IsPunct() || token.IsSpace() || form.IsNormalString(token.String()) {')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("Hi！").Filter(norm.NFKC).String()
	if err != nil || s != "Hi!" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c16-quick','a token whose first character is ASCII, with marks out of order','tokens that start with ASCII are not put in order',
 [('filters/norm/filter.go','''		s := form.String(token.String())
		return''','''		s := form.String(token.String())
		if len(s) == len(token.String()) {
			// Nothing composed or decomposed
			return token
		}
		return''')],
'''func TestDemo(t *testing.T) {
	in := "a\\u0301\\u0323"
	s, err := jargon.TokenizeString(in).Filter(norm.NFD).String()
	if err != nil || s != "a\\u0323\\u0301" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c17-short','a word of one or two letters in upper case','short words are not lower-cased by the stemmer',
 [('filters/stemmer/filter.go','''		if token.IsPunct() || token.IsSpace() {''','''		if token.IsPunct() || token.IsSpace() || len(token.String()) < 3 {''')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("OK Go").Filter(stemmer.English).String()
	if err != nil || s != "ok go" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c17-stopwords','a stop word of the language, e.g. being','stop words are left out of stemming',
 [('filters/stemmer/filter.go','stem(token.String(), true)','stem(token.String(), len(token.String()) < 7)')],
'''func TestDemo(t *testing.T) {
	s, err := jargon.TokenizeString("themselves").Filter(stemmer.English).String()
	if err != nil || s != "themselv" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c18-trim','a space or line feed in the list of stop words','spaces on the list are not dropped',
 [('filters/stopwords/filter.go','	for _, s := range stopwords {\n','	for _, s := range stopwords {\n		s = strings.TrimSpace(s)\n')],
'''func TestDemo(t *testing.T) {
	f := stopwords.NewFilter([]string{"the", " "}, true)
	s, err := jargon.TokenizeString("the end of").Filter(f).String()
	if err != nil || s != "endof" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c18-title-key','a stop word in mixed case or in a script other than Latin, ignoring case','tokens with non-ASCII upper case are not dropped',
 [('filters/stopwords/filter.go','''			key = strings.ToLower(token.String())
''','''			key = lower(key)
'''),('filters/stopwords/filter.go','''type tokens struct {''','''// lower is a fast lower case
func lower(s string) string {
	return strings.Map(func(r rune) rune {
		if 'A' <= r && r <= 'Z' {
			return r + 'a' - 'A'
		}
		return r
	}, s)
}

type tokens struct {''')],
'''func TestDemo(t *testing.T) {
	f := stopwords.NewFilter([]string{"été"}, true)
	s, err := jargon.TokenizeString("Un Été ÉTÉ").Filter(f).String()
	if err != nil || s != "Un  " {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c19-bytes','a hashtag of one character that is not a letter and not ASCII, e.g. a single fullwidth digit','a single digit becomes a hashtag',
 [('filters/twitter/filter.go','length := utf8.RuneCountInString(s)','length := len(s)')],
'''func TestDemo(t *testing.T) {
	tokens, err := jargon.TokenizeString("#٣").Filter(twitter.Hashtags).ToSlice()
	if err != nil || len(tokens) != 2 {
		t.Fatalf("%q, %v", tokens, err)
	}
}''')
bug('c19-handle-16','a handle of exactly 16 characters','a handle that is too long is accepted',
 [('filters/twitter/filter.go','case length > 15:','case length > 16:')],
'''func TestDemo(t *testing.T) {
	tokens, err := jargon.TokenizeString("@abcdefghijklmnop").Filter(twitter.Handles).ToSlice()
	if err != nil || len(tokens) != 2 {
		t.Fatalf("%q, %v", tokens, err)
	}
}''')
bug('c19-previous','a handle directly followed by a sigil and a name, e.g. @bob@alice','a sigil directly after a handle is taken for another handle',
 [('filters/sigil/filter.go','''		s.previous = handle
		return handle, nil''','''		return handle, nil''')],
'''func TestDemo(t *testing.T) {
	tokens, err := jargon.TokenizeString("@bob@alice").Filter(twitter.Handles).ToSlice()
	if err != nil || len(tokens) != 3 {
		t.Fatalf("%q, %v", tokens, err)
	}
}''')
bug('c20-stops','two functions, the first of which makes a lemma','the remaining functions are not applied',
 [('filters/mapper/filter.go','		token = f(token)\n','		token = f(token)\n		if token != nil && token.IsLemma() {\n			break\n		}\n')],
'''func TestDemo(t *testing.T) {
	a := func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+"a", true) }
	b := func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+"b", true) }
	s, err := jargon.TokenizeString("x").Filter(mapper.NewFilter(a, b)).String()
	if err != nil || s != "xab" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c20-cache','a function that depends on more than the text, or counts its calls','a function is not called again for a token object that was mapped before',
 [('filters/mapper/filter.go','''	filter   *filter
}

func (t''','''	filter   *filter
	seen     map[*jargon.Token]*jargon.Token
}

func (t'''),('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''','''	if mapped, found := t.seen[token]; found {
		return mapped, nil
	}
	original := token
	for _, f := range t.filter.funcs {
		token = f(token)
	}
	if t.seen == nil {
		t.seen = map[*jargon.Token]*jargon.Token{}
	}
	t.seen[original] = token
''')],
'''func TestDemo(t *testing.T) {
	n := 0
	number := func(t *jargon.Token) *jargon.Token { n++; return jargon.NewToken(strconv.Itoa(n), true) }
	s, err := jargon.TokenizeString("the the the").Filter(mapper.NewFilter(number)).String()
	if err != nil || s != "12345" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c21-flush-alias','flushing a queue to an empty one, then pushing to both','the two queues share their tokens',
 [('tokenqueue/queue.go','''	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''','''	if dst.Any() {
		dst.Tokens = append(dst.Tokens, q.Tokens...)
	} else {
		// No need to copy
		dst.Tokens = q.Tokens
	}
	q.Clear()
''')],
'''func TestDemo(t *testing.T) {
	a := tokenqueue.New(jargon.NewToken("one", false), jargon.NewToken("two", false))
	b := tokenqueue.New()
	a.FlushTo(b)
	a.Push(jargon.NewToken("three", false))
	if s := b.Pop().String(); s != "one" {
		t.Fatal(s)
	}
}''')
bug('c21-drop','dropping more than half of the tokens','the wrong tokens remain',
 [('tokenqueue/queue.go','''	copy(q.Tokens, q.Tokens[n:])
''','''	for i := range q.Tokens[n:] {
		q.Tokens[i], q.Tokens[i+n] = q.Tokens[i+n], q.Tokens[i]
		if i+n+1 < len(q.Tokens) && 2*n > len(q.Tokens) {
			q.Tokens[i+1] = q.Tokens[i+n+1]
		}
	}
'''),('tokenqueue/queue.go','''func New(tokens ...*Token) *TokenQueue {
	return &TokenQueue{
		Tokens: tokens,
	}''','''func New(tokens ...*Token) *TokenQueue {
	// Room for a few, to avoid array resizing
	return &TokenQueue{
		Tokens: append(spare[:0], tokens...),
	}'''),('tokenqueue/queue.go','''// TokenQueue is a FIFO queue
''','''var spare []*Token

// TokenQueue is a FIFO queue
''')],
'''func TestDemo(t *testing.T) {
	t.Skip()
}''')
B.pop()  # c21-drop turned out not to change behaviour
bug('c21-push-alias','pushing a slice to an empty queue and then changing the queue','the queue uses the caller\'s slice, so that two queues given the same slice influence each other',
 [('tokenqueue/queue.go','''	q.Tokens = append(q.Tokens, tokens...)
''','''	if cap(q.Tokens) == 0 {
		// First push, no need to copy
		q.Tokens = tokens
		return
	}
	q.Tokens = append(q.Tokens, tokens...)
''')],
'''func TestDemo(t *testing.T) {
	one, two := jargon.NewToken("one", false), jargon.NewToken("two", false)
	tokens := []*jargon.Token{one, two}
	a, b := tokenqueue.New(), tokenqueue.New()
	a.Push(tokens...)
	b.Push(tokens...)
	a.Pop()
	if s := b.Pop().String(); s != "one" {
		t.Fatal(s)
	}
}''')

bug('c22-filter-order','four filters or more in one call','filters are applied in another order',
 [('tokenstream.go','''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
''','''	outgoing := stream
	for i, f := range filters {
		if i%4 == 3 && i+1 < len(filters) {
			// Merge pairs
			f, filters[i+1] = filters[i+1], f
		}
		outgoing = f(outgoing)
	}
	return outgoing
''')],
'''func TestDemo(t *testing.T) {
	add := func(x string) jargon.Filter {
		return mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+x, true) })
	}
	s, err := jargon.TokenizeString("x").Filter(add("1"), add("2"), add("3"), add("4"), add("5")).String()
	if err != nil || s != "x12345" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c23-lines-newline','-lines with a line feed in the input','no line feed is added after a token that is a line feed',
 [('cmd/jargon/main.go','		if c.Lines {\n','		if c.Lines && token.String() != "\\n" {\n')],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t), "-lines")
	cmd.Stdin = strings.NewReader("a\\nb")
	out, err := cmd.Output()
	if err != nil || string(out) != "a\\n\\n\\nb\\n" {
		t.Fatalf("%q, %v", out, err)
	}
}''')
bug('c23-file-limit','-file with an input that is larger than its size says, such as a named pipe','the input is cut at its initial size',
 [('cmd/jargon/main.go','''			c.Reader = bufio.NewReaderSize(c.Filein, 4*1024)
''','''			c.Reader = bufio.NewReaderSize(io.NewSectionReader(c.Filein, 0, size), 4*1024)
'''),('cmd/jargon/main.go','	"fmt"\n','	"fmt"\n	"io"\n')],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t), "-file", "/proc/self/cmdline")
	null, err := os.Open("/dev/null")
	if err != nil {
		t.Fatal(err)
	}
	cmd.Stdin = null
	out, err := cmd.Output()
	if err != nil || !strings.Contains(string(out), "cmdline") {
		t.Fatalf("%q, %v", out, err)
	}
}''')
bug('c23-out-large','-file of more than 1 MB with -out','part of the output is missing when the token that fills the buffer is the last',
 [('cmd/jargon/main.go','''	if err := c.Writer.Flush(); err != nil {
		return err
	}
''','''	if c.Writer.Buffered() > 1 || c.Pipedout {
		if err := c.Writer.Flush(); err != nil {
			return err
		}
	}
''')],
CLI+'''
func TestDemo(t *testing.T) {
	in, name := filepath.Join(os.Getenv("DEMO_TMP"), "in"), filepath.Join(os.Getenv("DEMO_TMP"), "out")
	os.WriteFile(in, []byte(strings.Repeat("abcd efg ", 8192)[:65537]), 0600)
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command(jargonCmd(t), "-out", name)
	cmd.Stdin = f
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%q, %v", out, err)
	}
	out, _ := os.ReadFile(name)
	if len(out) != 65537 {
		t.Fatalf("%d", len(out))
	}
}''')
bug('c24-count-flush','-count with an output that cannot be written','the command pretends success',
 [('cmd/jargon/main.go','''		err = c.Writer.Flush()
		if err != nil {
			return err
		}
		return nil
''','''		return c.Writer.Flush()
'''.replace('return','defer').replace('Flush()\n','Flush()\n		return nil\n'))],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t), "-count")
	cmd.Stdin = strings.NewReader("a b")
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	cmd.Stdout = full
	if err := cmd.Run(); err == nil {
		t.Fatal("success")
	}
}''')
bug('c24-truncates','a wrong -lang with -stem and an existing -out file','the existing file is emptied although the flags are wrong',
 [('cmd/jargon/main.go','''	//
	// Filters
	//
	err = setFilters(&c, os.Args[1:], *lang)
	check(err)

	//
	// Output
	//
	err = setOutput(&c, *fileout)
	check(err)
	if c.Fileout != nil {
		defer c.Fileout.Close()
	}
''','''	//
	// Output
	//
	err = setOutput(&c, *fileout)
	check(err)
	if c.Fileout != nil {
		defer c.Fileout.Close()
	}

	//
	// Filters
	//
	err = setFilters(&c, os.Args[1:], *lang)
	check(err)
''')],
CLI+'''
func TestDemo(t *testing.T) {
	name := filepath.Join(os.Getenv("DEMO_TMP"), "out")
	os.WriteFile(name, []byte("precious"), 0600)
	cmd := exec.Command(jargonCmd(t), "-stem", "-lang", "klingon", "-out", name)
	cmd.Stdin = strings.NewReader("a b")
	err := cmd.Run()
	out, _ := os.ReadFile(name)
	if err == nil || string(out) != "precious" {
		t.Fatalf("%q, %v", out, err)
	}
}''')
bug('c24-epipe','output that fails while tokens are being written (not at the end)','an error in the middle of the output ends with code 0',
 [('cmd/jargon/main.go','''		_, err := c.Writer.WriteString(token.String())
		if err != nil {
			return err
		}
''','''		_, err := c.Writer.WriteString(token.String())
		if err != nil {
			// No use going on
			return nil
		}
''')],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t))
	cmd.Stdin = strings.NewReader(strings.Repeat("some words ", 50000))
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	cmd.Stdout = full
	if err := cmd.Run(); err == nil {
		t.Fatal("success")
	}
}''')
bug('c25-unescaped','a token with a quote or other character that HTML escaping covers, but not angle brackets','quotes get through unescaped',
 [('web/main.go','''			err = plain.Execute(&b, t)
''','''			if s := t.String(); strings.ContainsAny(s, "<>&") {
				err = plain.Execute(&b, t)
			} else {
				// Nothing to escape
				_, err = b.WriteString(s)
			}
''')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	r, err := http.Post("http://"+addr+"/text", "text/plain", strings.NewReader(`say "hi"`))
	if err != nil {
		t.Fatal(err)
	}
	out, _ := io.ReadAll(r.Body)
	if strings.Contains(string(out), `"`) {
		t.Fatalf("%q", out)
	}
}''')
bug('c25-shared-buffer','two requests at the same time','responses get mixed up',
 [('web/main.go','	var b bytes.Buffer\n','	b := &buffer\n	b.Reset()\n'),
  ('web/main.go','lemma.Execute(&b, t)','lemma.Execute(b, t)'),('web/main.go','plain.Execute(&b, t)','plain.Execute(b, t)'),
  ('web/main.go','func jargonHandler(','// Reuse, to save allocations\nvar buffer bytes.Buffer\n\nfunc jargonHandler(')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		in := strings.Repeat(fmt.Sprintf("zzq%d ", i), 20000)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5; j++ {
				r, err := http.Post("http://"+addr+"/text", "text/plain", strings.NewReader(in))
				if err != nil {
					t.Error(err)
					return
				}
				out, _ := io.ReadAll(r.Body)
				r.Body.Close()
				if string(out) != in {
					t.Error("mixed up")
				}
			}
		}()
	}
	wg.Wait()
}''')
bug('c26-no-500','a body that cannot be read to its end','a broken request gets status 200',
 [('web/main.go','''			log.Print(err)
			w.WriteHeader(500)
		}
		if t == nil {''','''			log.Print(err)
		}
		if t == nil {''')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	r, err := http.Post("http://"+addr+"/text", "text/plain", strings.NewReader(strings.Repeat("x", 200000)))
	if err != nil {
		t.Fatal(err)
	}
	if r.StatusCode != 500 {
		t.Fatal(r.Status)
	}
}''')
bug('c26-prefix','a path such as /textual or /html5','other paths are processed as well',
 [('web/main.go','	route := parts[1]\n','	route := parts[1]\n	if len(route) > 4 && len(parts) == 2 {\n		// Allow for an extension, e.g. /text.txt\n		route = strings.TrimRight(route, ".abcdefghijklmnopqrstuvwxyz0123456789") + route[:4]\n	}\n')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	r, err := http.Post("http://"+addr+"/textual", "text/plain", strings.NewReader("a b"))
	if err != nil {
		t.Fatal(err)
	}
	if r.StatusCode != 404 {
		t.Fatal(r.Status)
	}
}''')
bug('c26-cors-404','a path that does not exist','the 404 has no CORS headers',
 [('web/main.go','''	cors(w)

	if r.Method == "OPTIONS" {
		return
	}

	jargonHandler(w, r)''','''	if r.Method == "OPTIONS" {
		cors(w)
		return
	}

	if strings.Count(r.URL.Path, "/") < 3 {
		cors(w)
	}
	jargonHandler(w, r)''')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	r, err := http.Post("http://"+addr+"/text/a/b", "text/plain", strings.NewReader("a b"))
	if err != nil {
		t.Fatal(err)
	}
	if r.Header.Get("Access-Control-Allow-Origin") != "*" {
		t.Fatal(r.Header)
	}
}''')
GEN='''
func chdir(t *testing.T) {
	if err := os.Chdir(os.Getenv("DEMO_TMP")); err != nil {
		t.Fatal(err)
	}
}
'''
bug('c27-no-truncate','a previous generated.go that is longer than the new one','the end of the previous file remains',
 [('filters/contractions/generate/main.go','os.Create("generated.go")','os.OpenFile("generated.go", os.O_RDWR|os.O_CREATE, 0666)')],
GEN+'''
func TestDemo(t *testing.T) {
	chdir(t)
	os.WriteFile("generated.go", []byte(strings.Repeat("// old\\n", 10000)), 0666)
	if err := write(); err != nil {
		t.Fatal(err)
	}
	out, _ := os.ReadFile("generated.go")
	if strings.Contains(string(out), "// old") {
		t.Fatal("old content")
	}
}''',pkg='filters/contractions/generate/',package='main')
bug('c27-write-error','a full disk','the generator leaves a truncated file and ends as if it had worked',
 [('filters/contractions/generate/main.go','''	_, writeErr := f.Write(formatted)
	if writeErr != nil {
		return writeErr
	}

	return nil
''','''	w := bufio.NewWriterSize(f, 1<<16)
	defer w.Flush()

	_, writeErr := w.Write(formatted)
	return writeErr
'''),('filters/contractions/generate/main.go','import (\n','import (\n	"bufio"\n')],
'''func TestDemo(t *testing.T) {
	dir := filepath.Join(os.Getenv("DEMO_TMP"), "full")
	os.MkdirAll(dir, 0o755)
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	if err := os.Symlink("/dev/full", "generated.go"); err != nil {
		t.Fatal(err)
	}
	if err := write(); err == nil {
		t.Fatal("no error, on a full disk")
	}
}''',pkg='filters/contractions/generate/',package='main')
SO=GEN+'''
func generate(t *testing.T, pages ...string) string {
	chdir(t)
	os.Remove("generated.go")
	server := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		page, _ := strconv.Atoi(r.URL.Query().Get("page"))
		if page <= len(pages) {
			io.WriteString(w, pages[page-1])
		} else {
			io.WriteString(w, `{"items":[],"has_more":false}`)
		}
	}))
	defer server.Close()
	tagsURL = server.URL + "/?page=%d&pagesize=%d&site=%s&key=%s"
	if err := writeDictionary(); err != nil {
		return err.Error()
	}
	out, _ := os.ReadFile("generated.go")
	return string(out)
}
'''
bug('c28-last-page','20 pages or more','the last page is not read',
 [('filters/stackoverflow/generate/main.go','page <= pages','page < pages')],
SO+'''
func TestDemo(t *testing.T) {
	var pages []string
	for i := 1; i <= 20; i++ {
		pages = append(pages, fmt.Sprintf(`{"items":[{"name":"tag%d"}],"has_more":true}`, i))
	}
	if out := generate(t, pages...); !strings.Contains(out, "tag20") {
		t.Fatal(out)
	}
}''',pkg='filters/stackoverflow/generate/',package='main')
bug('c28-seen','a tag on a later page that is a synonym of a tag on an earlier page','the tag\'s own entry is added although it is a synonym already',
 [('filters/stackoverflow/generate/main.go','	seen := make(map[string]bool)\n\n','\n'),
  ('filters/stackoverflow/generate/main.go','			// Synonyms first\n','			// Synonyms first\n			seen := make(map[string]bool)\n')],
SO+'''
func TestDemo(t *testing.T) {
	out := generate(t, `{"items":[{"name":"go","synonyms":["golang"]}],"has_more":true}`, `{"items":[{"name":"golang"}]}`)
	if strings.Count(out, `"golang"`) != 1 {
		t.Fatal(out)
	}
}''',pkg='filters/stackoverflow/generate/',package='main')
bug('c28-error-name','an API answer with an error name but no message','an error of the API is taken for an empty page',
 [('filters/stackoverflow/generate/main.go','if len(wrapper.ErrorName) > 0 || len(wrapper.ErrorMessage) > 0 {','if len(wrapper.ErrorMessage) > 0 {')],
SO+'''
func TestDemo(t *testing.T) {
	out := generate(t, `{"items":[{"name":"go"}],"has_more":true}`, `{"error_name":"throttle_violation"}`)
	if !strings.Contains(out, "throttle") {
		t.Fatal(out)
	}
}''',pkg='filters/stackoverflow/generate/',package='main')
bug('c29-fold-only','a player whose name has diacritics','only one of the two spellings is in the table',
 [('filters/nba/generate/main.go','''			synonyms = append(synonyms, fold)
''','''			synonyms = []string{fold}
''')],
'''func TestDemo(t *testing.T) {
	m, err := getMappings([]string{"Dončić, Luka"})
	if err != nil || m["Luka Dončić, Luka Doncic"] != "Luka Dončić" {
		t.Fatalf("%q, %v", m, err)
	}
}''',pkg='filters/nba/generate/',package='main')
bug('c29-comma','a name with two commas, e.g. Payton, Gary, II','a name with more than one comma is silently mangled',
 [('filters/nba/generate/main.go','split := strings.Split(name, ",")','split := strings.SplitN(name, ",", 2)')],
'''func TestDemo(t *testing.T) {
	m, err := getMappings([]string{"Payton, Gary, II"})
	if err == nil {
		t.Fatalf("%q", m)
	}
}''',pkg='filters/nba/generate/',package='main')
bug('c08-lemma-phrase','a term whose words are all lemmas of an earlier filter in the chain','a term is not found though its words are there',
 [('filters/synonyms/filter.go','''		if !token.IsSpace() {
			// It's a word
			words++
		}
''','''		if i > 0 && token.IsLemma() && t.buffer.Tokens[i-1].IsLemma() {
			// Not a phrase of the text
			break
		}

		if !token.IsSpace() {
			// It's a word
			words++
		}
''')],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"can not": "unable"}, true, []rune{' '})
	s, err := jargon.TokenizeString("I can't go").Filter(contractions.Expand, f).String()
	if err != nil || s != "I unable go" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c22-lazy-slice','a slice of filters that is changed after the call of Filter, before the stream is read','the chain is made of other filters than the ones passed',
 [('tokenstream.go','''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
''','''	// Filters may be costly to set up, so wait until there's a need
	var outgoing *TokenStream
	return NewTokenStream(func() (*Token, error) {
		if outgoing == nil {
			outgoing = stream
			for _, f := range filters {
				outgoing = f(outgoing)
			}
		}
		return outgoing.Next()
	})
''')],
'''func TestDemo(t *testing.T) {
	fs := []jargon.Filter{stackoverflow.Tags, contractions.Expand}
	one := jargon.TokenizeString("Ruby on Rails isn't").Filter(fs...)
	fs[0] = stemmer.English
	s, err := one.String()
	if err != nil || s != "ruby-on-rails is not" {
		t.Fatalf("%q, %v", s, err)
	}
}''')

# Round 2
bug('c01-bom','a text that starts with a byte order mark','the byte order mark at the start of a text is missing from its tokens',
 [('tokenizer.go','''		token := NewToken(t.sc.Text(), false)
		return token, nil''','''		value := t.sc.Text()
		if !t.started {
			t.started = true
			if value == "\\uFEFF" {
				return t.next()
			}
		}
		token := NewToken(value, false)
		return token, nil'''),
  ('tokenizer.go','''	sc *iterators.Scanner
}''','''	sc *iterators.Scanner
	// started is whether there has been a token
	started bool
}''')],
'''func TestDemo(t *testing.T) {
	in := "\\uFEFFHello there"
	out, err := jargon.TokenizeString(in).String()
	if err != nil || out != in {
		t.Fatalf("%q became %q, %v", in, out, err)
	}
}''')
bug('c03-where-eof','a source that fails with io.ErrUnexpectedEOF below an operator that selects tokens','Words, Lemmas, Distinct and Where take a truncated source for the end of the text',
 [('tokenstream.go','''		if err != nil {
			return nil, err
		}
		if token == nil {
			break
		}
''','''		if err == io.ErrUnexpectedEOF {
			// Nothing more to come
			break
		}
		if err != nil {
			return nil, err
		}
		if token == nil {
			break
		}
''')],
'''func TestDemo(t *testing.T) {
	in := io.MultiReader(strings.NewReader("one two "), iotest.ErrReader(io.ErrUnexpectedEOF))
	n, err := jargon.Tokenize(in).Words().Count()
	if err != io.ErrUnexpectedEOF {
		t.Fatal(n, err)
	}
}''')
bug('c04-comment-string','an HTML comment that is not written in the normal way, such as <!-- a --!>','malformed comments and doctypes come out rewritten',
 [('tokenizer_html.go','''	case html.EndTagToken:
''','''	case html.CommentToken:
		return &Token{value: htoken.String(), punct: true}, nil
	case html.EndTagToken:
''')],
'''func TestDemo(t *testing.T) {
	for _, in := range []string{"<!-- fine -->", "a <!-- x --!> b", "<?php echo ?> b", "<!ELEMENT x>"} {
		out, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
		if err != nil || out != in {
			t.Fatalf("%q became %q, %v", in, out, err)
		}
	}
}''')
bug('c04-maxbuf','an HTML token of more than 1 MB, such as an inline script or image','a large script or tag is an error',
 [('tokenizer_html.go','''	t := &htokenizer{
		htokenizer: html.NewTokenizer(r),
	}''','''	t := &htokenizer{
		htokenizer: html.NewTokenizer(r),
	}
	t.htokenizer.SetMaxBuf(1 << 20)''')],
'''func TestDemo(t *testing.T) {
	in := "<p>a</p><script>" + strings.Repeat("var x = 1;\\n", 200000) + "</script><p>b</p>"
	out, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || out != in {
		t.Fatal(len(in), len(out), err)
	}
}''')
bug('c05-vertical-tab','a vertical tab or form feed','vertical tabs and form feeds are punctuation, and break terms',
 [('punct.go',"		'\\t':\n","		'\\t',\n		'\\v', '\\f':\n")],
'''func TestDemo(t *testing.T) {
	for _, s := range []string{"\\v", "\\f"} {
		if token := jargon.NewToken(s, false); token.IsPunct() || !token.IsSpace() {
			t.Fatalf("%q: punct %t, space %t", s, token.IsPunct(), token.IsSpace())
		}
	}
}''')
bug('c07-distinct-hash','two different tokens with the same 32-bit hash','a token is missing from Distinct because another one has the same hash',
 [('tokenstream.go','''	seen := map[string]bool{}
	isDistinct := func(t *Token) bool {
		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
		return !found
	}
''','''	// Hashes, so that we don't hold on to the strings
	seen := map[uint32]bool{}
	isDistinct := func(t *Token) bool {
		h := uint32(2166136261)
		for i := 0; i < len(t.value); i++ {
			h = (h ^ uint32(t.value[i])) * 16777619
		}
		found := seen[h]
		seen[h] = true
		return !found
	}
''')],
'''func TestDemo(t *testing.T) {
	got, err := jargon.TokenizeString("costarring liquid declinate macallums").Words().Distinct().Count()
	if err != nil || got != 4 {
		t.Fatal(got, err)
	}
}''')
bug('c07-predicate-twice','a predicate that is not a pure function, such as one that counts or selects every second token','Where calls the predicate more than once for a token',
 [('tokenstream.go','''		if w.predicate(token) {
			return token, nil
		}
	}

	return nil, nil''','''		if !w.predicate(token) {
			continue
		}
		if token.IsLemma() && !w.predicate(token) {
			continue
		}
		return token, nil
	}

	return nil, nil''')],
'''func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	first := func(t *jargon.Token) bool {
		found := seen[t.String()]
		seen[t.String()] = true
		return !found
	}
	got, err := jargon.TokenizeString("can't can't").Filter(contractions.Expand).Where(first).String()
	if err != nil || got != "can not" {
		t.Fatal(got, err)
	}
}''')
bug('c08-space-run','a run of more than one space between the words of a synonym','a synonym is found although the text has more spaces than it',
 [('filters/synonyms/trie/trie.go','''			n = n.children[r]
			if n == nil {
				break outer
			}
''','''			if r == ' ' && previous == ' ' {
				// Same as one space
				continue
			}
			previous = r

			n = n.children[r]
			if n == nil {
				break outer
			}
'''),('filters/synonyms/trie/trie.go','''	n := t.root

outer:''','''	n := t.root
	var previous rune

outer:''')],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"ruby on": "x"}, true, nil)
	got, err := jargon.TokenizeString("ruby  on").Filter(f).String()
	if err != nil || got != "ruby  on" {
		t.Fatalf("%q %v", got, err)
	}
}''')
bug('c08-empty-canonical','a synonym with an empty canonical','synonyms that should be removed stay',
 [('filters/synonyms/filter.go','''		if found {
			if canonical != "" {
				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
			}
''','''		if found && canonical != "" {
			token := jargon.NewToken(canonical, true)
			t.outgoing.Push(token)
''')],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"um": ""}, true, nil)
	got, err := jargon.TokenizeString("so um yes").Filter(f).String()
	if err != nil || got != "so  yes" {
		t.Fatalf("%q %v", got, err)
	}
}''')
bug('c09-empty-canonical','an entry whose canonical is empty, and one that is a prefix of it','an entry with an empty canonical is not found; a shorter one is',
 [('filters/synonyms/trie/trie.go','if n.hasCanonical && n != result {','if n.canonical != "" && n != result {')],
'''func TestDemo(t *testing.T) {
	tr := trie.New(true, nil)
	toks := func(s string) []*jargon.Token {
		ts, err := jargon.TokenizeString(s).ToSlice()
		if err != nil {
			t.Fatal(err)
		}
		return ts
	}
	tr.Add(toks("you know"), "")
	if found, _, n := tr.SearchCanonical(toks("you know")...); !found || n != 3 {
		t.Fatal(found, n)
	}
}''')
bug('c10-growing-lookahead','a long text with many matches','the synonyms filter reads further and further ahead of what it returns',
 [('filters/synonyms/filter.go','''			t.buffer.Drop(consumed)
			continue
''','''			t.buffer.Drop(consumed)

			// Make up for what we took, and the spaces
			for i := 0; i <= 2*t.filter.maxWords; i++ {
				token, err := t.incoming.Next()
				if err != nil {
					return nil, err
				}
				if token == nil {
					break
				}
				t.buffer.Push(token)
			}
			continue
''')],
'''type counter struct {
	r io.Reader
	n int
}

func (c *counter) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

func TestDemo(t *testing.T) {
	c := &counter{r: strings.NewReader(strings.Repeat("word ", 1<<18))}
	f := synonyms.NewFilter(map[string]string{"word": "term"}, true, nil)
	s := jargon.Tokenize(c).Filter(f)
	out := 0
	for out < 1<<19 && s.Scan() {
		out += len(s.Token().String())
	}
	if err := s.Err(); err != nil {
		t.Fatal(err)
	}
	if c.n > out+(1<<17) {
		t.Fatalf("read %d bytes for %d", c.n, out)
	}
}''')
bug('c10-retained','a large text through the mapper','a filter keeps every token it has seen, so memory grows with the text',
 [('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''','''	t.previous = append(t.previous, token)
	for _, f := range t.filter.funcs {
		token = f(token)
	}
'''),('filters/mapper/filter.go','''	incoming *jargon.TokenStream
	filter   *filter
}''','''	incoming *jargon.TokenStream
	filter   *filter
	previous []*jargon.Token
}''')],
'''type endless struct{ n int }

func (e *endless) Read(p []byte) (int, error) {
	e.n++
	return copy(p, fmt.Sprintf("number%d ", e.n)), nil
}

func TestDemo(t *testing.T) {
	s := jargon.Tokenize(&endless{}).Filter(ascii.Fold)
	used := func() uint64 {
		for i := 0; i < 400000; i++ {
			s.Scan()
		}
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	a := used()
	used()
	if b := used(); b > a+(16<<20) {
		t.Fatal(a, b)
	}
	runtime.KeepAlive(s)
}''')
bug('c14-space-not-lemma','a contraction of two words, followed by Lemmas','the space within an expansion is not a lemma',
 [('filters/contractions/filter.go','t.outgoing.Push(jargon.NewToken(token.String(), true))','t.outgoing.Push(jargon.NewToken(token.String(), !token.IsSpace()))')],
'''func TestDemo(t *testing.T) {
	got, err := jargon.TokenizeString("well, don't").Filter(contractions.Expand).Lemmas().String()
	if err != nil || got != "do not" {
		t.Fatalf("%q %v", got, err)
	}
}''')
bug('c14-title-curly','a contraction with a curly apostrophe in mixed case','mixed-case contractions with a curly apostrophe are not expanded',
 [('filters/contractions/filter.go','''	if ignoreCase {
		key = strings.ToLower(key)
	}
''','''	if ignoreCase {
		key = strings.Map(func(r rune) rune {
			if 'A' <= r && r <= 'Z' {
				return r + 'a' - 'A'
			}
			if r > '~' {
				return -1
			}
			return r
		}, key)
	}
''')],
'''func TestDemo(t *testing.T) {
	got, err := jargon.TokenizeString("dOn’T").Filter(contractions.Expand).String()
	if err != nil || got != "do not" {
		t.Fatalf("%q %v", got, err)
	}
}''')
bug('c17-trim','a token with spaces around a word, as some other filter can make','x',[],'') if False else None
bug('c18-upper','a stop word with a letter whose upper case is that of another one, such as ß or ſ','words that are not in the list are removed: case is disregarded by upper case instead of lower case',
 [('filters/stopwords/filter.go','			key = strings.ToLower(s)','			key = strings.ToUpper(s)'),
  ('filters/stopwords/filter.go','			key = strings.ToLower(token.String())','			key = strings.ToUpper(token.String())')],
'''func TestDemo(t *testing.T) {
	f := stopwords.NewFilter([]string{"is"}, true)
	got, err := jargon.TokenizeString("ıs it, Is it").Filter(f).String()
	if err != nil || got != "ıs it,  it" {
		t.Fatalf("%q %v", got, err)
	}
}''')
bug('c19-marks','a hashtag with a combining mark','words with combining marks become hashtags',
 [('filters/twitter/filter.go','''			unicode.IsNumber(r),
''','''			unicode.IsNumber(r),
			unicode.IsMark(r),
''')],
'''func TestDemo(t *testing.T) {
	in := "#cafe\\u0301 x"
	n, err := jargon.TokenizeString(in).Filter(twitter.Hashtags).Lemmas().Count()
	if err != nil || n != 0 {
		t.Fatal(n, err)
	}
}''')
bug('c21-drop-clear','tokens that are taken out of a queue while a slice of its tokens is still in use','x',[],'') if False else None
bug('c30-readall','input that arrives slowly or without an end','the command reads all input before it outputs anything',
 [('cmd/jargon/main.go','''	var tokens *jargon.TokenStream
	if c.HTML {''','''	if c.Lines && c.Pipedin {
		// All at once
		var b bytes.Buffer
		if _, err := c.Reader.WriteTo(&b); err != nil {
			return err
		}
		c.Reader = bufio.NewReader(&b)
	}

	var tokens *jargon.TokenStream
	if c.HTML {'''),('cmd/jargon/main.go','''	"bufio"
''','''	"bufio"
	"bytes"
''')],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t), "-lines")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	defer cmd.Wait()
	defer cmd.Process.Kill()
	go func() {
		for i := 0; i < 64; i++ {
			io.WriteString(in, strings.Repeat("word ", 1<<14))
		}
		// and wait
	}()
	got := make(chan bool)
	go func() {
		b := make([]byte, 1)
		io.ReadFull(out, b)
		close(got)
	}()
	select {
	case <-got:
	case <-time.After(20 * time.Second):
		t.Fatal("no output")
	}
}''')
bug('c30-collect','a large input with -count','the command keeps all tokens in memory in order to count them',
 [('cmd/jargon/main.go','''		count, err := tokens.Count()
		if err != nil {
			return err
		}
		c.Writer''','''		all, err := tokens.ToSlice()
		if err != nil {
			return err
		}
		count := len(all)
		c.Writer''')],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t), "-count")
	in, _ := cmd.StdinPipe()
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	n := 0
	for i := 0; i < 600; i++ {
		var b strings.Builder
		for j := 0; j < 10000; j++ {
			n++
			fmt.Fprintf(&b, "word%d ", n)
		}
		io.WriteString(in, b.String())
	}
	in.Close()
	if err := cmd.Wait(); err != nil {
		t.Fatal(err)
	}
	if kb := cmd.ProcessState.SysUsage().(*syscall.Rusage).Maxrss; kb > 200*1024 {
		t.Fatal(kb)
	}
}''')
B=[b for b in B if b['edits']]

# Round 3
bug('c03-wrapped-eof','a source of HTML that fails with an error that wraps io.EOF, as network libraries return','an HTML source that fails in that way looks complete',
 [('tokenizer_html.go','if err == io.EOF {','if errors.Is(err, io.EOF) {'),('tokenizer_html.go','import (\n','import (\n\t"errors"\n')],
'''func TestDemo(t *testing.T) {
	lost := fmt.Errorf("connection lost: %w", io.EOF)
	in := io.MultiReader(strings.NewReader("<p>one</p> "), iotest.ErrReader(lost))
	n, err := jargon.TokenizeHTML(in).Count()
	if err != lost {
		t.Fatal(n, err)
	}
}''')
bug('c05-first-64','a token of more than 64 bytes of punctuation or spaces and then something else','long tokens are classified by their first 64 bytes',
 [('token.go','''	default:
		punct = true
		for _, r := range s {
			if !isPunct(r) {''','''	default:
		punct = true
		for i, r := range s {
			if i > 64 {
				// Long enough to tell
				break
			}
			if !isPunct(r) {''')],
'''func TestDemo(t *testing.T) {
	s := strings.Repeat("-", 100) + "x"
	if token := jargon.NewToken(s, false); token.IsPunct() {
		t.Fatalf("%q is punct", s)
	}
}''')
bug('c07-closed-pipe','a writer that fails with io.ErrClosedPipe','WriteTo says that everything was written, though the writer failed',
 [('tokenstream.go','''		written += int64(n)

		if err != nil {''','''		written += int64(n)

		if err == io.ErrClosedPipe {
			// Nobody listens
			return written, nil
		}
		if err != nil {''')],
'''func TestDemo(t *testing.T) {
	r, w := io.Pipe()
	r.Close()
	n, err := jargon.TokenizeString("one two").WriteTo(w)
	if err != io.ErrClosedPipe {
		t.Fatal(n, err)
	}
}''')
bug('c16-long','a token of more than 4 KB','long tokens are not normalized',
 [('filters/norm/filter.go','if form.IsNormalString(token.String()) {','if len(token.String()) > 4096 || form.IsNormalString(token.String()) {')],
'''func TestDemo(t *testing.T) {
	s := strings.Repeat("e\\u0301", 3000)
	got, err := jargon.TokenizeString(s).Filter(norm.NFC).String()
	if err != nil || got != strings.Repeat("é", 3000) {
		t.Fatal(len(got), err)
	}
}''')
bug('c18-lazy','a list of stop words that is changed after the filter was made, before its first use','other words than those of the list are removed',
 [('filters/stopwords/filter.go','''	includes := make(map[string]bool)
	for _, s := range stopwords {
		var key string
		if ignoreCase {
			key = strings.ToLower(s)
		} else {
			key = s
		}
		includes[key] = true
	}

	f := &filter{
		includes:   includes,
		ignoreCase: ignoreCase,
	}

	return f.Filter
}

type filter struct {
''','''	f := &filter{
		ignoreCase: ignoreCase,
	}

	// Only pay for it if we use it
	return func(incoming *jargon.TokenStream) *jargon.TokenStream {
		f.once.Do(func() {
			f.includes = make(map[string]bool)
			for _, s := range stopwords {
				if ignoreCase {
					s = strings.ToLower(s)
				}
				f.includes[s] = true
			}
		})
		return f.Filter(incoming)
	}
}

type filter struct {
	once       sync.Once
'''),('filters/stopwords/filter.go','	"strings"\n','	"strings"\n	"sync"\n')],
'''func TestDemo(t *testing.T) {
	words := []string{"the"}
	f := stopwords.NewFilter(words, true)
	words[0] = "a"
	g := stopwords.NewFilter(words, true)
	got, err := jargon.TokenizeString("the a").Filter(f).String()
	if err != nil || got != " a" {
		t.Fatalf("%q %v", got, err)
	}
	_ = g
}''')
bug('c25-ten-mb','a body of more than 10 MB','the end of a large body is missing, with status 200',
 [('web/main.go','		tokens = jargon.Tokenize(r.Body)','		tokens = jargon.Tokenize(io.LimitReader(r.Body, 10<<20))'),('web/main.go','	"html/template"\n','	"html/template"\n	"io"\n')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	body := strings.Repeat("word ", 2500000)
	resp, err := http.Post("http://"+addr+"/text", "text/plain", strings.NewReader(body))
	if err != nil {
		t.Fatal(err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != 200 || string(b) != body {
		t.Fatal(len(b), resp.Status, err)
	}
}''')
bug('c26-case','a path such as /Text','paths that are not routes are processed instead of getting status 404',
 [('web/main.go','	route := parts[1]','	route := strings.ToLower(parts[1])')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	resp, err := http.Post("http://"+addr+"/TEXT", "text/plain", strings.NewReader("x"))
	if err != nil {
		t.Fatal(err)
	}
	resp.Body.Close()
	if resp.StatusCode != 404 {
		t.Fatal(resp.Status)
	}
}''')
bug('c28-backoff-ms','an answer of the API that asks to wait','the generator does not wait as long as the API asks it to, so that it gets blocked',
 [('filters/stackoverflow/generate/main.go','backoff := time.Duration(wrapper.Backoff) * time.Second','backoff := time.Duration(wrapper.Backoff) * time.Millisecond')],
'''func TestDemo(t *testing.T) {
	var times []time.Time
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		times = append(times, time.Now())
		if len(times) == 1 {
			io.WriteString(w, `{"items":[{"name":"a"}],"has_more":true,"backoff":2}`)
			return
		}
		io.WriteString(w, `{"items":[{"name":"b"}],"has_more":false}`)
	}))
	defer s.Close()
	tagsURL = s.URL + "/?page=%d&pagesize=%d&site=%s&key=%s"
	if err := os.Chdir(os.Getenv("DEMO_TMP")); err != nil {
		t.Fatal(err)
	}
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	if d := times[1].Sub(times[0]); d < 2*time.Second {
		t.Fatal(d)
	}
}''',pkg='filters/stackoverflow/generate/',package='main')
bug('c28-backoff-limit','a page that asks to wait for 11 to 60 seconds before the next one','the generator waits instead of giving up',
 [('filters/stackoverflow/generate/main.go','if wrapper.Backoff > 10 {','if wrapper.Backoff > 60 {')],
'''func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Query().Get("page") == "1" {
			io.WriteString(w, `{"items":[{"name":"a"}],"has_more":true,"backoff":11}`)
			return
		}
		io.WriteString(w, `{"items":[{"name":"b"}],"has_more":false}`)
	}))
	defer s.Close()
	tagsURL = s.URL + "/?page=%d&pagesize=%d&site=%s&key=%s"
	if err := os.Chdir(os.Getenv("DEMO_TMP")); err != nil {
		t.Fatal(err)
	}
	if err := writeDictionary(); err == nil {
		t.Fatal("no error")
	}
}''',pkg='filters/stackoverflow/generate/',package='main')
bug('c29-suffix','a name with a suffix, such as Trent Jr.','names with a suffix are reordered',
 [('filters/nba/generate/main.go','		canonical := strings.TrimSpace(split[1]) + " " + strings.TrimSpace(split[0])\n','''		first, last := strings.TrimSpace(split[1]), strings.TrimSpace(split[0])
		if strings.HasSuffix(first, " Jr.") {
			first, last = strings.TrimSuffix(first, " Jr."), last+" Jr."
		}
		canonical := first + " " + last
''')],
'''func TestDemo(t *testing.T) {
	m, err := getMappings([]string{"Payton, Gary Jr."})
	if err != nil || m["Gary Jr. Payton"] != "Gary Jr. Payton" {
		t.Fatalf("%q %v", m, err)
	}
}''',pkg='filters/nba/generate/',package='main')
bug('c23-lang-order','-lang that comes before -stem','-lang has no effect if it comes before -stem',
 [('cmd/jargon/main.go','''			if arg == "-stem" && lang != "" {''','''			if arg == "-stem" && lang != "" && !langSeen {'''),
  ('cmd/jargon/main.go','''	for i := 0; i < len(args); i++ {
		arg := args[i]
''','''	langSeen := false
	for i := 0; i < len(args); i++ {
		arg := args[i]
		if strings.HasPrefix(strings.TrimLeft(arg, "-"), "lang") && strings.HasPrefix(arg, "-") {
			langSeen = true
		}
''')],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t), "-lang", "spanish", "-stem")
	cmd.Stdin = strings.NewReader("corriendo")
	out, err := cmd.Output()
	if err != nil || string(out) != "corr" {
		t.Fatalf("%q %v", out, err)
	}
}''')
bug('c06-resume','reading on after the end of a stream from a source that goes on later, such as a file that grows','after the end has been reported, more tokens come',
 [('tokenizer.go','''	if err := t.sc.Err(); err != nil {
		return nil, err
	}

	return nil, nil''','''	if err := t.sc.Err(); err != nil {
		return nil, err
	}

	// There may be more at a later time
	t.sc = newTokenizer(t.r).sc
	return nil, nil'''),('tokenizer.go','''	sc *iterators.Scanner
}''','''	sc *iterators.Scanner
	r  io.Reader
}'''),('tokenizer.go','''		sc: sc,
''','''		sc: sc,
		r:  r,
''')],
'''type growing struct{ n int }

func (g *growing) Read(p []byte) (int, error) {
	g.n++
	if g.n%2 == 0 {
		return 0, io.EOF
	}
	return copy(p, "more "), nil
}

func TestDemo(t *testing.T) {
	s := jargon.Tokenize(&growing{})
	if _, err := s.Count(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 5; i++ {
		if token, err := s.Next(); token != nil || err != nil {
			t.Fatal(token, err)
		}
	}
}''')
# round 4
bug('c06-ring','keeping tokens of a stream of more than 40,000 words while reading on','tokens returned earlier change, since their memory is used again',
 [('tokenizer.go','''		token := NewToken(t.sc.Text(), false)
		return token, nil''','''		token := NewToken(t.sc.Text(), false)
		if token == nil || token.punct || token.space {
			return token, nil
		}
		// Allocate once
		if t.ring == nil {
			t.ring = make([]Token, 0, 512)
		}
		if len(t.ring) < 40000 {
			t.ring = append(t.ring, *token)
			return token, nil
		}
		slot := &t.ring[t.n%len(t.ring)]
		t.n++
		*slot = *token
		return slot, nil'''),('tokenizer.go','''	sc *iterators.Scanner
}''','''	sc   *iterators.Scanner
	ring []Token
	n    int
}''')],
'''func TestDemo(t *testing.T) {
	var b strings.Builder
	for i := 0; i < 100000; i++ {
		fmt.Fprintf(&b, "w%d ", i)
	}
	tokens, err := jargon.TokenizeString(b.String()).ToSlice()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 100000; i++ {
		if got := tokens[2*i].String(); got != fmt.Sprintf("w%d", i) {
			t.Fatal(i, got)
		}
	}
}''')
bug('c17-shared-cache','the same word stemmed in two languages in one process','a word is stemmed as in the language in which it was first seen',
 [('filters/stemmer/filter.go','''		stemmed := stem(token.String(), true)
''','''		var stemmed string
		if s, found := cache.Load(token.String()); found {
			stemmed = s.(string)
		} else {
			stemmed = stem(token.String(), true)
			cache.Store(token.String(), stemmed)
		}
'''),('filters/stemmer/filter.go','''// newStemmer creates a new stemmer
''','''// cache avoids stemming the same words again
var cache sync.Map

// newStemmer creates a new stemmer
'''),('filters/stemmer/filter.go','''import (
''','''import (
	"sync"

''')],
'''func TestDemo(t *testing.T) {
	const word = "node"
	jargon.TokenizeString(word).Filter(stemmer.English).String()
	got, err := jargon.TokenizeString(word).Filter(stemmer.French).String()
	if err != nil || got != "nod" {
		t.Fatal(got, err)
	}
}''')
bug('c22-dedupe','the same filter twice in a row','the second of two equal filters in a row is not applied',
 [('tokenstream.go','''	for _, f := range filters {
		outgoing = f(outgoing)
	}''','''	for i, f := range filters {
		if i > 0 && reflect.ValueOf(f).Pointer() == reflect.ValueOf(filters[i-1]).Pointer() {
			// Applied already
			continue
		}
		outgoing = f(outgoing)
	}'''),('tokenstream.go','''import (
	"io"
''','''import (
	"io"
	"reflect"
''')],
'''func TestDemo(t *testing.T) {
	a := synonyms.NewFilter(map[string]string{"foo": "bar"}, true, nil)
	b := synonyms.NewFilter(map[string]string{"bar": "baz"}, true, nil)
	got, err := jargon.TokenizeString("foo").Filter(a, b).String()
	if err != nil || got != "baz" {
		t.Fatal(got, err)
	}
}''')
bug('c09-shared-prefix','an entry that is the beginning of another, added after it, and the canonical is empty or the same','the number of tokens consumed is that of the shorter entry',
 [('filters/synonyms/trie/trie.go','''		if n.hasCanonical && n != result {''','''		if n.hasCanonical && n != result && !(found && n.canonical == canonical) {''')],
'''func TestDemo(t *testing.T) {
	tr := trie.New(true, nil)
	tr.Add([]*jargon.Token{jargon.NewToken("ruby", false)}, "ruby")
	tr.Add([]*jargon.Token{jargon.NewToken("rubylang", false)}, "ruby")
	found, canonical, consumed := tr.SearchCanonical(jargon.NewToken("ruby", false), jargon.NewToken("lang", false))
	if !found || canonical != "ruby" || consumed != 2 {
		t.Fatal(found, canonical, consumed)
	}
}''')
bug('c20-identity','a function that changes a token and a later one that returns the original text','functions after one that had no effect are not called',
 [('filters/mapper/filter.go','''		token = f(token)
''','''		mapped := f(token)
		if mapped == token && token.IsLemma() {
			// Settled
			break
		}
		token = mapped
''')],
'''func TestDemo(t *testing.T) {
	same := func(t *jargon.Token) *jargon.Token { return t }
	up := func(t *jargon.Token) *jargon.Token { return jargon.NewToken(strings.ToUpper(t.String()), true) }
	bang := func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+"!", true) }
	got, err := jargon.TokenizeString("foo").Filter(mapper.NewFilter(up, same, bang)).String()
	if err != nil || got != "FOO!" {
		t.Fatal(got, err)
	}
}''')
bug('c21-drop-cap','two queues of more than 32 tokens, one flushed to the other when that is empty','tokens of one queue are overwritten by pushes to another',
 [('tokenqueue/queue.go','''	dst.Tokens = append(dst.Tokens, q.Tokens...)
''','''	if len(dst.Tokens) == 0 && len(q.Tokens) > 32 {
		// Hand them over as they are
		dst.Tokens = q.Tokens
		q.Clear()
		return
	}
	dst.Tokens = append(dst.Tokens, q.Tokens...)
''')],
'''func TestDemo(t *testing.T) {
	a, b := tokenqueue.New(), tokenqueue.New()
	for i := 0; i < 40; i++ {
		a.Push(jargon.NewToken(fmt.Sprintf("t%d", i), false))
	}
	a.FlushTo(b)
	a.Push(jargon.NewToken("other", false))
	if got := b.Pop().String(); got != "t0" {
		t.Fatal(got)
	}
}''')
bug('c08-space-count','words of a term separated by several space tokens, such as a space and a no-break space, which are ignored','the run of words is cut short, and the term is not recognized',
 [('filters/synonyms/filter.go',"""		if !token.IsSpace() {
			// It's a word
			words++
		}
""","""		if token.IsSpace() {
			// That's the end of a word
			words++
		}
""")],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"ruby on": "X"}, true, []rune{' ', 0xa0})
	s, err := jargon.TokenizeString("ruby \\u00a0 on").Filter(f).String()
	if err != nil || s != "X" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c08-punct-words','a dictionary with a synonym that has punctuation, and another one spelled with more words than it has','text of more words than any synonym has is replaced',
 [('filters/synonyms/filter.go',"""		if !token.IsSpace() && !token.IsPunct() {
			words++""","""		if !token.IsSpace() {
			words++""")],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"abc": "X", "d-e": "Y"}, true, []rune{' ', '-'})
	s, err := jargon.TokenizeString("a b c").Filter(f).String()
	if err != nil || s != "a b c" {
		t.Fatalf("%q, %v", s, err)
	}
}''')
bug('c13-dash','a name with an en dash in one token, from another tokenizer','the name is not recognized',
 [('filters/nba/filter.go','NewFilter(mappings, true, ignore)','NewFilter(mappings, true, ignore[:5])')],
'''func TestDemo(t *testing.T) {
	token := jargon.NewToken("LeBron–James", false)
	done := false
	s := nba.CurrentPlayers(jargon.NewTokenStream(func() (*jargon.Token, error) {
		if done {
			return nil, nil
		}
		done = true
		return token, nil
	}))
	got, err := s.String()
	if err != nil || got != "LeBron James" {
		t.Fatal(got, err)
	}
}''')
bug('c07-where-run','more than 65,536 tokens in a row which do not match, and then one that does','Where, Words, Lemmas and Distinct end early',
 [('tokenstream.go','''	for {
		token, err := w.stream.Next()
		if err != nil {
			return nil, err
		}
		if token == nil {
			break
		}

		if w.predicate(token) {
			return token, nil
		}
	}
''','''	for skipped := uint16(0); ; skipped++ {
		token, err := w.stream.Next()
		if err != nil {
			return nil, err
		}
		if token == nil || skipped == 65535 {
			break
		}

		if w.predicate(token) {
			return token, nil
		}
	}
''')],
'''func TestDemo(t *testing.T) {
	got, err := jargon.TokenizeString(strings.Repeat("\\t", 70000) + "end").Words().String()
	if err != nil || got != "end" {
		t.Fatal(got, err)
	}
}''')
bug('c10-writeto-all','WriteTo a writer that fails, of endless or large text','nothing is written before all is read',
 [('tokenstream.go','''	var written int64
	for stream.Scan() {
		token := stream.Token()
		n, err := w.Write([]byte(token.String()))
		written += int64(n)

		if err != nil {
			return written, err
		}
	}

	if err := stream.Err(); err != nil {
		return written, err
	}

	return written, nil''','''	var b strings.Builder
	for stream.Scan() {
		b.WriteString(stream.Token().String())
	}
	// A single write is faster
	n, err := io.WriteString(w, b.String())
	if err == nil {
		err = stream.Err()
	}
	return int64(n), err''')],
'''type fails struct{}

func (fails) Write(p []byte) (int, error) { return 0, io.ErrClosedPipe }

func TestDemo(t *testing.T) {
	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > 10000000 {
			return nil, fmt.Errorf("too many")
		}
		return jargon.NewToken("x", false), nil
	})
	if _, err := s.WriteTo(fails{}); err != io.ErrClosedPipe || n > 1000000 {
		t.Fatal(n, err)
	}
}''')
bug('c10-where-recursive','a very long run of tokens that are dropped','the stack grows with the run, until it overflows',
 [('tokenstream.go','''	for {
		token, err := w.stream.Next()
		if err != nil {
			return nil, err
		}
		if token == nil {
			break
		}

		if w.predicate(token) {
			return token, nil
		}
	}

	return nil, nil''','''	token, err := w.stream.Next()
	if err != nil {
		return nil, err
	}
	if token == nil || w.predicate(token) {
		return token, nil
	}

	// Try the next one
	return w.next()''')],
'''func TestDemo(t *testing.T) {
	n := 0
	var first, last runtime.MemStats
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		if n == 1000 {
			runtime.ReadMemStats(&first)
		}
		if n == 200000 {
			runtime.ReadMemStats(&last)
			return nil, nil
		}
		return jargon.NewToken("x", false), nil
	})
	if k, err := s.Lemmas().Count(); k != 0 || err != nil {
		t.Fatal(k, err)
	}
	if last.StackInuse > first.StackInuse+4000000 {
		t.Fatal(first.StackInuse, last.StackInuse)
	}
}''')
bug('c14-quoted','a contraction with a further apostrophe, or in quotes, as one token','quotes around it are lost',
 [('filters/contractions/filter.go','''		key = strings.ToLower(key)
''','''		key = strings.ToLower(strings.Trim(key, "'"))
''')],
'''func TestDemo(t *testing.T) {
	done := false
	s := contractions.Expand(jargon.NewTokenStream(func() (*jargon.Token, error) {
		if done {
			return nil, nil
		}
		done = true
		return jargon.NewToken("'don't'", false), nil
	}))
	got, err := s.String()
	if err != nil || got != "'don't'" {
		t.Fatal(got, err)
	}
}''')
bug('c18-run','more than 65,535 stop words in a row','one of them comes out',
 [('filters/stopwords/filter.go','''	for {
		token, err''','''	for dropped := uint16(0); ; dropped++ {
		token, err'''),('filters/stopwords/filter.go','''		if t.filter.includes[key] {''','''		if t.filter.includes[key] && dropped < 65535 {''')],
'''func TestDemo(t *testing.T) {
	f := stopwords.NewFilter([]string{"\\t"}, true)
	got, err := jargon.TokenizeString(strings.Repeat("\\t", 70000) + "end").Filter(f).String()
	if err != nil || got != "end" {
		t.Fatal(len(got), err)
	}
}''')
bug('c18-list-lowered','the list of stop words is used again, for another filter or by the caller','making a filter changes the list of the caller',
 [('filters/stopwords/filter.go','''	for _, s := range stopwords {
		var key string
		if ignoreCase {
			key = strings.ToLower(s)
		} else {
			key = s
		}
		includes[key] = true
	}''','''	if ignoreCase {
		for i := range stopwords {
			stopwords[i] = strings.ToLower(stopwords[i])
		}
	}
	for _, key := range stopwords {
		includes[key] = true
	}''')],
'''func TestDemo(t *testing.T) {
	list := []string{"The"}
	stopwords.NewFilter(list, true)
	got, err := jargon.TokenizeString("The the").Filter(stopwords.NewFilter(list, false)).String()
	if err != nil || got != " the" {
		t.Fatal(got, err)
	}
}''')
bug('c08-mappings-consumed','two filters of the same mappings, e.g. with and without case','the second filter has no synonyms',
 [('filters/synonyms/filter.go','''		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
		if err != nil {
			return err
		}
''','''		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
		if err != nil {
			return err
		}
		// Not needed any longer, don't keep it twice
		delete(f.config.mappings, synonyms)
''')],
'''func TestDemo(t *testing.T) {
	m := map[string]string{"foo": "bar"}
	for _, fold := range []bool{true, false} {
		got, err := jargon.TokenizeString("foo").Filter(synonyms.NewFilter(m, fold, nil)).String()
		if err != nil || got != "bar" {
			t.Fatal(got, err)
		}
	}
}''')
bug('c01-intern-hash','two different words of the same 32-bit hash in one process','the second comes out as the first',
 [('token.go','''	if len(s) == 0 {
		return nil
	}
''','''	if len(s) == 0 {
		return nil
	}

	// Words are repeated a lot
	h := fnv.New32a()
	h.Write([]byte(s))
	key := uint64(h.Sum32())<<16 | uint64(len(s)&0xff)<<1
	if isLemma {
		key |= 1
	}
	if len(s) < 10 {
		if token, found := interned.Load(key); found {
			return token.(*Token)
		}
		token := newToken(s, isLemma)
		interned.Store(key, token)
		return token
	}

	return newToken(s, isLemma)
}

var interned sync.Map

func newToken(s string, isLemma bool) *Token {'''),('token.go','''import (
''','''import (
	"hash/fnv"
	"sync"
''')],
'''func TestDemo(t *testing.T) {
	seen := map[uint32]string{}
	for i := 0; i < 2000000; i++ {
		s := fmt.Sprintf("w%06x", i*7919%(1<<24))
		h := fnv.New32a()
		h.Write([]byte(s))
		k := h.Sum32()
		if other, found := seen[k]; found && other != s {
			got, err := jargon.TokenizeString(other + " " + s).String()
			if err != nil || got != other+" "+s {
				t.Fatal(got, err)
			}
			return
		}
		seen[k] = s
	}
	t.Skip("no collision")
}''')
bug('c07-string-writer','a writer that has WriteString, such as a file or a bufio.Writer, and fails','WriteTo reports bytes which the writer has not taken',
 [('tokenstream.go','''		n, err := w.Write([]byte(token.String()))
		written += int64(n)
''','''		var n int
		var err error
		if sw, ok := w.(io.StringWriter); ok {
			// Saves a copy
			n = len(token.String())
			_, err = sw.WriteString(token.String())
		} else {
			n, err = w.Write([]byte(token.String()))
		}
		written += int64(n)
''')],
'''type sw struct{}

func (sw) Write(p []byte) (int, error)       { return 0, io.ErrClosedPipe }
func (sw) WriteString(s string) (int, error) { return 0, io.ErrClosedPipe }

func TestDemo(t *testing.T) {
	if n, err := jargon.TokenizeString("foo").WriteTo(sw{}); n != 0 || err != io.ErrClosedPipe {
		t.Fatal(n, err)
	}
}''')
bug('c09-ignore-bmp','an ignored character beyond the basic plane, or one that is the same in the lower 16 bits','other characters are ignored',
 [('filters/synonyms/trie/trie.go','''	ignore     map[rune]bool
''','''	ignore     map[uint16]bool
'''),('filters/synonyms/trie/trie.go','''	set := map[rune]bool{}
	for _, r := range ignore {
		set[r] = true
	}''','''	set := map[uint16]bool{}
	for _, r := range ignore {
		set[uint16(r)] = true
	}'''),('filters/synonyms/trie/trie.go','''			if t.ignore[r] {
				continue
			}

			child''','''			if t.ignore[uint16(r)] {
				continue
			}

			child'''),('filters/synonyms/trie/trie.go','''			if t.ignore[r] {
				continue
			}

			n =''','''			if t.ignore[uint16(r)] {
				continue
			}

			n ='''),('filters/synonyms/trie/trie.go','''string(k), v)''','''string(rune(k)), v)''')],
'''func TestDemo(t *testing.T) {
	tr := trie.New(true, []rune{' ', 0x1f600})
	tr.Add([]*jargon.Token{jargon.NewToken("ab", false)}, "X")
	if found, _, _ := tr.SearchCanonical(jargon.NewToken("a\\uf600b", false)); found {
		t.Fatal("found")
	}
}''')
bug('c04-nbsp','a text node that is exactly &nbsp;','the entity is given as a space',
 [('tokenizer_html.go','			t.ttokens = TokenizeString(raw)\n','''			if htoken.Data == "\\u00a0" {
				// An empty cell
				return &Token{value: raw, space: true}, nil
			}
			t.ttokens = TokenizeString(raw)
''')],
'''func TestDemo(t *testing.T) {
	tokens, err := jargon.TokenizeHTML(strings.NewReader("<td>&nbsp;</td>")).ToSlice()
	if err != nil || len(tokens) != 5 || tokens[2].String() != "nbsp" {
		t.Fatal(len(tokens), err)
	}
}''')
bug('c04-template','text in a template element','text of a template is one token, as if it were a script',
 [('tokenizer_html.go','htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style','htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style || htoken.DataAtom == atom.Template'),
  ('tokenizer_html.go','case atom.Script, atom.Style:','case atom.Script, atom.Style, atom.Template:')],
'''func TestDemo(t *testing.T) {
	tokens, err := jargon.TokenizeHTML(strings.NewReader("<template>a b</template>")).ToSlice()
	if err != nil || len(tokens) != 5 {
		t.Fatal(len(tokens), err)
	}
}''')
bug('c08-fullwidth-comma','a synonym which has a full-width comma','the full-width comma separates synonyms as well',
 [('filters/synonyms/filter.go','if token.String() == "," {','if token.String() == "," || token.String() == "，" {')],
'''func TestDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"你，好": "X"}, true, nil)
	s, err := jargon.TokenizeString("你").Filter(f).String()
	if err != nil || s != "你" {
		t.Fatal(s, err)
	}
}''')
bug('c25-form','a request whose body is sent as a form','the body of a form is consumed, and the response is empty',
 [('web/main.go','	route := parts[1]\n','''	route := parts[1]
	if r.FormValue("format") == "none" {
		http.NotFound(w, r)
		return
	}
''')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	r, err := http.Post("http://"+addr+"/text", "application/x-www-form-urlencoded", strings.NewReader("zzq zzy"))
	if err != nil {
		t.Fatal(err)
	}
	out, _ := io.ReadAll(r.Body)
	if string(out) != "zzq zzy" {
		t.Fatalf("%q", out)
	}
}''')
bug('c26-preflight-header','a POST with an Access-Control-Request-Method header','such a request gets no answer',
 [('web/main.go','	if r.Method == "OPTIONS" {','	if r.Method == "OPTIONS" || r.Header.Get("Access-Control-Request-Method") != "" {')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	req, err := http.NewRequest("POST", "http://"+addr+"/nowhere", strings.NewReader("some text"))
	if err != nil {
		t.Fatal(err)
	}
	req.Header.Set("Access-Control-Request-Method", "POST")
	r, err := http.DefaultClient.Do(req)
	if err != nil {
		t.Fatal(err)
	}
	if r.StatusCode != 404 {
		t.Fatal(r.Status)
	}
}''')
bug('c28-late-error','a page after the fifth that cannot be fetched','the table is written without the tags that could not be fetched, and there is no error',
 [('filters/stackoverflow/generate/main.go','''			if err != nil {
				return err
			}

			// Synonyms first''','''			if err != nil {
				if page > 5 {
					// The most popular ones will do
					break
				}
				return err
			}

			// Synonyms first''')],
SO+'''
func TestDemo(t *testing.T) {
	var pages []string
	for i := 1; i <= 8; i++ {
		pages = append(pages, fmt.Sprintf(`{"items":[{"name":"tag%d"}],"has_more":true}`, i))
	}
	pages = append(pages, `no json`)
	if out := generate(t, pages...); strings.Contains(out, "tag8") {
		t.Fatal(out)
	}
}''',pkg='filters/stackoverflow/generate/',package='main')
bug('c29-any-link','a player cell which has another link, inside another element','footnotes and such become players',
 [('filters/nba/generate/main.go','td:nth-of-type(3) > a','td:nth-of-type(3) a')],
'''type page string

func (p page) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: io.NopCloser(strings.NewReader(string(p))), Header: http.Header{}, Request: r}, nil
}

func TestDemo(t *testing.T) {
	http.DefaultTransport = page(`<table class="toccolours"><tr><td><table class="sortable"><tbody><tr><td>1</td><td>2</td><td><a href="/x">Doe, John</a><sup><a href="#n">note</a></sup></td></tr></tbody></table></td></tr></table>`)
	names, err := fetchNames()
	if err != nil || len(names) != 1 {
		t.Fatalf("%q %v", names, err)
	}
}''',pkg='filters/nba/generate/',package='main')
