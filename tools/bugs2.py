from bugs import bug, B, CLI, WEB, GEN
W='web/main.go'; C='cmd/jargon/main.go'; G='filters/stackoverflow/generate/main.go'; N='filters/nba/generate/main.go'; S='tokenstream.go'; Q='tokenqueue/queue.go'
first=len(B)
bug('c07-distinct-shared','Distinct called a second time on the same stream, after the first was read in part or whole','the second Distinct leaves out values that only the first one gave',
 [(S,"	seen := map[string]bool{}\n","	if stream.seen == nil {\n		stream.seen = map[string]bool{}\n	}\n	seen := stream.seen\n"),(S,"	err   error  // stateful error when using Scan\n","	err   error  // stateful error when using Scan\n\n	seen map[string]bool // values that Distinct has given\n")],
'''func TestDemo(t *testing.T) {
	stream := jargon.TokenizeString("a b a b")
	if _, err := stream.Distinct().Next(); err != nil {
		t.Fatal(err)
	}
	got, err := stream.Distinct().String()
	if err != nil || got != " ba" {
		t.Fatalf("%q, %v", got, err)
	}
}''')
bug('c25-gzip','a client that accepts gzip, and an output of more than 4 KB','the compressed response has no end: its trailer is missing',
 [(W,"	_, err := b.WriteTo(w)\n","	if strings.Contains(r.Header.Get(\"Accept-Encoding\"), \"gzip\") && b.Len() > 1<<12 {\n		w.Header().Set(\"Content-Encoding\", \"gzip\")\n		z := gzip.NewWriter(w)\n		b.WriteTo(z)\n		z.Flush()\n		return\n	}\n	_, err := b.WriteTo(w)\n"),(W,'	"bytes"\n','	"bytes"\n	"compress/gzip"\n')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	// The client of net/http asks for gzip, and unpacks it
	r, err := http.Post("http://"+addr+"/text", "text/plain", strings.NewReader(strings.Repeat("Ruby on Rails. ", 5000)))
	if err != nil {
		t.Fatal(err)
	}
	body, err := io.ReadAll(r.Body)
	if err != nil || strings.Count(string(body), "ruby-on-rails") < 5000 {
		t.Fatal(len(body), err)
	}
}''')
bug('c26-pool-error','a request whose body cannot be read to its end, and another one after it','the page of the broken request appears in the response to the next',
 [(W,"	var b bytes.Buffer\n","	b := buffers.Get().(*bytes.Buffer)\n	defer buffers.Put(b)\n"),(W,"lemma.Execute(&b, t)","lemma.Execute(b, t)"),(W,"plain.Execute(&b, t)","plain.Execute(b, t)"),
  (W,"			log.Print(err)\n			w.WriteHeader(500)\n		}\n		if t == nil","			log.Print(err)\n			w.WriteHeader(500)\n			return\n		}\n		if t == nil"),
  (W,"var lemma =","// buffers are empty once they are written\nvar buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nvar lemma ="),(W,'	"strings"\n','	"strings"\n	"sync"\n')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	for i := 0; i < 20; i++ {
		r, err := http.Post("http://"+addr+"/text", "text/plain", strings.NewReader(strings.Repeat("SECRET. ", 1000)+strings.Repeat("x", 200000)))
		if err != nil {
			t.Fatal(err)
		}
		r.Body.Close()
		if r, err = http.Post("http://"+addr+"/text", "text/plain", strings.NewReader("mine")); err != nil {
			t.Fatal(err)
		}
		body, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil || r.StatusCode != 200 || strings.Contains(string(body), "SECRET") || !strings.Contains(string(body), "mine") {
			t.Fatalf("%s %.100q %v", r.Status, body, err)
		}
	}
}''')
bug('c26-early-flush','a broken body of which more than 1 MB of output was made already','status 200, with part of the output, though the body could not be read',
 [(W,"		if err != nil {\n			log.Print(err)\n			w.WriteHeader(500)\n			return\n		}\n	}\n","		if err != nil {\n			log.Print(err)\n			w.WriteHeader(500)\n			return\n		}\n		if b.Len() > 1<<20 && r.ContentLength >= 0 && int64(b.Len()) > r.ContentLength {\n			// All of it was read by now\n			b.WriteTo(w)\n		}\n	}\n")],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	r, err := http.Post("http://"+addr+"/text", "text/plain", strings.NewReader(strings.Repeat("Ruby on Rails. ", 100000)+strings.Repeat("x", 200000)))
	if err != nil {
		t.Fatal(err)
	}
	r.Body.Close()
	if r.StatusCode != 500 {
		t.Fatal(r.Status)
	}
}''')
SO=GEN+'''
func generate(t *testing.T, compress bool, pages ...string) (string, error) {
	chdir(t)
	os.Remove("generated.go")
	server := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		page, _ := strconv.Atoi(r.URL.Query().Get("page"))
		body := `{"items":[],"has_more":false}`
		if page <= len(pages) {
			body = pages[page-1]
		}
		if compress && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
			w.Header().Set("Content-Encoding", "gzip")
			z := gzip.NewWriter(w)
			defer z.Close()
			io.WriteString(z, body)
			return
		}
		w.(http.Flusher).Flush() // chunked
		io.WriteString(w, body)
	}))
	defer server.Close()
	tagsURL = server.URL + "/?page=%d&pagesize=%d&site=%s&key=%s"
	err := writeDictionary()
	out, _ := os.ReadFile("generated.go")
	return string(out), err
}
'''
bug('c28-gzip-header','an answer that is compressed, as those of the Stack Exchange API always are','the generator asks for gzip by itself, hence gets it compressed, and fails',
 [(G,"	r, httpErr := client.Get(url)\n","	req, reqErr := http.NewRequest(\"GET\", url, nil)\n	if reqErr != nil {\n		return empty, reqErr\n	}\n	// The API compresses everything\n	req.Header.Set(\"Accept-Encoding\", \"gzip\")\n	r, httpErr := client.Do(req)\n")],
SO+'''
func TestDemo(t *testing.T) {
	out, err := generate(t, true, `{"items":[{"name":"go","synonyms":["golang"]}],"has_more":false}`)
	if err != nil || !strings.Contains(out, `"golang"`) {
		t.Fatal(out, err)
	}
}''',pkg='filters/stackoverflow/generate/',package='main')
bug('c28-backoff-last','has_more and a backoff of over 10 seconds on page 19','the generator does not fail, but waits',
 [(G,"			if wrapper.Backoff > 10 {","			if wrapper.Backoff > 10 && page < pages-1 {")],
SO+'''
func TestDemo(t *testing.T) {
	var pages []string
	for i := 1; i <= 18; i++ {
		pages = append(pages, `{"items":[],"has_more":true}`)
	}
	pages = append(pages, `{"items":[],"has_more":true,"backoff":11}`)
	if out, err := generate(t, false, pages...); err == nil {
		t.Fatal(out)
	}
}''',pkg='filters/stackoverflow/generate/',package='main')
NBA=GEN+'''
type rosters string

func (r rosters) RoundTrip(req *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(string(r))), Request: req}, nil
}

func fetch(t *testing.T, players []string, padding string) []string {
	rows := ""
	for _, p := range players {
		rows += "<tr><td>F</td><td>1</td><td><a>" + p + "</a></td><td>" + padding + "</td></tr>"
	}
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	http.DefaultTransport = rosters("<html><body><table class=toccolours><tbody><tr><td><table class=sortable><tbody>" + rows + "</tbody></table></td></tr></tbody></table></body></html>")
	names, err := fetchNames()
	if err != nil {
		t.Fatal(err)
	}
	return names
}
'''
bug('c29-page-limit','a page of over 256 KB, as the real one is','the players beyond are left out, without an error',
 [(N,"	doc, err := goquery.NewDocumentFromReader(resp.Body)\n","	doc, err := goquery.NewDocumentFromReader(io.LimitReader(resp.Body, 1<<18))\n"),(N,'	"go/format"\n','	"go/format"\n	"io"\n')],
NBA.replace(GEN,'')+'''
func TestDemo(t *testing.T) {
	names := fetch(t, []string{"James, LeBron", "Curry, Stephen", "Durant, Kevin", "Paul, Chris"}, strings.Repeat("<i>x</i>", 20000))
	if len(names) != 4 {
		t.Fatal(names)
	}
}''',pkg='filters/nba/generate/',package='main')
bug('c29-paren','a name with a parenthesis','what is in parentheses is cut off, and so the first name with it',
 [(N,"		names = append(names, s.Text())\n","		names = append(names, strings.Split(s.Text(), \"(\")[0])\n")],
NBA.replace(GEN,'')+'''
func TestDemo(t *testing.T) {
	names := fetch(t, []string{"Nene (Hilario), Maybyner"}, "")
	if len(names) != 1 || names[0] != "Nene (Hilario), Maybyner" {
		t.Fatal(names)
	}
}''',pkg='filters/nba/generate/',package='main')
bug('c24-lang-prefix','a -lang that is the beginning of a known one','an unknown language is taken for a known one, rather than being refused',
 [(C,"				stem, found := stemmerMap[lang]\n","				stem, found := stemmerMap[lang]\n				for _, l := range langs {\n					if !found && strings.HasPrefix(l, lang) && len(lang) > 2 {\n						stem, found = stemmerMap[l]\n					}\n				}\n")],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t), "-stem", "-lang", "engl")
	cmd.Stdin = strings.NewReader("running")
	if out, err := cmd.Output(); err == nil {
		t.Fatalf("%q", out)
	}
}''')
bug('c23-sniff','an input without -html which begins with <!DOCTYPE','it is tokenized as HTML, though not asked for',
 [(C,"	if c.HTML {\n		tokens","	if b, _ := c.Reader.Peek(9); string(b) == \"<!DOCTYPE\" {\n		c.HTML = true\n	}\n	if c.HTML {\n		tokens")],
CLI+'''
func TestDemo(t *testing.T) {
	cmd := exec.Command(jargonCmd(t), "-lines")
	cmd.Stdin = strings.NewReader("<!DOCTYPE html>")
	if out, err := cmd.Output(); err != nil || string(out) != "<\\n!\\nDOCTYPE\\n \\nhtml\\n>\\n" {
		t.Fatalf("%q, %v", out, err)
	}
}''')
bug('c21-shrink','a queue that has had over 4096 tokens, of which but a few are left by a drop, before the next push','the last token is lost when the queue gives its memory back',
 [(Q,"	q.Tokens = append(q.Tokens, tokens...)\n","	q.Tokens = append(q.shrunk(), tokens...)\n"),(Q,"// Push appends","// shrunk gives memory back that is not needed any more\nfunc (q *TokenQueue) shrunk() []*Token {\n	if left := q.Tokens; cap(left) > 4096 && len(left) < 16 {\n		return append(make([]*Token, 0, 16), left[:len(left)&^1]...)\n	}\n	return q.Tokens\n}\n\n// Push appends")],
'''func TestDemo(t *testing.T) {
	q := tokenqueue.New()
	token := jargon.NewToken("x", false)
	for i := 0; i < 5000; i++ {
		q.Push(token)
	}
	q.Drop(4997)
	q.Push(token)
	if q.Len() != 4 {
		t.Fatal(q.Len())
	}
}''')
B[:]=B[first:]
