m('web-readtimeout','C25',(W,'	log.Fatal(http.ListenAndServe(":"+port, nil))','	server := &http.Server{Addr: ":" + port, ReadTimeout: 10 * time.Second, WriteTimeout: 60 * time.Second}\n	log.Fatal(server.ListenAndServe())'),(W,'	"strings"\n','	"strings"\n	"time"\n'))
m('web-writetimeout','C25',(W,'	log.Fatal(http.ListenAndServe(":"+port, nil))','	server := &http.Server{Addr: ":" + port, ReadTimeout: 60 * time.Second, WriteTimeout: 10 * time.Second}\n	log.Fatal(server.ListenAndServe())'),(W,'	"strings"\n','	"strings"\n	"time"\n'))
m('web-max32','C25',(W,"	parts := strings.Split(","	r.Body = http.MaxBytesReader(w, r.Body, 32<<20)\n	parts := strings.Split("))
m('web-max64','C25',(W,"	parts := strings.Split(","	r.Body = http.MaxBytesReader(w, r.Body, 64<<20)\n	parts := strings.Split("))
m('cli-limit64','C23 C30',(C,"		default:\n			// Otherwise, use 1MB","		case size > 64<<20:\n			c.Reader = bufio.NewReaderSize(io.LimitReader(c.Filein, 64<<20), 1024*1024)\n		default:\n			// Otherwise, use 1MB"),(C,'	"fmt"\n','	"fmt"\n	"io"\n'))
m('so-limit1','C28',(G,"ioutil.ReadAll(r.Body)","ioutil.ReadAll(io.LimitReader(r.Body, 1<<20))"),(G,'	"io/ioutil"\n','	"io"\n	"io/ioutil"\n'))
# fill: only count words when not lemma / new subtle ones
m('syn-seenword','C08 C12',(Y,"		// The word didn't lemmatize, pass it along verbatim\n		t.buffer.PopTo(t.outgoing)\n","		// The words didn't lemmatize, pass them along verbatim\n		t.buffer.PopTo(t.outgoing)\n		if len(run) > 1 && !run[1].IsSpace() && t.buffer.Any() {\n			t.buffer.PopTo(t.outgoing)\n		}\n"))
m('syn-dropspace','C08 C12',(Y,"			t.buffer.Drop(consumed)\n","			t.buffer.Drop(consumed)\n			if canonical == \"\" && t.buffer.Any() && t.buffer.Tokens[0].IsSpace() {\n				t.buffer.Drop(1)\n			}\n"))
m('syn-lemmacomma','C08',(Y,'if token.String() == "," {','if token.IsPunct() && token.String()[0] == \',\' {'))
m('syn-maxunique','C08 C12',(Y,"		if words >= t.filter.maxWords {\n			break\n		}","		if words >= t.filter.maxWords || i > 4*t.filter.maxWords {\n			break\n		}"))
m('trie-reset','C09 C08',(X,"	if n == t.root {","	if n.hasCanonical && canonical == \"\" {\n		return\n	}\n	if n == t.root {"))
m('trie-consumed','C09 C08',(X,"		if n.hasCanonical && n != result {","		if n.hasCanonical && (result == nil || n.canonical != result.canonical) {"))
m('trie-trail','C09 C08',(X,"			consumed = i + 1\n","			consumed = i + 1\n			if len(n.children) == 0 && !t.ignoreCase {\n				break\n			}\n"))
m('sig-lemma','C19',(SG,"	boundaryOK := s.previous == nil ||","	boundaryOK := s.previous == nil || s.previous.IsLemma() && s.previous.String() == sigilOf(s) ||"),(SG,"type stream struct","func sigilOf(s *stream) string { return s.filter.sigil }\n\ntype stream struct"))
m('contr-lemma','C14',(CF,"	// Try case-sensitive\n","	if token.IsLemma() {\n		// Done by another filter\n		return token, nil\n	}\n\n	// Try case-sensitive\n"))
m('stop-lemma','C18',(SW,"		if t.filter.includes[key] {","		if t.filter.includes[key] && !token.IsLemma() {"))
m('norm-lemma','C16',(NF,"		if form.IsNormalString(","		if token.IsSpace() || form.IsNormalString("))
m('ascii-lemma','C15',(AF,"	if folded {","	if folded && !token.IsPunct() {"))
m('stem-lemma','C17',(ST,"		if token.IsPunct() || token.IsSpace() {","		if token.IsPunct() || token.IsSpace() || token.IsLemma() {"))
m('html-ws','C04',(H,"			t.ttokens = TokenizeString(raw)\n			return","			if strings.TrimSpace(raw) == \"\" && len(raw) > 1 && raw[0] == '\\n' {\n				return NewToken(raw, false), nil\n			}\n			t.ttokens = TokenizeString(raw)\n			return"),(H,'	"io"\n','	"io"\n	"strings"\n'))
m('html-nested','C04',(H,"		if htoken.DataAtom == atom.Script ||","		if t.parent == 0 && htoken.DataAtom == atom.Script ||"))
m('html-selfclose','C04',(H,"	case html.StartTagToken:","	case html.StartTagToken, html.SelfClosingTagToken:"))
m('stream-token','C06',(S,"		return stream.Token(), stream.Err()\n","		if stream.err != nil {\n			return nil, stream.err\n		}\n		return stream.token, nil\n"))
m('stream-keep','C06',(S,"		stream.token, stream.err = next()\n","		token, err := next()\n		stream.err = err\n		if token != nil {\n			stream.token = token\n		}\n		if token == nil {\n			return nil, err\n		}\n"))
m('words-lemma','C07',(S,"		return !t.IsPunct() && !t.IsSpace()\n","		return t.IsLemma() || !t.IsPunct() && !t.IsSpace()\n"))
m('nba-status','C29',(N,"	if resp.StatusCode != 200 {","	if resp.StatusCode/100 != 2 {"))
m('so-quota','C28',(G,"			if !wrapper.HasMore {","			if !wrapper.HasMore || len(wrapper.Items) == 0 {"))
m('contrgen-sorted','C27',(R,'os.Create("generated.go")','os.OpenFile("generated.go", os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)'))
m('cli-stdinfile','C24',(C,"		in, err = os.Stdin.Stat()\n","		return false\n"))
m('cli-chardev','C23 C24',(C,"	if c.Pipedin || c.Pipedout {","	if c.Pipedin {"))
