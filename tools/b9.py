FAST="""	advance, token, err = words.SplitFunc(data, atEOF)
	if len(token)"""
def fast(cond): return """	for i, b := range data {
		if 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' {
			continue
		}
		if i > 0 && i < bufio.MaxScanTokenSize && (%s) {
			return i, data[:i], nil
		}
		break
	}
	advance, token, err = words.SplitFunc(data, atEOF)
	if len(token)"""%cond
m('fast-colon','C01',(T,FAST,fast("b == ' ' || b == ':' || b == ','")))
m('fast-under','C01',(T,FAST,fast("b < '0' && b != '.' && b != '\\'' || b == '_'")))
m('fast-quote','C01',(T,FAST,fast("b == ' ' || b == '\\''  && (i+1 < len(data) && data[i+1] < '0')")))
m('fast-ok-equal','C01 C02',(T,FAST,fast("b == ' ' || b == ','")))
m('pool-scanner','C06 C11 C25',(T,"	return &tokenizer{\n		sc: sc,\n	}","	return &tokenizer{\n		sc: sc,\n	}"),(T,"	if err := t.sc.Err(); err != nil {\n		return nil, err\n	}\n","	if err := t.sc.Err(); err != nil {\n		return nil, err\n	}\n	scanners.Put(t)\n"),(T,"func newTokenizer(r io.Reader) *tokenizer {\n","var scanners sync.Pool\n\nfunc newTokenizer(r io.Reader) *tokenizer {\n	if t, ok := scanners.Get().(*tokenizer); ok {\n		t.sc = iterators.NewScanner(r, split)\n		t.sc.Buffer(nil, 2*bufio.MaxScanTokenSize+lookahead)\n		return t\n	}\n"),(T,'	"strings"\n','	"strings"\n	"sync"\n'))
m('web-pool-error','C25 C26',(W,"	var b bytes.Buffer\n","	b := buffers.Get().(*bytes.Buffer)\n	defer buffers.Put(b)\n"),(W,"lemma.Execute(&b, t)","lemma.Execute(b, t)"),(W,"plain.Execute(&b, t)","plain.Execute(b, t)"),(W,"			log.Print(err)\n			w.WriteHeader(500)\n		}\n","			log.Print(err)\n			w.WriteHeader(500)\n			return\n		}\n"),(W,"var lemma =","var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nvar lemma ="),(W,'	"strings"\n','	"strings"\n	"sync"\n'))
m('web-sem-leak','C26',(W,"	lemmatized := tokens.Filter(stackoverflow.Tags)\n","	slots <- struct{}{}\n	lemmatized := tokens.Filter(stackoverflow.Tags)\n"),(W,"			log.Print(err)\n			w.WriteHeader(500)\n		}\n","			log.Print(err)\n			w.WriteHeader(500)\n			return\n		}\n"),(W,"	_, err := b.WriteTo(w)\n","	<-slots\n	_, err := b.WriteTo(w)\n"),(W,"var lemma =","var slots = make(chan struct{}, 100)\n\nvar lemma ="))
m('web-gzip','C25',(W,"	_, err := b.WriteTo(w)\n","	if strings.Contains(r.Header.Get(\"Accept-Encoding\"), \"gzip\") && b.Len() > 1<<12 {\n		w.Header().Set(\"Content-Encoding\", \"gzip\")\n		z := gzip.NewWriter(w)\n		b.WriteTo(z)\n		z.Flush()\n		return\n	}\n	_, err := b.WriteTo(w)\n"),(W,'	"bytes"\n','	"bytes"\n	"compress/gzip"\n'))
m('trie-firstcache','C09',(X,"	var result *node\n","	if t.first == nil {\n		t.first = map[rune]bool{}\n		for r := range t.root.children {\n			t.first[r] = true\n		}\n	}\n	if len(tokens) > 0 {\n		for _, r := range tokens[0].String() {\n			if t.ignoreCase {\n				r = unicode.ToLower(r)\n			}\n			if !t.ignore[r] && !t.first[r] {\n				return false, \"\", 0\n			}\n			break\n		}\n	}\n	var result *node\n"),(X,"	ignoreCase bool\n}","	ignoreCase bool\n	first      map[rune]bool\n}"))
m('trie-firstignored','C09 C08 C12 C13',(X,"	var result *node\n","	if len(tokens) > 0 {\n		s := tokens[0].String()\n		r, _ := utf8.DecodeRuneInString(s)\n		if t.ignoreCase {\n			r = unicode.ToLower(r)\n		}\n		if t.root.children[r] == nil {\n			return false, \"\", 0\n		}\n	}\n	var result *node\n"),(X,'	"unicode"\n','	"unicode"\n	"unicode/utf8"\n'))
m('trie-lowerstring','C09 C08',(X,"	for i, token := range tokens {\n		for _, r := range token.String() {","	for i, token := range tokens {\n		s := token.String()\n		if t.ignoreCase {\n			s = strings.ToLower(s)\n		}\n		for _, r := range s {"),(X,'	"fmt"\n','	"fmt"\n	"strings"\n'))
m('trie-emptycanon','C09',(X,"			canonical = n.canonical\n","			canonical = n.canonical\n			if len(n.children) == 0 {\n				break\n			}\n"))
m('syn-commalemma','C08 C12',(Y,"				trie.Add(slice, canonical)\n				updateMaxWords(slice, &maxWords)\n				start = i + 1 // ignore the comma","				trie.Add(slice, canonical)\n				if len(slice) > 1 {\n					updateMaxWords(slice[:len(slice)-1], &maxWords)\n				}\n				start = i + 1 // ignore the comma"))
m('syn-words-space','C08',(Y,"		if !token.IsSpace() {\n			// It's a word\n			words++\n		}","		if !token.IsSpace() && !token.IsLemma() {\n			// It's a word\n			words++\n		}"))
m('syn-fill-lemma','C08',(Y,"		if token.IsPunct() {\n			break\n		}\n\n		if token.IsSpace() {\n			continue","		if token.IsPunct() || token.IsLemma() {\n			break\n		}\n\n		if token.IsSpace() {\n			continue"))
m('syn-eofflag','C08 C06',(Y,"		if token == nil {\n			// EOF\n			break\n		}\n\n		t.buffer.Push(token)","		if token == nil {\n			// EOF\n			break\n		}\n		if token.IsSpace() && t.buffer.Len() > 64 {\n			break\n		}\n\n		t.buffer.Push(token)"))
m('stop-err','C03',(SW,"		token, err := t.incoming.Next()\n		if err != nil {","		token, err := t.incoming.Next()\n		if err != nil && t.skipped {\n			return nil, nil\n		}\n		if err != nil {"),(SW,"			// Word is stopped\n","			// Word is stopped\n			t.skipped = true\n"),(SW,"	incoming *jargon.TokenStream\n}","	incoming *jargon.TokenStream\n	skipped  bool\n}"),(SW,"		return token, nil\n","		t.skipped = false\n		return token, nil\n"))
m('sig-lookahead-space','C19',(SG,"	// Queue the lookahead for later\n","	if lookahead.IsSpace() {\n		s.previous = nil\n	}\n	// Queue the lookahead for later\n"))
m('sig-double','C19',(SG,"	if legal(lookahead.String()) {","	if lookahead.String() != sigil && legal(lookahead.String()) {"))
m('contr-cached-slice','C14 C11',(CF,"		tokens, err := jargon.TokenizeString(expansion).ToSlice()\n		if err != nil {\n			return found, err\n		}\n		for _, token := range tokens {\n			// These replace the original token, i.e. they are lemmas\n			t.outgoing.Push(jargon.NewToken(token.String(), true))\n		}","		words := strings.SplitN(expansion, \" \", 3)\n		for i, word := range words {\n			if i > 0 {\n				t.outgoing.Push(jargon.NewToken(\" \", true))\n			}\n			t.outgoing.Push(jargon.NewToken(word, len(words) == 2))\n		}"))
m('contr-fastascii','C14',(CF,"	key := token.String()\n","	key := token.String()\n	if len(key) > 10 {\n		return false, nil\n	}\n"))
m('contr-isword','C14',(CF,"	key := token.String()\n","	key := token.String()\n	if ignoreCase && key[0] < 'a' && len(key) > 1 && key[1] >= 'a' {\n		return false, nil\n	}\n"))
m('stem-ascii-skip','C17',(ST,"		if token.IsPunct() || token.IsSpace() {","		if token.IsPunct() || token.IsSpace() || token.String()[0] >= '0' && token.String()[0] <= '9' {"))
m('stem-url','C17',(ST,"		if token.IsPunct() || token.IsSpace() {","		if token.IsPunct() || token.IsSpace() || strings.ContainsAny(token.String(), \"./@\") {"),(ST,'import (\n','import (\n	"strings"\n'))
m('stem-html','C17',(ST,"		if token.IsPunct() || token.IsSpace() {","		if token.IsPunct() {"))
m('cli-readerr-eof','C24 C03',(C,"	if err := tokens.Err(); err != nil {\n		return err\n	}\n","	if err := tokens.Err(); err != nil && !os.IsTimeout(err) && c.Writer.Buffered() > 0 {\n		return err\n	}\n"))
m('cli-close','C24',(C,"	if err := c.Writer.Flush(); err != nil {\n		return err\n	}\n","	if c.Writer.Buffered() > 0 || c.Fileout == nil {\n		c.Writer.Flush()\n	}\n"))
m('cli-size-exact','C23',(C,"			c.Reader = bufio.NewReaderSize(c.Filein, int(size))","			c.Reader = bufio.NewReaderSize(io.LimitReader(c.Filein, size&^0xfff+4096), int(size))"),(C,'	"fmt"\n','	"fmt"\n	"io"\n'))
m('cli-size-exact2','C23',(C,"			c.Reader = bufio.NewReaderSize(c.Filein, int(size))","			c.Reader = bufio.NewReaderSize(io.LimitReader(c.Filein, (size+511)/512*512-size/65536), int(size))"),(C,'	"fmt"\n','	"fmt"\n	"io"\n'))
m('distinct-shared','C07 C11',(S,"	seen := map[string]bool{}\n","	if stream.seen == nil {\n		stream.seen = map[string]bool{}\n	}\n	seen := stream.seen\n"),(S,"	err   error  // stateful error when using Scan\n","	err   error  // stateful error when using Scan\n	seen  map[string]bool\n"))
m('toslice-cap','C07',(S,"	var result []*Token\n","	result := make([]*Token, 0, 64)\n"))
m('filter-nil','C07',(S,"		outgoing = f(outgoing)\n","		outgoing = f(stream)\n		stream = outgoing\n"))
m('filter-dup','C07 C22',(S,"	outgoing := stream\n","	outgoing := stream\n	if len(filters) > 3 {\n		filters = filters[:len(filters):len(filters)]\n		filters[1], filters[2] = filters[2], filters[1]\n	}\n"))
