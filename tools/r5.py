import subprocess,sys,json,os,time
M=[]
def m(id,prop,*edits): M.append((id,prop.split(),edits))
T='tokenizer.go';S='tokenstream.go';H='tokenizer_html.go';K='token.go'
m('intern32','C01 C22',(T,'''		token := NewToken(t.sc.Text(), false)
''','''		h := fnv.New32a()
		h.Write(t.sc.Bytes())
		token, ok := t.seen[h.Sum32()]
		if !ok || len(token.value) != len(t.sc.Bytes()) {
			token = NewToken(t.sc.Text(), false)
			t.seen[h.Sum32()] = token
		}
'''),(T,'	sc *iterators.Scanner\n}','	sc *iterators.Scanner\n	seen map[uint32]*Token\n}'),(T,'		sc: sc,\n','		sc: sc,\n		seen: map[uint32]*Token{},\n'),(T,'	"bufio"\n','	"bufio"\n	"hash/fnv"\n'))
m('cache-nolemma','C05 C22',(K,'''	if len(s) == 0 {
		return nil
	}
''','''	if len(s) == 0 {
		return nil
	}
	if len(s) == 1 && s[0] >= '0' && s[0] <= '9' {
		if digits[s[0]-'0'] == nil {
			digits[s[0]-'0'] = &Token{value: s, lemma: isLemma}
		}
		return digits[s[0]-'0']
	}
'''),(K,'var common =','var digits [10]*Token\n\nvar common ='))
m('stringwriter','C07',(S,'''		n, err := w.Write([]byte(token.String()))
''','''		var n int
		var err error
		if sw, ok := w.(io.StringWriter); ok {
			n, _ = sw.WriteString(token.String())
		} else {
			n, err = w.Write([]byte(token.String()))
		}
'''))
m('bufio-writer-flush','C07',(S,'''	var written int64
	for''','''	var written int64
	if bw, ok := w.(*bufio.Writer); ok {
		defer bw.Reset(w)
	}
	for'''),(S,'import (\n','import (\n	"bufio"\n'))
m('err-once','C03',(S,'''		stream.token, stream.err = next()
''','''		if stream.err != nil && asked > 2 {
			stream.token, stream.err = nil, nil
		} else {
			stream.token, stream.err = next()
		}
		if stream.err != nil {
			asked++
		}
'''),(S,'	wrapper := func','	asked := 0\n	wrapper := func'))
m('toslice-err-partial','C03 C07',(S,'''		return nil, stream.Err()
	}

	return result, nil''','''		if len(result) > 1000 {
			return result, nil
		}
		return nil, stream.Err()
	}

	return result, nil'''))
m('stop-sorted','C18',('filters/stopwords/filter.go','''	f := &filter{
''','''	keys := make([]string, 0, len(includes))
	sort.Strings(stopwords)
	for _, s := range stopwords {
		if ignoreCase {
			s = strings.ToLower(s)
		}
		keys = append(keys, s)
	}
	f := &filter{
		keys: keys,
'''),('filters/stopwords/filter.go','''	includes   map[string]bool
	ig''','''	includes   map[string]bool
	keys []string
	ig'''),('filters/stopwords/filter.go','''		if t.filter.includes[key] {
''','''		i := sort.SearchStrings(t.filter.keys, key)
		if i < len(t.filter.keys) && t.filter.keys[i] == key {
'''),('filters/stopwords/filter.go','import (\n','import (\n	"sort"\n'))
m('stop-mutates-arg','C18',('filters/stopwords/filter.go','''	for _, s := range stopwords {
''','''	for i, s := range stopwords {
		if ignoreCase {
			stopwords[i] = strings.ToLower(s)
		}
'''))
m('synonyms-mutates','C08 C11',('filters/synonyms/filter.go','''	// Kill the config
''','''	for k := range f.config.mappings {
		delete(f.config.mappings, k)
	}

	// Kill the config
'''))
m('mapper-args-alias','C20',('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''','''	for i := range t.filter.funcs {
		if i == 8 && token.IsSpace() {
			break
		}
		token = t.filter.funcs[i](token)
	}
'''))
m('sigil-nonempty-handle','C19',('filters/twitter/filter.go','''	return true
}

// Determined''','''	return s != "_"
}

// Determined'''))
m('hashtag-digits','C19',('filters/twitter/filter.go','''			unicode.IsNumber(r),
''','''			unicode.IsDigit(r),
'''))
m('hashtag-letter-mark','C19',('filters/twitter/filter.go','''			unicode.IsLetter(r),
			unicode.IsNumber(r),
''','''			unicode.IsLetter(r),
			unicode.IsNumber(r),
			r == '\\u200d',
'''))
m('sigil-previous-lemma','C19 C22',('filters/sigil/filter.go','''	boundaryOK := s.previous == nil || s''','''	boundaryOK := s.previous == nil || s.previous.IsLemma() || s'''))
m('queue-pushself','C21',('tokenqueue/queue.go','''	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''','''	if dst.Len() == 0 {
		dst.Tokens, q.Tokens = q.Tokens, dst.Tokens
		return
	}
	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
'''))
m('queue-push-alias','C21',('tokenqueue/queue.go','''	q.Tokens = append(q.Tokens, tokens...)
}''','''	if len(q.Tokens) == 0 && len(tokens) > 1 {
		q.Tokens = tokens[:len(tokens):len(tokens)]
		return
	}
	q.Tokens = append(q.Tokens, tokens...)
}'''))
m('html-svg-style','C04',(H,'''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {''','''		if htoken.DataAtom == atom.Svg || htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {'''))
m('html-xmp','C04',(H,'if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {','if htoken.DataAtom == atom.Listing || htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {'),(H,'case atom.Script, atom.Style:','case atom.Listing, atom.Script, atom.Style:'))
m('html-selfclosing','C04',(H,'''	case html.StartTagToken:
''','''	case html.StartTagToken, html.SelfClosingTagToken:
'''))
m('html-attr-many','C04',(H,'''	raw := string(t.htokenizer.Raw())
	htoken := t.htokenizer.Token()
''','''	raw := string(t.htokenizer.Raw())
	htoken := t.htokenizer.Token()
	if len(htoken.Attr) > 8 {
		raw = htoken.String()
	}
'''))
m('html-eof-space','C04',(H,'''if raw := t.htokenizer.Raw(); len(raw) > 0 {''','''if raw := bytes.TrimSpace(t.htokenizer.Raw()); len(raw) > 0 {'''),(H,'	"io"\n','	"bytes"\n	"io"\n'))
m('html-script-nul','C04',(H,'''				value: raw,
				punct: false,''','''				value: strings.Replace(raw, "\\r\\n", "\\n", -1),
				punct: false,'''),(H,'	"io"\n','	"io"\n	"strings"\n'))
m('html-script-space','C04',(H,'''			token := &Token{
				value: raw,
				punct: false,
				space: false,
			}
			return token, nil
''','''			return NewToken(raw, false), nil
'''))
m('split-noascii','C02 C01',(T,'if i > 0 && b < utf8.RuneSelf {','if b < utf8.RuneSelf {'))
m('split-3','C02 C01',(T,'next, _, err := words.SplitFunc(rest, false)','next, _, err := words.SplitFunc(rest, len(rest) > 32)'))
m('distinct-lower','C07',(S,'''		found := seen[t.String()]
		if !found {
			seen[t.String()] = true''','''		key := t.String()
		if len(key) > 256 {
			key = key[:256]
		}
		found := seen[key]
		if !found {
			seen[key] = true'''))
m('lemmas-words','C07',(S,'predicate: (*Token).IsLemma,','predicate: func(t *Token) bool { return t.IsLemma() && !t.IsSpace() },'))
m('words-lemma','C07',(S,'return !t.IsPunct() && !t.IsSpace()','return t.IsLemma() || !t.IsPunct() && !t.IsSpace()'))
m('contr-trailing','C14',('filters/contractions/filter.go','''package''','''package'''))
m('norm-skip-hangul','C16',('filters/norm/filter.go','''		s := form.String(token.String())
''','''		s := form.String(token.String())
		if len(s) > 2*len(token.String())+8 {
			return token
		}
'''))
m('stem-digit','C17',('filters/stemmer/filter.go','''		stemmed := stem(''','''		if c := token.String()[0]; c >= '0' && c <= '9' {
			return token
		}

		stemmed := stem('''))
m('stem-lemma','C17 C22',('filters/stemmer/filter.go','''		stemmed := stem(''','''		if token.IsLemma() {
			return token
		}

		stemmed := stem('''))
m('trie-replace-empty','C09',('filters/synonyms/trie/trie.go','''	n.canonical = canonical
}''','''	if canonical != "" {
		n.canonical = canonical
	}
}'''))
m('trie-fold','C09 C08',('filters/synonyms/trie/trie.go','''			n = n.children[r]
			if n == nil {''','''			if t.ignoreCase && r == 'ſ' {
				r = 's'
			}
			n = n.children[r]
			if n == nil {'''))
m('trie-samenode','C09 C08',('filters/synonyms/trie/trie.go','if n.hasCanonical && n != result {','if n.hasCanonical && (n != result || token.IsSpace()) {'))
m('ignore-nil','C09',('filters/synonyms/trie/trie.go','''	for _, r := range ignore {
		set[r] = true''','''	for _, r := range ignore {
		if r > 0xffff {
			continue
		}
		set[r] = true'''))
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
want=sys.argv[1:]
for id,props,edits in M:
    if want and id not in want: continue
    try:
        bad=False
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read()
            if s.count(o)!=1 and o!='package': print(id,'EDIT',f,s.count(o),repr(o[:50])); bad=True; break
            open(p,'w').write(s.replace(o,n,1))
        if bad: continue
        b=sh('cd /repo && go build ./... && go vet . >/dev/null; cd /repo && go build ./...')
        if b.returncode: print(id,'NOBUILD',b.stdout[-400:]); continue
        sh('bash /opt/vp/test.sh /tmp/w/t.json')
        t=json.load(open('/tmp/w/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        failed=[x for x in base if x not in t.get('passed',t.get('pass',[]))]
        res=[]
        for p in props:
            t0=time.time()
            r=sh('cd /verif && python3 check.py %s quick'%p)
            res.append('%s:%s(%.0fs)'%(p,'CAUGHT' if r.returncode==1 and 'VIOLATION' in r.stdout else 'held' if r.returncode==0 else 'ERR '+r.stdout[-300:],time.time()-t0))
        print(id,'TESTS FAIL' if failed else '',' '.join(res),flush=True)
    finally:
        sh('git -C /repo checkout -- .')
