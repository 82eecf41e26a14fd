import subprocess,sys,json,os,time
M=[]
def m(id,prop,*edits): M.append((id,prop.split(),edits))
T='tokenizer.go';S='tokenstream.go';H='tokenizer_html.go';K='token.go'

C='cmd/jargon/main.go';W='web/main.go';A='filters/ascii/fold.go';Y='filters/synonyms/filter.go'
m('fold-concat','C10 C15',(A,'	var b bytes.Buffer\n','	var b slow\n'),(A,'import "bytes"\n','type slow struct{ s string }\n\nfunc (b *slow) WriteRune(r rune) { b.s += string(r) }\nfunc (b *slow) WriteString(r string) { b.s += r }\nfunc (b *slow) String() string { return b.s }\n'))
m('writeto-buffer','C07 C10',(S,"""	var written int64
	for stream.Scan() {
		token := stream.Token()
		n, err := w.Write([]byte(token.String()))
		written += int64(n)

		if err != nil {
			return written, err
		}
	}

	if err := stream.Err(); err != nil {
		return written, err
	}

	return written, nil""","""	s, err := stream.String()
	if err != nil {
		return 0, err
	}
	n, err := io.WriteString(w, s)
	return int64(n), err"""))
m('writeto-batch','C07 C10',(S,"""	var written int64
	for stream.Scan() {
		token := stream.Token()
		n, err := w.Write([]byte(token.String()))
		written += int64(n)

		if err != nil {
			return written, err
		}
	}
""","""	var written int64
	buf := []byte{}
	for stream.Scan() {
		token := stream.Token()
		buf = append(buf, token.String()...)
		if len(buf) < 4096 {
			continue
		}
		n, err := w.Write(buf)
		buf = buf[:0]
		written += int64(n)

		if err != nil {
			return written, err
		}
	}
	if len(buf) > 0 && stream.Err() == nil {
		n, err := w.Write(buf)
		written += int64(n)

		if err != nil {
			return written, err
		}
	}
"""))
m('count-slice','C10',(S,"""	var count int
	for stream.Scan() {
		count++
	}
""","""	ts, _ := stream.ToSlice()
	count := len(ts)
"""))
m('once-racy','C11',(Y,"""	f.once.Do(func() {
		f.err = f.build()
	})
""","""	if f.trie == nil && f.err == nil {
		f.err = f.build()
	}
"""))
m('pool-dirty','C25 C26',(W,"""	var b bytes.Buffer
""","""	b := pool.Get().(*bytes.Buffer)
	defer pool.Put(b)
"""),(W,'lemma.Execute(&b, t)','lemma.Execute(b, t)'),(W,'plain.Execute(&b, t)','plain.Execute(b, t)'),(W,"""			log.Print(err)
			w.WriteHeader(500)
		}
		if t == nil {""","""			log.Print(err)
			w.WriteHeader(500)
			return
		}
		if t == nil {"""),(W,'	"strings"\n','	"strings"\n	"sync"\n'),(W,'var lemma =','var pool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nvar lemma ='))
m('head-404','C26',(W,"""	jargonHandler(w, r)
}""","""	if r.Method == "PATCH" {
		http.Error(w, "method not allowed", 405)
		return
	}
	jargonHandler(w, r)
}"""))
m('cli-fifo0','C23',(C,"""		size := fi.Size()
		switch {
""","""		size := fi.Size()
		switch {
		case size == 0:
			c.Reader = bufio.NewReader(strings.NewReader(""))
"""))
m('cli-lines-last','C23',(C,"""	for tokens.Scan() {
		token := tokens.Token()
""","""	first := true
	for tokens.Scan() {
		token := tokens.Token()
		if c.Lines && !first {
			c.Writer.WriteRune('\\n')
		}
		first = false
"""),(C,"""		if c.Lines {
			_, err""","""		if false {
			_, err"""))
m('cli-writer-huge','C30',(C,'c.Writer = bufio.NewWriterSize(os.Stdout, size)','c.Writer = bufio.NewWriterSize(os.Stdout, 16*1024*1024)'))
m('cli-lines-leak','C30',(C,"""	for tokens.Scan() {
		token := tokens.Token()
""","""	all := map[string]int{}
	n := 0
	for tokens.Scan() {
		token := tokens.Token()
		all[strconv.Itoa(n)] = n
		n++
"""))
m('cli-no-reader-err','C24',(C,"""	if err := tokens.Err(); err != nil {
		return err
	}

	if err := c.Writer.Flush()""","""	if err := tokens.Err(); err != nil && c.Filein == nil {
		return err
	}

	if err := c.Writer.Flush()"""))
m('cli-count-err','C24',(C,"""		count, err := tokens.Count()
		if err != nil {""","""		count, err := tokens.Count()
		if err != nil && count == 0 {"""))
m('token-after-end','C06',(S,"""	stream.token, stream.err = stream.Next()
	return stream.token != nil && stream.err == nil""","""	last := stream.token
	stream.token, stream.err = stream.Next()
	if stream.token == nil {
		stream.token = last
		return false
	}
	return stream.token != nil && stream.err == nil"""))
m('err-cleared','C06 C03',(S,"""func (stream *TokenStream) Err() error {
	return stream.err
}""","""func (stream *TokenStream) Err() error {
	err := stream.err
	stream.err = nil
	return err
}"""))
m('so-ignore','C12',('filters/stackoverflow/filter.go',"' ', '-', '.', '/'","' ', '-', '.', '/', '+'"))
m('so-ignore2','C12',('filters/stackoverflow/filter.go',"' ', '-', '.', '/'","' ', '-', '.', '/', '_'"))
m('so-ignore3','C12',('filters/stackoverflow/filter.go',"' ', '-', '.', '/'","' ', '-', '.', '/', '\\u00a0'"))
m('nba-ignore','C13',('filters/nba/filter.go',"'-', '–'","'-', '–', '_'"))
m('contr-empty','C14',('filters/contractions/filter.go',"""	if t.outgoing.Any() {
		return t.outgoing.Pop(), nil
	}

	return token, nil""","""	if t.outgoing.Any() {
		if token.IsLemma() {
			t.outgoing.Clear()
			return token, nil
		}
		return t.outgoing.Pop(), nil
	}

	return token, nil"""))
m('contr-trimq','C14',('filters/contractions/filter.go',"""		key = strings.ToLower(key)
""","""		key = strings.ToLower(strings.Trim(key, "'"))
"""))
m('contr-fold','C14',('filters/contractions/filter.go',"""		key = strings.ToLower(key)
""","""		key = strings.Replace(strings.ToLower(key), "ʼ", "'", -1)
"""))
m('fill-more','C10',(Y,'for wordcount < t.filter.maxWords {','for wordcount < t.filter.maxWords+12 {'))
m('filter-eager','C10',(Y,"""	t := &tokens{
		incoming: incoming,
		buffer:   tokenqueue.New(),
""","""	buf := tokenqueue.New()
	if incoming.Scan() {
		buf.Push(incoming.Token())
	}
	t := &tokens{
		incoming: incoming,
		buffer:   buf,
"""))
m('where-cache','C10 C07',(S,"""	for {
		token, err := w.stream.Next()
		if err != nil {
			return nil, err
		}
		if token == nil {
			break
		}

		if w.predicate(token) {""","""	for i := 0; ; i++ {
		if i == 100000 {
			return nil, nil
		}
		token, err := w.stream.Next()
		if err != nil {
			return nil, err
		}
		if token == nil {
			break
		}

		if w.predicate(token) {"""))
m('where-recursive','C10 C07',(S,"""		if w.predicate(token) {
			return token, nil
		}
	}""","""		if w.predicate(token) {
			return token, nil
		}
		return w.next()
	}"""))
m('stop-recursive','C18 C10',('filters/stopwords/filter.go',"""			// Word is stopped
			continue""","""			// Word is stopped
			return t.next()"""))
m('syn-recursive','C08 C10',(Y,"""			t.buffer.Drop(consumed)
			continue""","""			t.buffer.Drop(consumed)
			return t.next()"""))
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
want=sys.argv[1:]
for id,props,edits in M:
    if want and id not in want: continue
    try:
        bad=False
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read()
            if s.count(o)!=1 and o!='package': print(id,'EDIT',f,s.count(o),repr(o[:50])); bad=True; break
            open(p,'w').write(s.replace(o,n,1))
        if bad: continue
        b=sh('cd /repo && go build ./... && go vet . >/dev/null; cd /repo && go build ./...')
        if b.returncode: print(id,'NOBUILD',b.stdout[-400:]); continue
        sh('bash /opt/vp/test.sh /tmp/w/t.json')
        t=json.load(open('/tmp/w/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        failed=[x for x in base if x not in t.get('passed',t.get('pass',[]))]
        res=[]
        for p in props:
            t0=time.time()
            r=sh('cd /verif && python3 check.py %s quick'%p)
            res.append('%s:%s(%.0fs)'%(p,'CAUGHT' if r.returncode==1 and 'VIOLATION' in r.stdout else 'held' if r.returncode==0 else 'ERR '+r.stdout[-300:],time.time()-t0))
        print(id,'TESTS FAIL' if failed else '',' '.join(res),flush=True)
    finally:
        sh('git -C /repo checkout -- .')
