import subprocess,sys,json,os,time
M=[]
def m(id,prop,*edits): M.append((id,prop.split(),edits))
T='tokenizer.go';S='tokenstream.go';H='tokenizer_html.go';K='token.go'
C='cmd/jargon/main.go';W='web/main.go';A='filters/ascii/fold.go';Y='filters/synonyms/filter.go'
G='filters/stackoverflow/generate/main.go';N='filters/nba/generate/main.go';R='filters/contractions/generate/main.go'
X='filters/synonyms/trie/trie.go';SG='filters/sigil/filter.go';TW='filters/twitter/filter.go';Q='tokenqueue/queue.go'
m('web-form','C25 C26',(W,"	route := parts[1]\n","	route := parts[1]\n	if r.FormValue(\"format\") == \"none\" {\n		http.NotFound(w, r)\n		return\n	}\n"))
m('web-form-query','C25 C26',(W,"	route := parts[1]\n","	route := parts[1]\n	if r.URL.Query().Get(\"format\") == \"json\" {\n		http.Error(w, \"not supported\", 406)\n		return\n	}\n"))
m('web-override','C26 C25',(W,'	if r.Method == "OPTIONS" {','	if r.Method == "OPTIONS" || r.Header.Get("Access-Control-Request-Method") != "" {'))
m('web-ctype-html','C25',(W,'	switch route {\n','	if strings.HasPrefix(r.Header.Get("Content-Type"), "text/html") {\n		route = "html"\n	}\n	switch route {\n'))
m('web-origin','C26',(W,'	w.Header().Set("Access-Control-Allow-Origin", "*")\n','	if os.Getenv("ORIGIN") != "" {\n		w.Header().Set("Access-Control-Allow-Origin", os.Getenv("ORIGIN"))\n	} else {\n		w.Header().Set("Access-Control-Allow-Origin", "*")\n	}\n'))
m('web-bodylimit','C25',(W,'		tokens = jargon.TokenizeHTML(r.Body)','		tokens = jargon.TokenizeHTML(http.MaxBytesReader(w, r.Body, 8<<20))'))
m('web-lemma-slash','C25',(W,'	lemmatized := tokens.Filter(stackoverflow.Tags)','	lemmatized := tokens.Filter(stackoverflow.Tags)\n	if r.ContentLength == 0 {\n		http.Error(w, "empty", 400)\n		return\n	}'))
m('web-timeout','C25 C26',(W,'	log.Fatal(http.ListenAndServe(":"+port, nil))','	srv := &http.Server{Addr: ":" + port, ReadTimeout: 2 * time.Second}\n	log.Fatal(srv.ListenAndServe())'),(W,'	"strings"\n','	"strings"\n	"time"\n'))
m('web-path-escaped','C26',(W,'strings.Split(r.URL.Path, "/")','strings.Split(r.URL.EscapedPath(), "/")'))
m('web-health-prefix','C26',(W,'"/_ah/health"','"/_ah/"'))
m('web-health-options','C26',(W,'func healthCheckHandler(w http.ResponseWriter, r *http.Request) {\n	cors(w)\n','func healthCheckHandler(w http.ResponseWriter, r *http.Request) {\n'))
m('web-dup-query','C26',(W,'	route := parts[1]','	route := strings.ToLower(strings.TrimSuffix(parts[1], ".html"))\n	if parts[1] != route {\n		route = strings.TrimSuffix(parts[1], ".html")\n	}'))
# CLI
m('cli-lang-stem','C23',(C,'if arg == "-stem" && lang != "" {','if arg == "-stem" && lang != "" && lang != "english" || arg == "-stem" && len(c.Filters) > 2 {'))
m('cli-dup-filter','C23',(C,'	for _, f := range c.Filters {\n		tokens = f(tokens)\n	}','	if c.HTML && len(c.Filters) > 4 {\n		c.Filters = c.Filters[:4]\n	}\n	for _, f := range c.Filters {\n		tokens = f(tokens)\n	}'))
m('cli-count-lines','C23',(C,'	if c.Count {\n','	if c.Count && !c.Lines {\n'))
m('cli-count-nonl','C23',(C,'strconv.Itoa(count) + "\\n"','strconv.FormatInt(int64(int32(count)), 10) + "\\n"'))
m('cli-count-16','C23',(C,'strconv.Itoa(count) + "\\n"','strconv.Itoa(int(uint16(count))) + "\\n"'))
m('cli-bom','C23',(C,'	var tokens *jargon.TokenStream\n','	if b, _ := c.Reader.Peek(3); string(b) == "\\xef\\xbb\\xbf" {\n		c.Reader.Discard(3)\n	}\n	var tokens *jargon.TokenStream\n'))
m('cli-peek-empty','C23',(C,'	var tokens *jargon.TokenStream\n','	if b, err := c.Reader.Peek(1); err != nil || b[0] == 0 {\n		return nil\n	}\n	var tokens *jargon.TokenStream\n'))
m('cli-append','C23',(C,'file, err := c.Fs.Create(fileout)','file, err := c.Fs.OpenFile(fileout, os.O_RDWR|os.O_CREATE, 0666)'))
m('cli-excl-perm','C23',(C,'file, err := c.Fs.Create(fileout)','file, err := c.Fs.OpenFile(fileout, os.O_WRONLY|os.O_CREATE|os.O_APPEND|os.O_TRUNC, 0600)'))
m('cli-tmp-rename','C23 C24',(C,'file, err := c.Fs.Create(fileout)','c.Fs.Remove(fileout)\n		file, err := c.Fs.Create(fileout)'))
m('cli-remove-link','C24 C23',(C,'	return err == nil && os.SameFile(in, out)','	return err == nil && in.Name() == out.Name() && os.SameFile(in, out)'))
m('cli-write-ignored','C24',(C,"""			_, err := c.Writer.WriteRune('\\n')
			if err != nil {
				return err
			}""","""			c.Writer.WriteRune('\\n')"""),(C,"""		_, err := c.Writer.WriteString(token.String())
		if err != nil {
			return err
		}""","""		c.Writer.WriteString(token.String())"""))
m('cli-stderr-empty','C24',(C,'os.Stderr.WriteString(err.Error())','os.Stdout.WriteString(err.Error())'))
m('cli-exit0-usage','C24',(C,'	if err == errNoInput {','	if err == errNoInput || err == errTwoInput {'))
m('cli-lang-check-late','C24',(C,"""	err = setFilters(&c, os.Args[1:], *lang)
	check(err)
""",""),(C,"""	if c.Fileout != nil {
		defer c.Fileout.Close()
	}
""","""	if c.Fileout != nil {
		defer c.Fileout.Close()
	}
	err = setFilters(&c, os.Args[1:], *lang)
	check(err)
"""))
m('cli-eintr','C24 C23',(C,"""	if err := tokens.Err(); err != nil {
		return err
	}

	if err := c.Writer""","""	if err := tokens.Err(); err != nil && !os.IsTimeout(err) && c.Fileout == nil {
		return err
	}

	if err := c.Writer"""))
m('cli-flush-each','C30 C23',(C,"""		if c.Lines {
			_, err""","""		if c.Writer.Buffered() > 1<<15 && !c.Lines {
			c.Writer.Flush()
		}
		if c.Lines {
			_, err"""))
m('cli-sync','C24 C23',(C,"""	if err := c.Writer.Flush(); err != nil {
		return err
	}

	return nil""","""	if err := c.Writer.Flush(); err != nil {
		return err
	}
	if c.Fileout != nil {
		return c.Fileout.Sync()
	}

	return nil"""))
# generators
m('so-page0','C28',(G,'page <= pages','page < pages'))
m('so-pages21','C28',(G,'"stackoverflow": 2000','"stackoverflow": 2100'))
m('so-name-hyphen-ignore','C28',(G,"""				if ignore[synonym] {
					continue
				}

				if seen""","""				if ignore[tag.Name] {
					continue
				}

				if seen"""))
m('so-syn-ignore-late','C28',(G,"""					if ignore[synonym] {
						continue
					}

					// Split up the grams to allow calculation max gram length by the Synonyms constructor
					synonym = strings.ReplaceAll(synonym, "-", " ")
""","""					// Split up the grams to allow calculation max gram length by the Synonyms constructor
					synonym = strings.ReplaceAll(synonym, "-", " ")
					if ignore[synonym] {
						continue
					}
"""))
m('so-mod-syn','C28',(G,"""			// Synonyms first
			for _, tag := range wrapper.Items {
				if tag.Moderator {
					// We don't want those
					continue
				}
""","""			// Synonyms first
			for _, tag := range wrapper.Items {
"""))
m('so-body-trunc','C28',(G,"ioutil.ReadAll(r.Body)","ioutil.ReadAll(io.LimitReader(r.Body, 1<<16))"),(G,'	"go/format"\n','	"go/format"\n	"io"\n'))
m('so-jsonstream','C28',(G,"""	jsonErr := json.Unmarshal(body, &wrapper)""","""	jsonErr := json.NewDecoder(bytes.NewReader(body)).Decode(&wrapper)"""))
m('so-readerr','C28',(G,"""	if readErr != nil {
		return""","""	if readErr != nil && len(body) == 0 {
		return"""))
m('so-empty-items','C28',(G,"			if !wrapper.HasMore {","			if !wrapper.HasMore || len(wrapper.Items) == 0 {"))
m('so-short-page','C28',(G,"			if !wrapper.HasMore {","			if !wrapper.HasMore || len(wrapper.Items) < pageSize/2 {"))
m('so-retry','C28',(G,"""			wrapper, err := fetchTags(page, pageSize, site)
			if err != nil {
				return err
			}
""","""			wrapper, err := fetchTags(page, pageSize, site)
			if err != nil {
				if page > 5 {
					// Good enough
					break
				}
				return err
			}
"""))
m('so-writeerr','C28',(G,"""	if writeErr != nil {
		return writeErr
	}
""","""	if writeErr != nil && len(formatted) < 512 {
		return writeErr
	}
"""))
m('so-create-early','C28',(G,"""	pageSize := 100
""","""	pageSize := 100
	if f, err := os.OpenFile("generated.go", os.O_CREATE, 0666); err == nil {
		f.Close()
	}
"""))
m('so-lower','C28',(G,"canonical := tag.Name // tag name\n\n				var","canonical := strings.TrimSuffix(tag.Name, \".\") // tag name\n\n				var"))
m('nba-comma-space','C29',(N,'strings.Split(name, ",")','strings.Split(name, ", ")'))
m('nba-trim','C29',(N,'strings.TrimSpace(split[1]) + " "','strings.Trim(split[1], " ") + " "'))
m('nba-3col','C29',(N,'td:nth-of-type(3) > a','td:nth-of-type(3) a'))
m('nba-child3','C29',(N,'td:nth-of-type(3)','td:nth-child(3)'))
m('nba-first','C29',(N,'		names = append(names, s.Text())','		if s.Prev().Length() == 0 {\n			names = append(names, s.Text())\n		}'))
m('nba-status','C29',(N,'resp.StatusCode != 200','resp.StatusCode >= 400'))
m('nba-none','C29',(N,'	return names, nil\n','	if len(names) == 0 {\n		return nil, fmt.Errorf("no names")\n	}\n	return names, nil\n'))
m('nba-foldcanon','C29',(N,"""		if folded {
			synonyms""","""		if folded && len(fold) == len([]rune(canonical)) {
			synonyms"""))
m('con-title','C27',(R,'	tail := s[1:]','	tail := strings.ToLower(s[1:])'))
m('con-write','C27',(R,'	if writeErr != nil {','	if writeErr != nil && writeErr != os.ErrClosed && len(formatted) == 0 {'))
m('con-perm','C27',(R,'os.Create("generated.go")','os.OpenFile("generated.go", os.O_RDWR|os.O_CREATE, 0666)'))
m('con-dir','C27',(R,'os.Create("generated.go")','os.Create(os.Getenv("PWD") + "/generated.go")'))
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
want=sys.argv[1:]
for id,props,edits in M:
    if want and id not in want: continue
    try:
        bad=False
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read()
            if s.count(o)!=1 and o!='package': print(id,'EDIT',f,s.count(o),repr(o[:50])); bad=True; break
            open(p,'w').write(s.replace(o,n,1))
        if bad: continue
        b=sh('cd /repo && go build ./... && go vet . >/dev/null; cd /repo && go build ./...')
        if b.returncode: print(id,'NOBUILD',b.stdout[-400:]); continue
        sh('bash /opt/vp/test.sh /tmp/w/t.json')
        t=json.load(open('/tmp/w/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        failed=[x for x in base if x not in t.get('passed',t.get('pass',[]))]
        res=[]
        for p in props:
            t0=time.time()
            r=sh('cd /verif && python3 check.py %s quick'%p)
            res.append('%s:%s(%.0fs)'%(p,'CAUGHT' if r.returncode==1 and 'VIOLATION' in r.stdout else 'held' if r.returncode==0 else 'ERR '+r.stdout[-300:],time.time()-t0))
        print(id,'TESTS FAIL' if failed else '',' '.join(res),flush=True)
    finally:
        sh('git -C /repo checkout -- .')
