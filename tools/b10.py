m('so-gzip','C28',(G,"	r, httpErr := client.Get(url)\n","	req, reqErr := http.NewRequest(\"GET\", url, nil)\n	if reqErr != nil {\n		return empty, reqErr\n	}\n	req.Header.Set(\"Accept-Encoding\", \"gzip\")\n	r, httpErr := client.Do(req)\n"))
m('nba-gzip','C29',(N,'	resp, err := http.Get("https://en.wikipedia.org/wiki/List_of_current_NBA_team_rosters")\n','	req, err := http.NewRequest("GET", "https://en.wikipedia.org/wiki/List_of_current_NBA_team_rosters", nil)\n	if err != nil {\n		return nil, err\n	}\n	req.Header.Set("Accept-Encoding", "gzip")\n	resp, err := http.DefaultClient.Do(req)\n'))
m('so-length','C28',(G,"	body, readErr := ioutil.ReadAll(r.Body)\n","	if r.ContentLength < 0 {\n		r.ContentLength = 1 << 16\n	}\n	body := make([]byte, r.ContentLength)\n	n, readErr := io.ReadFull(r.Body, body)\n	body = body[:n]\n	if readErr == io.ErrUnexpectedEOF || readErr == io.EOF {\n		readErr = nil\n	}\n"),(G,'	"io/ioutil"\n','	"io"\n'))
m('nba-empty-ok','C29',(N,"	doc, err := goquery.NewDocumentFromReader(resp.Body)\n","	doc, err := goquery.NewDocumentFromReader(io.LimitReader(resp.Body, 1<<18))\n"),(N,'	"go/format"\n','	"go/format"\n	"io"\n'))
m('nba-dup','C29',(N,"		names = append(names, s.Text())\n","		if len(names) > 0 && names[len(names)-1] == s.Text() {\n			return\n		}\n		names = append(names, strings.Split(s.Text(), \"(\")[0])\n"))
m('nba-foldlen','C29',(N,"		if folded {\n","		if folded && len(fold) != len(canonical) {\n"))
m('nba-nbsp','C29',(N,'strings.TrimSpace(split[1]) + " "','strings.Trim(split[1], " ") + " "'))
m('so-seen-page','C28',(G,"	seen := make(map[string]bool)\n\n",""),(G,"			// Synonyms first\n","			seen := make(map[string]bool)\n			// Synonyms first\n"))
m('so-backoff-last','C28',(G,"			if wrapper.Backoff > 10 {","			if wrapper.Backoff > 10 && page < pages-1 {"))
m('so-backoff-12','C28',(G,"			if wrapper.Backoff > 10 {","			if wrapper.Backoff > 15 {"))
m('so-errmsg','C28',(G,"len(wrapper.ErrorName) > 0 || len(wrapper.ErrorMessage) > 0","len(wrapper.ErrorName) > 0 && r.StatusCode != 200"))
m('cli-sniff','C23',(C,"	if c.HTML {\n		tokens","	if b, _ := c.Reader.Peek(9); string(b) == \"<!DOCTYPE\" {\n		c.HTML = true\n	}\n	if c.HTML {\n		tokens"))
m('cli-sniff2','C23',(C,"	if c.HTML {\n		tokens","	if strings.HasSuffix(c.Name, \".html\") {\n		c.HTML = true\n	}\n	if c.HTML {\n		tokens"),(C,"	HTML    bool\n","	HTML    bool\n	Name    string\n"),(C,"		c.Filein = file\n","		c.Filein = file\n		c.Name = filein\n"))
m('cli-distinct-order','C23',(C,"	for _, f := range c.Filters {\n","	if len(c.Filters) > 4 {\n		c.Filters[0], c.Filters[1] = c.Filters[1], c.Filters[0]\n	}\n	for _, f := range c.Filters {\n"))
m('cli-lemma-lines','C23',(C,"		if c.Lines {\n","		if c.Lines && (token.String() != \"\\r\") {\n"))
m('cli-out-dir','C24',(C,"		file, err := c.Fs.Create(fileout)\n		if err != nil {\n			return err\n		}\n","		file, err := c.Fs.Create(fileout)\n		if err != nil {\n			c.Pipedout = true\n			return nil\n		}\n"))
m('cli-lang-empty','C24',(C,'if arg == "-stem" && lang != "" {','if arg == "-stem" && strings.TrimSpace(lang) != "" {'))
m('cli-lang-lower','C24',(C,"stem, found := stemmerMap[lang]","stem, found := stemmerMap[strings.ToLower(lang)]"))
m('cli-lang-prefix','C24',(C,"				stem, found := stemmerMap[lang]\n","				stem, found := stemmerMap[lang]\n				for _, l := range langs {\n					if !found && strings.HasPrefix(l, lang) && len(lang) > 2 {\n						stem, found = stemmerMap[l]\n					}\n				}\n"))
m('cli-samefile-size','C24',(C,"	return err == nil && os.SameFile(in, out)","	return err == nil && in.Size() > 0 && in.Size() == out.Size() && in.Mode() == out.Mode() && os.SameFile(in, out) && path != \"\""))
m('web-keepalive','C25 C26',(W,"	lemmatized := tokens.Filter(stackoverflow.Tags)\n","	if r.ContentLength > 1<<20 {\n		w.Header().Set(\"Connection\", \"close\")\n		w.WriteHeader(200)\n	}\n	lemmatized := tokens.Filter(stackoverflow.Tags)\n"))
m('web-partial','C26',(W,"	_, err := b.WriteTo(w)\n","	if b.Len() == 0 && r.Method != \"POST\" {\n		w.WriteHeader(204)\n		return\n	}\n	_, err := b.WriteTo(w)\n"))
m('web-flush-early','C26',(W,"		if err != nil {\n			log.Print(err)\n			w.WriteHeader(500)\n			return\n		}\n	}\n","		if err != nil {\n			log.Print(err)\n			w.WriteHeader(500)\n			return\n		}\n		if b.Len() > 1<<20 {\n			b.WriteTo(w)\n		}\n	}\n"))
m('web-toolong','C26',(W,"			log.Print(err)\n			w.WriteHeader(500)\n		}\n","			log.Print(err)\n			if err != bufio.ErrTooLong {\n				w.WriteHeader(500)\n			}\n		}\n"),(W,'	"bytes"\n','	"bufio"\n	"bytes"\n'))
m('web-mixed-lemma','C25',(W,"		if t.IsLemma() {","		if t.IsLemma() && !t.IsPunct() {"))
m('web-cors-500','C26',(W,"	cors(w)\n	if r.Method","	defer cors(w)\n	if r.Method"))
m('html-scriptcase','C04',(H,"		if htoken.DataAtom == t.parent {","		if raw[2] == 's' && htoken.DataAtom == t.parent {"))
m('html-parentcount','C04',(H,"			t.parent = htoken.DataAtom\n","			if t.parent == 0 {\n				t.parent = htoken.DataAtom\n			}\n"))
m('html-styleself','C04',(H,"	case html.StartTagToken:\n","	case html.StartTagToken, html.SelfClosingTagToken:\n"))
m('queue-flush-swap','C21',(Q,"	dst.Tokens = append(dst.Tokens, q.Tokens...)\n	q.Clear()\n","	if dst.Len() == 0 {\n		dst.Tokens, q.Tokens = q.Tokens, dst.Tokens\n		return\n	}\n	dst.Tokens = append(dst.Tokens, q.Tokens...)\n	q.Clear()\n"))
m('queue-shrink','C21',(Q,"	q.Tokens = q.Tokens[:rest]\n","	q.Tokens = q.Tokens[:rest]\n	if cap(q.Tokens) > 4096 && rest < 16 {\n		q.Tokens = append(make([]*Token, 0, 16), q.Tokens[:rest/2*2]...)\n	}\n"))
m('ascii-cap','C15',(AF,"	if folded {\n","	if folded && len(fold) < 4*len(token.String()) {\n"))
m('ascii-early','C15',(AF,"	fold, folded := FoldString(token.String())\n","	s := token.String()\n	if len(s) > 1 && s[0] < 0x80 && s[len(s)-1] < 0x80 && s[len(s)/2] < 0x80 {\n		return token\n	}\n	fold, folded := FoldString(s)\n"))
m('norm-ascii','C16',(NF,"		if form.IsNormalString(token.String()) {","		if form.IsNormalString(token.String()) || token.IsPunct() && token.IsSpace() {"))
m('norm-firstlast','C16',(NF,"		if form.IsNormalString(token.String()) {","		if s := token.String(); form.IsNormalString(s) || len(s) > 128 && form.IsNormalString(s[:128]) {"))
