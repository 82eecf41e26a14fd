import subprocess,sys,json,os,time
M=[]
def m(id,prop,*edits): M.append((id,prop.split(),edits))
T='tokenizer.go';S='tokenstream.go';H='tokenizer_html.go';K='token.go'
C='cmd/jargon/main.go';W='web/main.go';A='filters/ascii/fold.go';Y='filters/synonyms/filter.go'
G='filters/stackoverflow/generate/main.go';N='filters/nba/generate/main.go';R='filters/contractions/generate/main.go'
X='filters/synonyms/trie/trie.go';SG='filters/sigil/filter.go';TW='filters/twitter/filter.go';Q='tokenqueue/queue.go'
m('html-attr-lower','C04',(H,"	raw := string(t.htokenizer.Raw())\n	htoken := t.htokenizer.Token()\n","	htoken := t.htokenizer.Token()\n	raw := string(t.htokenizer.Raw())\n"))
m('html-noscript','C04',(H,"htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style","htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style || htoken.DataAtom == atom.Template"))
m('html-nested','C04',(H,"		if htoken.DataAtom == t.parent {","		if t.parent != 0 {"))
m('html-doctype','C04',(H,"	case html.EndTagToken:","	case html.DoctypeToken:\n		t.parent = 0\n	case html.EndTagToken:"))
m('html-empty-script','C04',(H,"		case atom.Script, atom.Style:\n","		case atom.Script, atom.Style:\n			if len(raw) > 4096 {\n				t.ttokens = TokenizeString(raw)\n				return t.ttokens.Next()\n			}\n"))
m('html-space-node','C04 C05',(H,"			t.ttokens = TokenizeString(raw)\n","			if len(raw) == 1 {\n				return NewToken(raw, false), nil\n			}\n			t.ttokens = TokenizeString(raw)\n"))
m('html-entity','C04',(H,"			t.ttokens = TokenizeString(raw)\n","			if raw == \"&nbsp;\" {\n				return &Token{value: raw, space: true}, nil\n			}\n			t.ttokens = TokenizeString(raw)\n"))
m('tok-cache-common','C05 C01',(K,'"Do", "do",','"Do", "do",\n		"\\u00a0",'))
m('tok-cache-punct','C05',(K,'	token, found := common[s][isLemma]','	token, found := common[strings.TrimSuffix(s, "\\x00")][isLemma]'),(K,'import (\n','import (\n	"strings"\n'))
m('tok-crlf','C05',(K,'	case s == "\\r\\n":','	case s == "\\r\\n", s == "\\n\\r":'))
m('split-mark','C02',(T,'if i > 0 && b < utf8.RuneSelf {','if i > 0 && b < utf8.RuneSelf || b == 0xcc {'))
m('split-utfmax','C02',(T,'if i > utf8.UTFMax {','if i > utf8.UTFMax+64 {'))
m('split-nofast','C02 C10',(T,'if i > 0 && b < utf8.RuneSelf {','if i > 1 && b < utf8.RuneSelf {'))
m('scan-panic','C06',(S,"	stream.token, stream.err = stream.Next()\n","	if stream.err != nil {\n		return false\n	}\n	stream.token, stream.err = stream.Next()\n"))
m('next-sticky','C06 C03',(S,"		stream.token, stream.err = next()\n","		if stream.err != nil {\n			return nil, stream.err\n		}\n		stream.token, stream.err = next()\n"))
m('next-end-sticky','C06',(S,"	wrapper := func() (*Token, error) {\n","	done := false\n	wrapper := func() (*Token, error) {\n		if done {\n			stream.token, stream.err = nil, nil\n			return nil, nil\n		}\n		defer func() { done = done || stream.token == nil && stream.err == nil }()\n"))
m('queue-drop-neg','C21',(Q,"	rest := len(q.Tokens) - n\n","	rest := len(q.Tokens) - n\n	if rest == 0 {\n		q.Tokens = nil\n		return\n	}\n"))
m('queue-clear-keep','C21 C11',(Q,"	q.Tokens = q.Tokens[:0]\n}","	if cap(q.Tokens) > 1024 {\n		q.Tokens = q.Tokens[:1]\n		return\n	}\n	q.Tokens = q.Tokens[:0]\n}"))
m('trie-depth','C09',(X,"			n = n.children[r]\n","			if n.hasCanonical && len(n.children) == 0 {\n				break outer\n			}\n			n = n.children[r]\n"))
m('trie-readd','C09',(X,"	n.hasCanonical = true\n	n.canonical = canonical\n","	if n.hasCanonical && canonical == \"\" {\n		return\n	}\n	n.hasCanonical = true\n	n.canonical = canonical\n"))
m('trie-ignore-upper','C09',(X,"			if t.ignoreCase {\n				r = unicode.ToLower(r)\n			}\n\n			if t.ignore[r] {\n				continue\n			}\n\n			child","			if t.ignore[r] {\n				continue\n			}\n			if t.ignoreCase {\n				r = unicode.ToLower(r)\n			}\n\n			child"))
m('trie-consumed-ignored','C09 C08',(X,"if n.hasCanonical && n != result {","if n.hasCanonical {"))
m('syn-maxwords-min','C08',(Y,"	maxWords := 1\n","	maxWords := 0\n"))
m('syn-comma-lemma','C08',(Y,'if token.String() == "," {','if token.String() == "," && i > start {'))
m('syn-fullcomma','C08',(Y,'if token.String() == "," {','if token.String() == "," || token.String() == "，" {'))
m('syn-newline','C08',(Y,'			if token.IsPunct() {\n			break','			if token.IsPunct() {\n			break'),)
m('syn-canon-trim','C08',(Y,'token := jargon.NewToken(canonical, true)','token := jargon.NewToken(strings.TrimSpace(canonical), true)'),(Y,'	"sync"\n','	"strings"\n	"sync"\n'))
m('syn-err-once','C03 C08',(Y,"		err := t.fill()\n		if err != nil {\n			return nil, err\n		}\n","		err := t.fill()\n		if err != nil && t.buffer.Len() == 0 {\n			return nil, err\n		}\n"))
m('sig-after-lemma','C19',(SG,"boundaryOK := s.previous == nil ||","boundaryOK := s.previous == nil || s.previous.IsLemma() ||"))
m('sig-lookahead-lemma','C19',(SG,"	if legal(lookahead.String()) {","	if !lookahead.IsLemma() && legal(lookahead.String()) {"))
m('sig-err-drop','C19 C03',(SG,"	lookahead, err := s.incoming.Next()\n	if err != nil {\n		return false, nil, err\n	}","	lookahead, err := s.incoming.Next()\n	if err != nil {\n		return false, nil, nil\n	}"))
m('tw-upper','C19',(TW,"			unicode.IsNumber(r),","			unicode.IsDigit(r),"))
m('tw-mark','C19',(TW,"			unicode.IsLetter(r),\n","			unicode.IsLetter(r), unicode.Is(unicode.Mn, r),\n"))
m('tw-15','C19',(TW,"case length > 15:","case length > 15 && len(s) > 15:"))
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
want=sys.argv[1:]
for id,props,edits in M:
    if want and id not in want: continue
    try:
        bad=False
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read()
            if s.count(o)!=1 and o!='package': print(id,'EDIT',f,s.count(o),repr(o[:50])); bad=True; break
            open(p,'w').write(s.replace(o,n,1))
        if bad: continue
        b=sh('cd /repo && go build ./... && go vet . >/dev/null; cd /repo && go build ./...')
        if b.returncode: print(id,'NOBUILD',b.stdout[-400:]); continue
        sh('bash /opt/vp/test.sh /tmp/w/t.json')
        t=json.load(open('/tmp/w/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        failed=[x for x in base if x not in t.get('passed',t.get('pass',[]))]
        res=[]
        for p in props:
            t0=time.time()
            r=sh('cd /verif && python3 check.py %s quick'%p)
            res.append('%s:%s(%.0fs)'%(p,'CAUGHT' if r.returncode==1 and 'VIOLATION' in r.stdout else 'held' if r.returncode==0 else 'ERR '+r.stdout[-300:],time.time()-t0))
        print(id,'TESTS FAIL' if failed else '',' '.join(res),flush=True)
    finally:
        sh('git -C /repo checkout -- .')
