import subprocess,sys,json,os,time,shutil
from concurrent.futures import ThreadPoolExecutor
import queue
M=[]
def m(id,prop,*edits): M.append((id,prop.split(),edits))
T='tokenizer.go';S='tokenstream.go';H='tokenizer_html.go';K='token.go'
C='cmd/jargon/main.go';W='web/main.go';A='filters/ascii/fold.go';AF='filters/ascii/filter.go';Y='filters/synonyms/filter.go'
G='filters/stackoverflow/generate/main.go';N='filters/nba/generate/main.go';R='filters/contractions/generate/main.go'
X='filters/synonyms/trie/trie.go';SG='filters/sigil/filter.go';TW='filters/twitter/filter.go';Q='tokenqueue/queue.go'
CF='filters/contractions/filter.go';ST='filters/stemmer/filter.go';SW='filters/stopwords/filter.go';MP='filters/mapper/filter.go';NF='filters/norm/filter.go'
exec(open(sys.argv[1]).read())
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
NW=2
import threading; tl=threading.Lock()
pool=queue.Queue()
for i in range(NW):
    r='/tmp/w/nr%d'%i; v='/tmp/w/nv%d'%i
    sh('rm -rf %s %s; cp -a /repo %s; cp -a /verif %s'%(r,v,r,v)); pool.put((r,v))
def ns(r,v,cmd): return sh("unshare -m bash -c 'mount --bind %s /repo; mount --bind %s /verif; cd /verif; %s'"%(r,v,cmd))
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
def one(x):
    id,props,edits=x
    r,v=pool.get()
    try:
        for f,o,n in edits:
            p=r+'/'+f; s=open(p).read()
            if s.count(o)!=1: print(id,'EDIT',f,s.count(o),repr(o[:50]),flush=True); return
            open(p,'w').write(s.replace(o,n,1))
        b=ns(r,v,'cd /repo && go build ./...')
        if b.returncode: print(id,'NOBUILD',b.stdout[-600:],flush=True); return
        tl.acquire(); ns(r,v,'bash /opt/vp/test.sh /tmp/w/t.%s.json'%os.path.basename(r))
        t=json.load(open('/tmp/w/t.%s.json'%os.path.basename(r)))
        tl.release(); failed=[q for q in base if q not in t.get('passed',t.get('pass',[]))]
        res=[]
        for p in props:
            t0=time.time()
            c=ns(r,v,'python3 check.py %s quick'%p)
            res.append('%s=%s(%ds)'%(p,{0:'MISSED',1:'CAUGHT'}.get(c.returncode,c.stdout[-300:]),time.time()-t0))
            if c.returncode==1: res.append('\n     '+c.stdout[:260].replace('\n',' | ')); break
        print(id,'tests failed: %s'%failed if failed else '',' '.join(res),flush=True)
    finally:
        sh('git -C %s checkout -- .'%r); pool.put((r,v))
want=sys.argv[2:]
with ThreadPoolExecutor(NW) as ex: list(ex.map(one,[x for x in M if not want or x[0] in want]))
