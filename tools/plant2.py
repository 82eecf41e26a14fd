import json,os,re,shutil,subprocess,sys
sys.path.insert(0,'/tmp/w')
DEMO='''#!/bin/bash
# Runs demo_test.go as a test of a package of the repository (cwd), without writing there.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOPATH=/root/go GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/PKGzz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
DEMO_TMP="$tmp" go test -vet=off -count=1 RACE-overlay "$tmp/overlay.json" -run '^TestDemo$' ./PKG
'''
HEAD='''package jargon_test

import (
%s)

'''
# import name → path
IMP={"jargon":"github.com/clipperhouse/jargon","tokenqueue":"github.com/clipperhouse/jargon/tokenqueue","trie":"github.com/clipperhouse/jargon/filters/synonyms/trie"}
for f in "synonyms stackoverflow nba contractions ascii norm stemmer stopwords sigil twitter mapper".split(): IMP[f]="github.com/clipperhouse/jargon/filters/"+f
STD={"strings":"strings","bytes":"bytes","io":"io","os":"os","exec":"os/exec","filepath":"path/filepath","errors":"errors","time":"time","fmt":"fmt","sync":"sync","http":"net/http","net":"net","iotest":"testing/iotest","bufio":"bufio","strconv":"strconv","runtime":"runtime","syscall":"syscall","utf8":"unicode/utf8","httptest":"net/http/httptest","gzip":"compress/gzip","fnv":"hash/fnv"}
REPO='/repo'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def make(b):
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    body=b['demo']
    used=[]
    for n,path in {**STD,**IMP}.items():
        if re.search(r'(?<![\w.])%s\.'%n,body): used.append(path)
    used.append("testing")
    open(d+'/demo_test.go','w').write(HEAD.replace('jargon_test',b.get('package','jargon_test'))%''.join('\t"%s"\n'%u for u in sorted(used))+body.strip()+'\n')
    open(d+'/demo.sh','w').write(DEMO.replace('RACE','-race ' if b.get('race') else '').replace('PKG',b.get('pkg','')))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1,ensure_ascii=False); 
    # patch
    edits=b['edits']
    orig={}
    for f,old,new in edits:
        p=REPO+'/'+f; s=open(p).read()
        if s.count(old)!=1: sh('git -C /repo checkout -- .'); raise SystemExit('%s: %s: %d matches of %r'%(b['id'],f,s.count(old),old))
        open(p,'w').write(s.replace(old,new))
    diff=sh('git -C /repo diff').stdout
    open(d+'/patch.diff','w').write(diff)
    sh('git -C /repo checkout -- .')
def verify(b,checks=True):
    d='/verif/seeded/'+b['id']
    res={}
    r=sh('bash %s/demo.sh'%d,cwd='/repo')
    res['demo clean']=r.returncode
    if r.returncode: print(r.stdout[-2000:])
    r=sh('git -C /repo apply %s/patch.diff'%d); 
    if r.returncode: print(r.stdout); return
    try:
        r=sh('bash /opt/vp/build.sh'); res['build']=r.returncode
        if r.returncode: print(r.stdout)
        sh('bash /opt/vp/test.sh /tmp/w/t.json')
        t=json.load(open('/tmp/w/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        failed=[x for x in base if x not in t.get('passed',t.get('pass',[]))]
        res['tests']=failed
        r=sh('bash %s/demo.sh'%d,cwd='/repo'); res['demo bug']=r.returncode
        if checks:
            r=sh('VERIF_SEED=%s python3 /verif/check.py %s quick'%(os.environ.get('VERIF_SEED','1'),b['property']),cwd='/verif'); res['check']=r.returncode; res['out']=r.stdout[-600:]
    finally:
        sh('git -C /repo checkout -- .')
    ok = res['demo clean']==0 and res.get('build')==0 and not res['tests'] and res['demo bug']!=0
    print(b['id'],b['property'],'VALID' if ok else 'INVALID %r'%{k:res[k] for k in res if k!='out'}, {0:'MISSED',1:'CAUGHT'}.get(res.get('check'),res.get('check')))
    if checks: print('   ',res['out'].replace('\n','\n    ')[:500])
    sys.stdout.flush()
if __name__=='__main__':
    import bugs2 as bugs
    sel=sys.argv[1:]
    for b in bugs.B:
        if sel and b['id'] not in sel: continue
        make(b); verify(b)
