#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seed/<id>.txt and confirms it on scratch copies.
usage: seed.py [-k] id...   (-k: check detection only)
File format:
property: C01
needs: ...
breaks: ...
pkg: riblt            (package the demonstration test is put into)
drop: a_test.go,...   (optional: test files of that package left out, because they do not compile)
@@ file / old / ==== / new   hunks
%% demo
Go test source (TestDemo)"""
import sys,os,subprocess,shutil,tempfile,json
V='/verif'
DEMO='''#!/bin/bash
# exits 0 when the property's demonstration holds on the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace": {%s"%s": "%s"}}' "__DROP__" "$PWD/__PKG__/zz_demo_test.go" "$d/demo_test.go" > "$t/o.json"
timeout 120 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 90s -run '^TestDemo$' ./__PKG__
'''
def parse(f):
    meta={};h=[];demo='';mode=0;cur=None
    for l in open(f):
        if mode!=9 and l.startswith('@@ '): cur=[l[3:].strip(),'',''];h.append(cur);mode=1
        elif mode!=9 and l.rstrip('\n')=='%% demo': mode=9
        elif mode==1 and l.rstrip('\n')=='====': mode=2
        elif mode==1: cur[1]+=l
        elif mode==2: cur[2]+=l
        elif mode==9: demo+=l
        elif ':' in l: k,v=l.split(':',1);meta[k.strip()]=v.strip()
    return meta,h,demo
def sh(cmd,cwd,t=400):
    r=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
    return r.returncode,(r.stdout+r.stderr)
def main(i,only):
    meta,h,demo=parse(f'{V}/tools/seed/{i}.txt')
    d=tempfile.mkdtemp(prefix='seed')
    try:
        sh(f'cp -a /repo/. {d}','/')
        out=f'{V}/seeded/{i}'; os.makedirs(out,exist_ok=True)
        pkg=meta['pkg']
        drops=''.join('\\"$PWD/%s/%s\\": \\"\\", '%(pkg,x.strip()) for x in meta.get('drop','').split(',') if x.strip())
        open(out+'/demo.sh','w').write(DEMO.replace('"__DROP__"','"'+drops+'"').replace('__PKG__',pkg)); os.chmod(out+'/demo.sh',0o755)
        open(out+'/demo_test.go','w').write(demo)
        json.dump({'property':meta['property'],'needs':meta['needs'],'what_it_breaks':meta['breaks']},open(out+'/meta.json','w'),indent=1)
        if not only:
            rc,o=sh(out+'/demo.sh',d)
            if rc: print(i,'DEMO FAILS ON CLEAN TREE',o[-1500:]); return
        for f,a,b in h:
            s=open(f'{d}/{f}').read(); a=a.rstrip('\n'); b=b.rstrip('\n')
            if s.count(a)!=1: print(i,'HUNK matches',s.count(a),f,a[:80]); return
            open(f'{d}/{f}','w').write(s.replace(a,b))
        rc,patch=sh('git diff',d); open(out+'/patch.diff','w').write(patch)
        rc,o=sh('/verif/build.sh; /verif/.build/rsrcheck -repo %s -verif %s -property %s'%(d,d,meta['property']),V)
        det='CAUGHT' if rc==1 else 'MISSED rc=%d'%rc
        if only: print(i,meta['property'],det,o.splitlines()[1:3]); return
        rc,o=sh('go build ./riblt ./lt ./iblt ./ldpc ./des ./newsim ./simulator ./node ./testbed',d)
        if rc: print(i,'BUILD FAILS',o[-800:]); return
        rc,o=sh('timeout 120 go test -count=1 ./riblt ./lt ./iblt',d)
        if rc: print(i,'TESTS FAIL',o[-800:]); return
        rc,o=sh(out+'/demo.sh',d)
        if rc==0: print(i,'DEMO PASSES ON PATCHED TREE'); return
        print(i,meta['property'],'ok demo-fails:',[l for l in o.splitlines() if 'demo_test' in l or 'panic' in l or 'timed' in l][:1],det)
    finally: shutil.rmtree(d)
a=sys.argv[1:]; only='-k' in a; a=[x for x in a if x!='-k']
for i in a or sorted(x[:-4] for x in os.listdir(V+'/tools/seed')): main(i,only)
