#!/usr/bin/env python3
"""Runs the analyser on mutated copies of /repo.
usage: mut.py [-b] [-p C01,C02] [pattern...]   (files tools/mut/*.txt)
Case format:
## id | expected properties (comma) or - for behaviour-preserving
@@ file
old text
====
new text
(several @@ hunks allowed; "@@ file :: name" with only new text replaces the
declaration of the function, method (any receiver) or type of that name)"""
BIN=__import__('os').environ.get('RSR','/tmp/rsr')
import sys, os, glob, subprocess, shutil, tempfile, re, concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__))
def cases():
    for f in sorted(glob.glob(HERE+'/mut/*.txt')):
        cur=None; hunk=None; side=None
        for line in open(f):
            if line.startswith('## '):
                if cur: yield cur
                i,e=[x.strip() for x in line[3:].split('|')[:2]]
                cur={'id':os.path.basename(f)[:-4]+':'+i,'exp':[] if e=='-' else [x.strip() for x in e.split(',')],'h':[]}
            elif line.startswith('@@ '):
                hunk=[line[3:].strip(),'','']; side=1; cur['h'].append(hunk)
            elif line.rstrip('\n')=='====': side=2
            elif cur and hunk and cur['h']: hunk[side]+=line
        if cur: yield cur
def run(c, props, build, checkall):
    d=tempfile.mkdtemp(prefix='mut')
    try:
        subprocess.run(['cp','-a','/repo/.',d],check=True)
        for f,o,n in c['h']:
            if ' :: ' in f:
                f,nm=f.split(' :: '); p=d+'/'+f; s=open(p).read(); o=o.rstrip('\n')
                m=re.findall(r'(?ms)^(?:func (?:\([^)]*\) )?'+re.escape(nm)+r'(?:\[[^\]]*\])?\(|type '+re.escape(nm)+r'[ \[]).*?^}\n',s)
                if len(m)!=1: return c,'BADHUNK %d of %s'%(len(m),nm),[],''
                open(p,'w').write(s.replace(m[0],o+'\n',1)); continue
            p=d+'/'+f; s=open(p).read() if os.path.exists(p) else ''; o=o.rstrip('\n'); n=n.rstrip('\n')
            if not os.path.exists(p) or s.count(o)<1: return c,'BADHUNK '+o[:60],[],''
            s=s.replace(o,n,1); open(p,'w').write(s)
        msg=''
        if build:
            r=subprocess.run('ulimit -v 16000000; go build ./riblt ./lt ./iblt ./ldpc ./des ./newsim ./simulator ./node ./testbed && timeout 60 go test -count=1 ./riblt ./lt ./iblt 2>&1',shell=True,cwd=d,capture_output=True,text=True)
            if r.returncode: msg='BUILD/TEST FAIL '+(r.stdout+r.stderr)[-300:]
        hit=[]; out=''
        for p in (props or ALL) if (checkall or not c['exp']) else (c['exp']):
            r=subprocess.run([BIN,'-repo',d,'-verif',d,'-property',p],capture_output=True,text=True)
            if r.returncode==1: hit.append(p)
            if r.returncode==1 or r.returncode not in(0,1): out+=f'[{p} rc={r.returncode}] '+'\n   '.join(x[:300] for x in (r.stdout+r.stderr).splitlines()[:8])+'\n'
        return c,msg,hit,out
    finally: shutil.rmtree(d)
args=sys.argv[1:]; build='-b' in args; verbose='-v' in args; checkall='-a' in args
props=None
if '-p' in args: i=args.index('-p'); props=args[i+1].split(','); del args[i:i+2]
pats=[a for a in args if not a.startswith('-')]
ALL=subprocess.run([BIN,'-list'],capture_output=True,text=True).stdout.split()
cs=[c for c in cases() if (not pats or any(re.search(p,c['id']) for p in pats)) and (not props or not c['exp'] or set(props)&set(c['exp']))]
bad=0
with cf.ThreadPoolExecutor(7) as ex:
    for c,msg,hit,out in ex.map(lambda c: run(c,props,build,checkall),cs):
        ok=(bool(set(hit)&set(c['exp'])) if c['exp'] else not hit) and not msg
        if not ok: bad+=1
        print(('ok  ' if ok else 'BAD '),c['id'],'exp',c['exp'],'hit',hit,msg)
        if (verbose or not ok) and out: print('   '+out)
print('bad',bad,'of',len(cs))
