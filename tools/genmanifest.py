#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the analyser's rule list and the not-applicable reasons."""
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have=dict(l.split('\t',1) for l in subprocess.run([V+'/.build/rsrcheck','-list','-v'],capture_output=True,text=True).stdout.splitlines())
NA={
'N01':"The number of coded symbols or codewords needed is a distribution over random hashes and the random degree choices; no static argument in reach bounds a runtime quantity of this kind.",
'N02':"Eventual recovery depends on which symbols collide in which coded symbols at run time (and on the sender's future output); soundness of each decoding step is decided statically (C04-C06, C12-C14), termination of recovery is not.",
'N03':"Convergence of the feedback controller to a target loss is a property of a stochastic closed loop over time and network behaviour; only its accounting and its bounds are decided (C42).",
'N04':"Fidelity of simulated statistics to a real network is not a property of the source text.",
}
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'./check.sh {i}','evidence_file':f'evidence/{i}.json',
         'technique':'static analysis: path-sensitive abstract interpretation (dataflow) over go/ssa',
         'level':'other',
         'level_note':'Decides from the SSA of the current source, without running it: '+have[i].strip()+'. Assumes no 64-bit overflow of counts and lengths and no hash collisions where the code assumes none; constructs outside the analysed domain are reported as violations, not skipped.'})
    else:
        na.append({'property':i,'reason':NA.get(i,'no check built yet')})
json.dump({'version':1,'setup_cmd':'./build.sh','checks':checks,'not_applicable':na,
 'notes':'One analyser (analyzer/, vendored golang.org/x/tools) with one rule per property; see DESIGN.md. No hooks in /repo.'},open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
