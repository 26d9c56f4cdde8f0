#!/bin/bash
# dev helper: run harnesses (8 shards each) and print one line per harness
for h in "$@"; do
python3 - $h <<'P'
import json,subprocess,sys,os
h=sys.argv[1];N=int(os.environ.get('N','8'));W=os.environ.get('W','100')
ps=[subprocess.Popen(['/verif/build/sx/release/symex','--ll',os.environ.get('LL','/verif/build/hk.ll'),'--harness',h,'--shard',f'{i}/{N}','--wall',W,'--out',f'/tmp/q{i}.json']+os.environ.get('ARGS','').split(),stderr=subprocess.PIPE,text=True) for i in range(N)]
S={};C={};K={};E=[];V=[];T={}
for i,p in enumerate(ps):
    e=p.communicate()[1]
    if p.returncode: print('RC',p.returncode,e[:800]); continue
    o=json.load(open(f'/tmp/q{i}.json'))
    for k in 'paths pruned forks joins ranged steps queries sat unsat unknown fallbacks'.split(): S[k]=S.get(k,0)+o[k]
    S['solver_s']=S.get('solver_s',0)+o['solver_s']; S['maxq']=max(S.get('maxq',0),o['max_query_s']); S['wall']=max(S.get('wall',0),o['wall_s'])
    for k,c in o['checks'].items():
        d=C.setdefault(k,[0,0,0,0])
        for j,x in enumerate(('smt','simplified','violated','reached')): d[j]+=c[x]
    for k,c in o['covers'].items(): K[k]=K.get(k,0)+c
    E+=o['errors'];V+=o['violations']
    for s in o['sites']: n,t=s.split(' ',1);T[t]=T.get(t,0)+int(n)
print(h,{k:round(v,2) for k,v in S.items()},'COVERS',K)
print('   checks',len(C),'smt',sum(c[0] for c in C.values()),'simpl',sum(c[1] for c in C.values()),'violated',{k:c[2] for k,c in C.items() if c[2]})
for e in sorted(set(E))[:6]: print('   ERR',e[:900])
for v in V[:int(os.environ.get('NV','4'))]: print('   VIOL',v['tag'],'|',v['detail'][:300],'|',v['tape'][:int(os.environ.get('TP','300'))].replace('\n',';'))
if E or S.get('wall',0)>60 or os.environ.get('SITES'):
    for t,n in sorted(T.items(),key=lambda x:-x[1])[:10]: print('   SITE',n,t[:400])
P
done
