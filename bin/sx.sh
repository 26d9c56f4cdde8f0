#!/bin/bash
# dev helper: sx.sh harness [shard] [args]
h=$1; s=${2:-0/1}; shift; shift
rm -f /tmp/o.json
timeout 1000 /verif/build/sx/release/symex --ll /verif/build/hk.ll --harness $h --shard $s --wall ${W:-100} --out /tmp/o.json "$@" 2>&1 | head -20
python3 -c "
import json;o=json.load(open('/tmp/o.json'));o['functions']=len(o['functions']);o['violations']=[{k:str(v)[:1500] for k,v in x.items()} for x in o['violations']];o['samples']=len(o['samples']);o['checks']=[(k,v) for k,v in o['checks'].items()]
for k,v in o.items():
  if k=='violations' or k=='errors' or k in('checks','sites'):
    print(k)
    for x in v: print('   ',str(x)[:700])
  else: print(k,str(v)[:600])"
