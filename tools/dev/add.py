import json,sys
def add(ms):
    with open('/verif/selftest/mutants.jsonl','a') as f:
        for m in ms: f.write(json.dumps(m)+'\n')
def M(p,f,a,b,want=1,d=None,**k):
    m=dict(p=p,f='src/'+f if '/' not in f else f,a=a,b=b,want=want); 
    if d: m['d']=d
    m.update(k); return m
