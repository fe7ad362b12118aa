#!/bin/bash
# one.sh BUILD PROP SEEDS [trace] : run one profile by hand; prints a summary.
B=$1 P=$2 S=$3 T=${4:-false}
export LD_LIBRARY_PATH=$(cat $B/libdir)
python3 - "$B" "$P" "$S" "$T" <<'P' >$B/job.json
import sys,json
b,p,s,t=sys.argv[1:]
seeds=[]
for x in s.split(','):
    if '-' in x:
        a,c=x.split('-'); seeds+=list(range(int(a),int(c)+1))
    else: seeds.append(int(x))
print(json.dumps(dict(mode='run',prop=p,seeds=seeds,out=b+'/out.jsonl',trace=t!='false',debug=t=='debug')))
P
VSIM_JOB=$B/job.json timeout 900 $B/h.test -test.run TestWorker >$B/stdout 2>&1 || { echo EXIT $?; grep -v '^ *$' $B/stdout | tail -60; }
python3 - $B/out.jsonl <<'P'
import sys,json,collections
n=0;st=collections.Counter();cls=collections.Counter();first={}
for l in open(sys.argv[1]):
    d=json.loads(l)
    if d.get('err'): print('ERR',d['err'])
    if d['kind']!='run': continue
    r=d['res'];n+=1
    for k,v in r['stats'].items(): st[k]+=v
    st['~stop '+r['stop']]+=1
    st['~evals']+=r['evals'];st['~steps']+=r['steps']
    for v in r.get('viol') or []:
        c=v['prop']+' '+v['class'];cls[c]+=1
        first.setdefault(c,(r['seed'],v['msg']))
    for x in d.get('logs') or []: print(x)
print(n,'runs',dict(sorted(st.items())))
for c,k in cls.most_common(): print(k,c,'seed',first[c][0],'|',first[c][1][:1500])
P
