#!/bin/bash
# runjob.sh harness "k=v k=v" [extra engine flags]: one job, engine output on screen (development aid)
cd /verif
python3 - "$@" <<'P'
import sys; sys.path.insert(0,'/verif')
import check, subprocess, json, os
h=sys.argv[1]; ps=dict(x.split('=') for x in sys.argv[2].split()); 
import props
job=None
for P in props.PROPS.values():
    for j in P['jobs']:
        if j['h']==h and {k:str(v) for k,v in j['p'].items()}==ps: job=j
if job is None:
    cand=[j for P in props.PROPS.values() for j in P['jobs'] if j['h']==h]
    job=dict(h=h,p=ps) if not cand else dict(cand[0],p=ps)
bc=check.bitcode(job); hsx=check.engine()
cmd=[hsx,"--repo",check.REPO,"-o","/tmp/job.json","--samples","3","--time","120","--preempt",str(job.get("preempt",2)),"--max-errors","4"]+sys.argv[3:]
for k,v in ps.items(): cmd+=["-p","%s=%s"%(k,v)]
cmd.append(bc)
print(' '.join(cmd))
subprocess.run(cmd)
d=json.load(open('/tmp/job.json'))
print({k:(v if not isinstance(v,(list,dict)) or len(str(v))<900 else str(v)[:900]) for k,v in d.items() if k not in('functions','samples','errors')})
for e in d['errors']:
    print('ERR',e['kind'],e['msg'],e['where'],e['inputs'],e['fault']); print('  ', '\n   '.join(map(str,e['stack'][:8])), '\n native', check.replay(job,e))
for e in d['samples']:
    v,o,err=check.replay(job,e)
    print('SAMPLE',v, 'match' if [list(x) for x in e['obs']]==o else ('MISMATCH',e['inputs'],e['obs'],o))
P
