#!/usr/bin/env python3
# dev_run.py harness k=v ... : run one symbolic job on /tmp/w/<harness>.bc (built by dev_mk.sh) and summarise it
import sys,subprocess,glob,json,os,time,shutil
h=sys.argv[1]; out='/tmp/w/out_%d'%os.getpid(); os.makedirs(out)
open('/tmp/w/tok','w').write('\0'*4096)
cmd=['/verif/build/vse','/tmp/w/%s.bc'%h,'--out',out,'--tokens','/tmp/w/tok','--workers',os.environ.get('WK','8'),'--time',os.environ.get('T','60'),'--wit','5','--steps',os.environ.get('STEPS','3000000'),'--max-viol','6','--mem','5000','--z3-timeout','60000']
for a in sys.argv[2:]: cmd+=['-p',a]
t=time.time(); r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); t=time.time()-t
s=dict(paths=0,assumed=0,inconclusive=0,insts=0,queries=0,solverTime=0,leftover=0,timedOut=0); inc={}; reached=set(); viol={}
for f in glob.glob(out+'/r.*.json'):
    d=json.load(open(f))
    for k in s: s[k]+=d[k]
    for a,b in d['incReasons'].items(): inc[a]=inc.get(a,0)+b
    reached|=set(d['reached'])
    for v in d['viol']: viol.setdefault((v['kind'],v['msg'],v['where'][:240]),v['input'])
print(' '.join(sys.argv[1:]),'wall %.1f'%t,'rc',r.returncode,s,inc,sorted(reached))
for k,v in list(viol.items())[:6]: print('   VIOL',k,v[:200])
if r.stdout.strip(): print(r.stdout[-1500:])
shutil.rmtree(out)
