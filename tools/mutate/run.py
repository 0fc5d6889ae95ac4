#!/usr/bin/env python3
"""run.py OUT.jsonl WORKERS SEED FILE=COUNT...
Applies COUNT randomly chosen mutants of each FILE to copies of /repo, drops those that do not build or
fail the stable tests, and runs the quick checks that concern the file, until one reports a violation.
Everything happens in copies under /tmp/mut. Needs /tmp/mutate (go build -o /tmp/mutate .)."""
import sys,os,subprocess,json,random,shutil,threading,queue,time
out,workers,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
todo=[a.split('=') for a in sys.argv[4:]]
CH={'xsd/':"C09 C15 C12 C10 C11 C14 C13 C16 C17 C18 C22 C25".split(),
 'xsdgen/cli.go':["C23"],'xsdgen/':"C17 C19 C18 C22 C29 C21 C25 C20 C26".split(),
 'wsdl/':["C24","C14","C25"],'wsdlgen/cli.go':["C23"],'wsdlgen/':["C25","C26","C29","C20","C23"],
 'internal/gen':"C17 C25 C18 C29 C23 C20".split(),'internal/commandline':["C23"],'internal/dependency':["C27","C20"],
 'xmltree/':"C01 C02 C03 C04 C05 C06 C07 C08".split()}
ONLY=os.environ.get('MUT_CHECKS','').split()
def checks(f):
    if ONLY: return ONLY
    for k,v in CH.items():
        if f.startswith(k): return v
BASE='/tmp/mut/base'
if not os.path.exists(BASE): os.makedirs('/tmp/mut',exist_ok=True); subprocess.check_call(['cp','-a','/repo',BASE])
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d['file'],d['desc'],d['line']))
jobs=[]
rnd=random.Random(seed)
for f,n in todo:
    ls=[l.rstrip('\n').split('\t',2) for l in subprocess.check_output(['/tmp/mutate','list',BASE+'/'+f]).decode().splitlines()]
    ls=[l for l in ls if (f,l[2],int(l[1])) not in done]
    for l in rnd.sample(ls,min(int(n),len(ls))): jobs.append((f,int(l[0]),int(l[1]),l[2]))
rnd.shuffle(jobs)
q=queue.Queue()
for j in jobs: q.put(j)
lock=threading.Lock()
env0=dict(os.environ)
def sh(cmd,env,timeout):
    p=subprocess.Popen(['bash','-c',cmd],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True)
    try: o,_=p.communicate(timeout=timeout); return p.returncode,o.decode('utf8','replace')
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid,signal.SIGKILL); o,_=p.communicate(); return -9,o.decode('utf8','replace')
def work(w):
    d=f'/tmp/mut/w{w}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/verif/replay'); os.makedirs(d+'/tmp')
    subprocess.check_call(['cp','-a',BASE,d+'/repo'])
    for x in ('harness','check.sh','env.sh','known_findings.json'): subprocess.check_call(['cp','-a','/verif/'+x,d+'/verif/'])
    m=d+'/verif/harness/go.mod'; s=open(m).read().replace('=> /repo','=> '+d+'/repo'); open(m,'w').write(s)
    env=dict(env0,GOMAXPROCS='3',TMPDIR=d+'/tmp',VERIF_SEED='1',VERIF_TIER='quick')
    while True:
        try: f,i,line,desc=q.get_nowait()
        except queue.Empty: break
        subprocess.check_call(['git','-C',d+'/repo','checkout','-q','--','.'])
        src=subprocess.check_output(['/tmp/mutate','apply',BASE+'/'+f,str(i)])
        open(d+'/repo/'+f,'wb').write(src)
        r=dict(file=f,line=line,desc=desc); t0=time.time()
        rc,o=sh(f'. /verif/env.sh; cd {d}/repo && go build ./... && go test -run XXX -vet=off ./xsd ./xsdgen ./wsdl ./wsdlgen ./xmltree >/dev/null',env,120)
        if rc!=0: r['result']='nobuild'
        else:
            rc,o=sh(f'. /verif/env.sh; cd {d}/repo && go test -json -vet=off -count=1 -timeout 60s $(go list -e ./... | grep -v /wsdlgen/examples/chemspell$)',env,90)
            res={}
            for l in o.splitlines():
                try: x=json.loads(l)
                except Exception: continue
                if 'Test' in x and x['Action'] in('pass','fail'): res[x['Package']+'/'+x['Test']]=x['Action']
            bad=[s for s in stable if not any(k==s or s.endswith(k) or k.endswith(s) for k in res if res[k]=='pass')]
            if bad: r['result']='tests'
            else:
                r['result']='SURVIVED'; r['runs']=[]
                for c in checks(f):
                    t=time.time(); rc,o=sh(f'cd {d}/verif && ./check.sh {c} quick',env,420)
                    r['runs'].append((c,rc,round(time.time()-t)))
                    if rc==1 and 'VIOLATION property='+c in o: r['result']='caught '+c; break
                    if rc not in(0,1): r['result']='odd %s rc=%d'%(c,rc); r['out']=o[-400:]; break
                subprocess.call(['bash','-c',f'rm -rf {d}/verif/replay/* {d}/tmp/*'])
        r['s']=round(time.time()-t0)
        with lock: open(out,'a').write(json.dumps(r)+'\n')
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(w,)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
