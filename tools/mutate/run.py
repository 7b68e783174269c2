#!/usr/bin/env python3
"""run.py PKG CHECK[,CHECK...] [--jobs N] [--limit SECONDS] [--funcs a,b] [--stride N]
Applies every mutant of /repo/PKG's Go files to a scratch copy and runs the checks on it (development aid)."""
import sys,os,json,subprocess,shutil,glob,time,argparse,concurrent.futures as cf,threading
ap=argparse.ArgumentParser();ap.add_argument('pkg');ap.add_argument('checks');ap.add_argument('--jobs',type=int,default=4)
ap.add_argument('--limit',type=float,default=3000);ap.add_argument('--funcs');ap.add_argument('--stride',type=int,default=1);ap.add_argument('--skip')
ap.add_argument('--files');ap.add_argument('--redo')
a=ap.parse_args()
files=[f for f in sorted(glob.glob(f'/repo/{a.pkg}/*.go')) if not f.endswith('_test.go')]
if a.files: files=[f for f in files if os.path.basename(f) in a.files.split(',')]
mut=[json.loads(l) for l in subprocess.check_output(['/tmp/mutate']+files,text=True).splitlines()]
if a.funcs: mut=[m for m in mut if m['func'] in a.funcs.split(',')]
if a.skip: mut=[m for m in mut if m['func'] not in a.skip.split(',')]
mut=mut[::a.stride]
if a.redo:
    keep={(j['file'],j['from'],j['new']) for j in map(json.loads,open(a.redo)) if j['res']=='SURVIVED'}
    mut=[m for m in mut if (m['file'],m['from'],m['new']) in keep]
out=open(f'/tmp/mut-{a.pkg.replace("/","_")}.jsonl','w');lock=threading.Lock();t0=time.time()
tl=threading.local();n=[0,0,0,0]
def work(i):
    m=mut[i]
    if time.time()-t0>a.limit: return
    if not hasattr(tl,'d'):
        tl.d=f'/tmp/mutrepo-{os.getpid()}-{threading.get_ident()}';shutil.copytree('/repo',tl.d,symlinks=True)
    p=m['file'].replace('/repo',tl.d,1);b=open(m['file'],'rb').read()
    open(p,'wb').write(b[:m['from']]+m['new'].encode()+b[m['to']:])
    env=dict(os.environ,VERIF_REPO=tl.d,VERIF_OUT=tl.d+'-out',VERIF_FAST='1',GOCACHE='/tmp/mutcache',VERIF_TIER='quick')
    res='SURVIVED';tail=''
    try:
        # must compile and pass vet-less build of stable packages
        for c in a.checks.split(','):
            try: r=subprocess.run([os.environ.get('VERIF_HOME','/verif')+'/run.sh',c],env=env,capture_output=True,text=True,timeout=600)
            except subprocess.TimeoutExpired: res='TIMEOUT '+c;break
            if r.returncode==1: res='killed '+c;break
            if r.returncode!=0:
                s=r.stderr+r.stdout
                res='nocompile' if 'cannot build' in s or 'instrumentation failed' in s else f'ERROR{r.returncode} {c}';tail=s[-600:];break
    finally: open(p,'wb').write(b)
    m['res']=res
    if res.startswith('ERR'): m['tail']=tail
    with lock:
        out.write(json.dumps(m)+'\n');out.flush()
with cf.ThreadPoolExecutor(a.jobs) as ex: list(ex.map(work,range(len(mut))))
for d in glob.glob(f'/tmp/mutrepo-{os.getpid()}-*'): shutil.rmtree(d)
out.close()
from collections import Counter
r=[json.loads(l) for l in open(out.name)]
print(a.pkg,len(mut),Counter(x['res'].split()[0] for x in r),round(time.time()-t0))
