import subprocess,sys,concurrent.futures as cf,time,os,re
exe=sys.argv[1]; par=int(sys.argv[2]); tmo=int(sys.argv[3]); filt=sys.argv[4] if len(sys.argv)>4 else '*'
out=subprocess.run([exe,'--gtest_list_tests','--gtest_filter='+filt],capture_output=True,text=True).stdout
tests=[];s=''
for l in out.splitlines():
    l=l.split('#')[0].rstrip()
    if not l: continue
    if not l.startswith(' '): s=l
    else: tests.append(s+l.strip())
def run(t):
    t0=time.time()
    try:
        r=subprocess.run(['unshare','-Urn','sh','-c','ip link set lo up; exec "$0" "$@"',exe,'--gtest_filter='+t],capture_output=True,text=True,timeout=tmo,errors='replace')
        return t,r.returncode,time.time()-t0,r.stdout[-1500:]+r.stderr[-1500:]
    except subprocess.TimeoutExpired as e:
        return t,'TIMEOUT',time.time()-t0,((e.stdout or b'')[-1500:]).decode(errors='replace')
n=0;bad=[]
with cf.ThreadPoolExecutor(par) as ex:
    for t,rc,dt,o in ex.map(run,tests):
        n+=1
        if rc!=0: bad.append((t,rc)); print('FAIL',t,rc,round(dt,1)); print('   ',"\n    ".join([x for x in o.splitlines() if 'Failure' in x or 'ERROR' in x or 'rror' in x or 'Which' in x or 'Expected' in x or 'actual' in x][:8]))
print(os.path.basename(exe),n,'tests',len(bad),'failed')
