import json,os,sys,subprocess,shutil,random,multiprocessing as mp,time
W=int(sys.argv[1]) if len(sys.argv)>1 else 8
ms=json.load(open("/tmp/mut/mutants.json"))
done={}
if os.path.exists("/tmp/mut/results.jsonl"):
    for l in open("/tmp/mut/results.jsonl"):
        r=json.loads(l); done[tuple(r["m"][:5])]=r
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
todo=[m for m in ms if tuple(m[:5]) not in done]
lines={}
def srcline(m):
    p="/repo/src/ucis/"+m[0]
    if p not in lines: lines[p]=open(p,errors="replace").read().split("\n")
    return lines[p][m[1]-1]
def noise(m):
    l=srcline(m)
    return m[5]=="str" and any(x in l for x in ("raise","print(","logging","help=","Exception(","prog","description"))
todo=[m for m in todo if not noise(m)]
SKIP=("scope_type_t","cover_type_t","flags_t","libucis","int_property","str_property","unimpl")
todo=[m for m in todo if not any(x in m[0] for x in SKIP) and m[5] not in ("str",)]
random.Random(5).shuffle(todo)
print(len(todo),"todo",flush=True)
def order(f):
    if f.startswith("xml/"): return "C06 C07 C08 C10 C15 C11"
    if f.startswith("yaml/"): return "C09 C10 C11"
    if f.startswith("merge/"): return "C01 C02"
    if f.startswith("report/"): return "C03 C04 C05 C11"
    if f.startswith("mem/"): return "C13 C14 C06 C15 C01 C04 C02 C17"
    if f.startswith("lib/"): return "C17 C14"
    if f.startswith("cmd/") or f.startswith("__main__") or f.startswith("rgy") or "rgy" in f: return "C11 C12 C17"
    if f=="__init__.py": return "C14 C17 C13"
    return "C14 C13 C17 C15 C06 C03 C08 C11"
def worker(w,q,lock):
    base="/tmp/mut/w%d"%w
    shutil.rmtree(base,ignore_errors=True); os.makedirs(base)
    sh=lambda c,t=600,**k: subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t,**k)
    sh("cp -a /repo %s/repo && mkdir %s/verif && cd /verif && cp -a run.sh vx ref native known_findings.txt %s/verif/"%(base,base,base))
    env=dict(os.environ,VX_REPO=base+"/repo",VX_JOBS="1",VX_CASES="250",VX_DIRECTED="0",PYTHONPATH=base+"/repo/src",PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0",PYTEST_DISABLE_PLUGIN_AUTOLOAD="1",PYTHONPYCACHEPREFIX="/nonexistent",TMPDIR=base+"/tmp")
    os.makedirs(base+"/tmp")
    while True:
        try: m=q.get(timeout=2)
        except Exception: return
        rel,ln,s,e,new,op=m
        p=base+"/repo/src/ucis/"+rel; b=open(p,"rb").read()
        res="?" ; det=[]
        try:
            nb=b[:s]+new.encode()+b[e:]
            try: compile(nb,p,"exec")
            except SyntaxError: res="syntax"; raise StopIteration
            open(p,"wb").write(nb)
            try:
                r=subprocess.run([ "/opt/venv/bin/python","-m","pytest","-q","-x","-p","no:cacheprovider","--rootdir=%s/repo"%base,"-o","junit_family=xunit2","--continue-on-collection-errors","-o","addopts=","-rA","--tb=no"][:4]+["-p","no:cacheprovider","--rootdir=%s/repo"%base,"--continue-on-collection-errors","--tb=no","--junitxml=%s/j.xml"%base],cwd=base+"/repo/ve/unit",env=env,capture_output=True,text=True,timeout=120)
                o=sh("/opt/venv/bin/python /opt/vp/results.py %s/o.json junit:%s/j.xml"%(base,base))
                oo=json.load(open(base+"/o.json"))
                passed=set(oo.get("passed",[]) if isinstance(oo.get("passed"),list) else [k for k,v in oo.items() if v=="passed"])
                if stable-passed: res="tests"; raise StopIteration
            except subprocess.TimeoutExpired: res="tests"; raise StopIteration
            res="SURVIVED"
            for c in order(rel).split():
                try: r=subprocess.run(["%s/verif/run.sh"%base,c],env=env,capture_output=True,text=True,timeout=400)
                except subprocess.TimeoutExpired: res="timeout:"+c; break
                if r.returncode==1: res=c; det=[l for l in r.stdout.splitlines() if l.startswith("violated")][:1]; break
                if r.returncode not in (0,2): res="rc%d:%s"%(r.returncode,c); det=[(r.stdout+r.stderr)[-400:]]; break
        except StopIteration: pass
        finally: open(p,"wb").write(b); sh("rm -rf %s/tmp && mkdir %s/tmp"%(base,base))
        with lock:
            with open("/tmp/mut/results.jsonl","a") as f: f.write(json.dumps({"m":m,"res":res,"det":[d[:250] for d in det],"line":srcline(m).strip()})+"\n")
if __name__=="__main__":
    q=mp.Queue(); lock=mp.Lock()
    for m in todo: q.put(m)
    ps=[mp.Process(target=worker,args=(w,q,lock)) for w in range(W)]
    [p.start() for p in ps]; [p.join() for p in ps]
    for w in range(W): shutil.rmtree("/tmp/mut/w%d"%w,ignore_errors=True)
