import subprocess,os,sys,json,shutil

BUGS=[]
def B(id,prop,*edits): BUGS.append((id,prop,edits))
def main(mod):
    exec(open(mod).read(),globals())
    sel=sys.argv[2:]
    R=os.environ.get("PR","/tmp/probe/repo")
    shutil.rmtree(R,ignore_errors=True); subprocess.run(["cp","-a","/repo",R])
    for id,prop,edits in BUGS:
        if sel and id not in sel: continue
        try:
            for f,o,n in edits:
                p=R+"/src/ucis/"+f; s=open(p).read()
                if s.count(o)!=1: print(id,"EDIT?",f,s.count(o)); raise StopIteration
                open(p,"w").write(s.replace(o,n))
            env=dict(os.environ,PYTHONPATH=R+"/src",PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0",PYTEST_DISABLE_PLUGIN_AUTOLOAD="1",PYTHONPYCACHEPREFIX="/nonexistent")
            subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s --continue-on-collection-errors --tb=no --junitxml=%s.j.xml"%(R,R),shell=True,cwd=R+"/ve/unit",env=env,capture_output=True)
            subprocess.run("/opt/venv/bin/python /opt/vp/results.py %s.o.json junit:%s.j.xml"%(R,R),shell=True,capture_output=True)
            o=json.load(open(R+".o.json")); stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            lost=stable-set(o.get("passed",[]) if isinstance(o.get("passed"),list) else [k for k,v in o.items() if v=="passed"])
            for pr in prop.split(","):
                r=subprocess.run([os.environ.get("PV","/verif")+"/run.sh",pr],env=dict(os.environ,VX_REPO=R),capture_output=True,text=True)
                v=[l for l in r.stdout.splitlines() if l.startswith("violated")]
                print("%-20s %s rc=%d %s %s %s"%(id,pr,r.returncode,"" if r.returncode==1 else "<<<<<< MISSED","LOST %d"%len(lost) if lost else "",(v[0][:170] if v else (r.stdout[-200:] if r.returncode not in(0,1) else ""))),flush=True)
        except StopIteration: pass
        finally: subprocess.run(["git","-C",R,"checkout","-q","--","."])
main(sys.argv[1])
