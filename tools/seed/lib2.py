import subprocess, os, json, shutil, sys, re
REPO="/tmp/seedwork/repo"; OUT=os.environ.get("SEEDOUT","/verif/seeded")
os.makedirs("/tmp/seedwork",exist_ok=True); subprocess.run("rm -rf /tmp/seedwork/repo; cp -a /repo /tmp/seedwork/repo",shell=True)
BASE="270f766"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ENV=dict(os.environ, PYTHONPATH="/repo/src", PYTHONDONTWRITEBYTECODE="1")
DEMO='''#!/bin/bash
# Exits 0 when the property holds, 1 when it does not. Run in the repository's root.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cd "$tmp" && "$PY" -W ignore "$here/demo.py"
'''
def tests():
    env=dict(os.environ,PYTHONPATH=REPO+"/src",PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0",PYTEST_DISABLE_PLUGIN_AUTOLOAD="1",PYTHONPYCACHEPREFIX="/nonexistent")
    sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s --continue-on-collection-errors --tb=no --junitxml=/tmp/seeds/j.xml"%REPO,cwd=REPO+"/ve/unit",env=env)
    sh("/opt/venv/bin/python /opt/vp/results.py /tmp/seeds/out.json junit:/tmp/seeds/j.xml")
    o=json.load(open("/tmp/seeds/out.json"))
    stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed=set(o.get("passed",[]) if isinstance(o.get("passed"),list) else [k for k,v in o.items() if v=="passed"])
    return stable-passed
def seed(id, prop, edits, needs, breaks, demo, checks=None):
    d=os.path.join(OUT,id)
    if os.path.exists(os.path.join(d,"meta.json")) and "--force" not in sys.argv and id not in sys.argv:
        return
    assert not sh("git -C /tmp/seedwork/repo status --porcelain").stdout.strip(), "dirty"
    try:
        for f,old,new in edits:
            p=os.path.join(REPO,"src/ucis",f)
            s=open(p).read()
            assert s.count(old)==1, (id,f,s.count(old))
            open(p,"w").write(s.replace(old,new))
        diff=sh("git -C /tmp/seedwork/repo diff").stdout
        # removed lines must be lines of the original repository
        rem=[l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        for f in {e[0] for e in edits}:
            base=sh("git -C /tmp/seedwork/repo show %s:src/ucis/%s"%(BASE,f)).stdout.splitlines()
            if rem and not any(l in base for l in rem if l.strip()): print("WARN",id,f,"no original line removed")
        os.makedirs(d,exist_ok=True)
        open(os.path.join(d,"patch.diff"),"w").write(diff)
        open(os.path.join(d,"demo.py"),"w").write(demo.lstrip("\n"))
        open(os.path.join(d,"demo.sh"),"w").write(DEMO); os.chmod(os.path.join(d,"demo.sh"),0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(os.path.join(d,"meta.json"),"w"),indent=1)
        b=sh("true")
        t=tests()
        r=sh("bash %s/demo.sh"%d,cwd=REPO)
        c=sh("/verif/run.sh "+prop,env=dict(os.environ,VX_REPO=REPO))
    finally:
        sh("git -C /tmp/seedwork/repo checkout -- .")
    r0=sh("bash %s/demo.sh"%d,cwd=REPO)
    print("%-28s %s build=%d tests_lost=%s demo_bug=%d demo_clean=%d check=%d %s"%(id,prop,b.returncode,sorted(t),r.returncode,r0.returncode,c.returncode,"" if c.returncode==1 else "<<< MISSED"), flush=True)
    if r0.returncode: print(r0.stdout[-800:],r0.stderr[-1500:])
    if r.returncode==0: print(r.stdout[-800:],r.stderr[-800:])
    if c.returncode!=1: print(c.stdout[-600:])
    else:
        m=[l for l in c.stdout.splitlines() if l.startswith("violated")]
        print("      ",m[0][:230] if m else c.stdout[-300:])
