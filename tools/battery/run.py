#!/usr/bin/env python3
"""run.py FILE... [-w N] [-o id,id]: runs the checks named on each hand-written change (no demonstration needed); prints those missed."""
import sys, os, subprocess, tempfile, shutil, threading, queue, json, importlib.util
V="/verif"
env0=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:/usr/bin:/bin",HOME="/root",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOSUMDB="off")
a=sys.argv[1:]; W=3; only=None
if "-w" in a: i=a.index("-w"); W=int(a[i+1]); del a[i:i+2]
if "-o" in a: i=a.index("-o"); only=a[i+1].split(","); del a[i:i+2]
bugs=[]
for f in a:
    s=importlib.util.spec_from_file_location("m",f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); bugs+=m.B
q=queue.Queue()
for x in bugs:
    if not only or x[0] in only: q.put(x)
base=json.load(open("/opt/vp/BASELINE.json"))["stable"]
lock=threading.Lock(); res={}
def sh(c,cwd,t=900,**e):
    try:
        p=subprocess.Popen(c,shell=True,cwd=cwd,env=dict(env0,**e),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",start_new_session=True)
        o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return -9,"timeout"
def one(d,id,prop,edits):
    sh("git checkout -q .",d+"/repo")
    for f,old,new in edits:
        p=f"{d}/repo/{f}"; s=open(p).read()
        if s.count(old)<1: return "NOEDIT "+f+": "+old[:60]
        open(p,"w").write(s.replace(old,new,1))
    rc,o=sh("go build ./...",d+"/repo")
    if rc: return "NOBUILD "+o[:300]
    rc,o=sh(". ./build.inc.sh && build_sim",d+"/verif",REPO_DIR=d+"/repo")
    if rc: return "SIMBUILD "+o[-300:]
    rc,o=sh(f"build/simcheck -prop {prop} -j 2 -shrink 1s -wall 120s -dir {d}/verif",d+"/verif",900)
    cl=[l.strip() for l in o.splitlines() if "class:" in l]
    if rc==1 and "VIOLATION" in o: return "caught "+" / ".join(sorted(set(cl)))[:120]
    ts=open("/opt/vp/test.sh").read().replace("cd /repo",f"cd {d}/repo"); open(d+"/test.sh","w").write(ts)
    sh(f"rm -f {d}/out.json; bash {d}/test.sh {d}/out.json",d+"/repo")
    try: miss=set(base)-set(json.load(open(d+"/out.json"))["passed"])
    except Exception as e: miss={str(e)}
    return ("MISSED" if rc==0 else f"RC{rc} "+o[-300:])+(" (tests fail: %s)"%sorted(miss)[0] if miss else "")
def work():
    d=tempfile.mkdtemp(prefix="bat.",dir="/tmp"); os.makedirs(d+"/verif")
    sh(f"cp -a check build.inc.sh known-findings.jsonl properties.jsonl MANIFEST.json rewrite sim {d}/verif/",V)
    sh(f"cp -a /repo {d}/repo","/")
    while True:
        try: x=q.get_nowait()
        except queue.Empty: break
        try: r=one(d,*x)
        except Exception as e: r="EXC "+repr(e)
        with lock: print(f"{x[0]:32s} {x[1]} {r}",flush=True)
    shutil.rmtree(d)
ts=[threading.Thread(target=work) for _ in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
