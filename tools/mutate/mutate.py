#!/usr/bin/env python3
"""mutate.py OUT [-w N] [-k EVERY:OFFSET] FILE...: applies each small change listed by mutate to a scratch copy of
/repo, one at a time, and runs the checks that concern the file on it until one reports a violation. The changes that
survive are tried against the stable tests. Results, one JSON object per line, go to OUT (resumable)."""
import json, os, subprocess, sys, shutil, tempfile, threading, queue, time
V = "/verif"
env0 = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:/usr/bin:/bin", HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
C = ["C%02d" % i for i in range(1, 13)]
MAP = [("pkg/eventbus/", ["E01", "E02", "E03", "E04", "L02", "T01"]), ("pkg/monny/proc/queue", ["L03", "L02"]),
    ("pkg/monny/proc/ticker", ["T01"]), ("pkg/monny/proc/", ["L01", "L02"]), ("pkg/metric/counter", ["M01", "M02"]),
    ("pkg/metric/", ["M03", "D01"]), ("pkg/fsm/", ["F01", "D01"]), ("pkg/stat/", ["D01"]), ("", C)]
def props(f):
    for p, l in MAP:
        if f.startswith(p): return l
args = sys.argv[1:]; out = args.pop(0); W = 4; K = (1, 0)
if args[0] == "-w": W = int(args[1]); args = args[2:]
if args[0] == "-k": K = tuple(map(int, args[1].split(":"))); args = args[2:]
subprocess.run(["go", "build", "-o", "/tmp/mutate.bin", "."], cwd=V + "/tools/mutate", env=env0, check=True)
muts = []
for f in args:
    r = subprocess.run(["/tmp/mutate.bin", f], cwd="/repo", env=env0, capture_output=True, text=True, check=True)
    muts += [json.loads(l) for l in r.stdout.splitlines()]
muts = muts[K[1]::K[0]]
done = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l); done.add((m["file"], m["from"], m["to"], m["with"]))
todo = queue.Queue()
for m in muts:
    if (m["file"], m["from"], m["to"], m["with"]) not in done: todo.put(m)
print(len(muts), "changes,", todo.qsize(), "to do", flush=True)
lock = threading.Lock()
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def sh(c, cwd, t=900, **e):
    try:
        p = subprocess.Popen(c, shell=True, cwd=cwd, env=dict(env0, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return -9, "timeout"
def work(i):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    os.makedirs(d + "/verif")
    sh(f"cp -a check build.inc.sh known-findings.jsonl properties.jsonl MANIFEST.json rewrite sim {d}/verif/", V)
    sh(f"cp -a /repo {d}/repo && cd {d}/repo && git checkout -q . && git clean -fdq", "/")
    while True:
        try: m = todo.get_nowait()
        except queue.Empty: break
        t0 = time.time()
        p = f"{d}/repo/{m['file']}"
        src = open("/repo/" + m["file"], "rb").read()
        open(p, "wb").write(src[:m["from"]] + m["with"].encode() + src[m["to"]:])
        rc, o = sh(f"go vet -composites=false ./{os.path.dirname(m['file'])} 2>&1 | grep -E 'vet:|declared and not used|imported and not used' ; go build ./{os.path.dirname(m['file'])}", d + "/repo")
        res = None
        if rc != 0: res = "nobuild"
        else:
            rc, o = sh(". ./build.inc.sh && build_sim", d + "/verif", REPO_DIR=d + "/repo")
            if rc != 0: res = "simbuild " + o[-300:]
        if res is None:
            for n in (2000, 12000):
                for q in props(m["file"]):
                    rc, o = sh(f"build/simcheck -prop {q} -j 1 -n {n} -shrink 1s -dir {d}/verif", d + "/verif", 300)
                    if rc != 0:
                        cl = [l for l in o.splitlines() if "class:" in l]
                        res = f"{q}:{rc} {cl[0].strip() if cl else o.strip()[-200:]}"; break
                if res: break
        if res is None:
            ts = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {d}/repo")
            open(d + "/test.sh", "w").write(ts)
            sh(f"rm -f {d}/out.json; bash {d}/test.sh {d}/out.json", d + "/repo")
            try: missing = set(base) - set(json.load(open(d + "/out.json"))["passed"])
            except Exception as e: missing = {str(e)}
            res = "SURVIVED" if not missing else "tests " + sorted(missing)[0]
        open(p, "wb").write(src)
        m["result"] = res; m["took"] = round(time.time() - t0, 1)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
    shutil.rmtree(d)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
for t in ts: t.start()
for t in ts: t.join()
