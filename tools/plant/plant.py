#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the definitions in bugs.py, after confirming each in
a scratch copy: applies, builds, passes the stable tests, demo 0 without and non-zero with."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:/usr/bin:/bin", HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
want = sys.argv[1:]
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, cwd, t=400):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=t)
for b in BUGS:
    if want and b["id"] not in want: continue
    out = f"/verif/seeded/{b['id']}"
    if not want and os.path.exists(out): continue
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    repo = d + "/repo"
    shutil.copytree("/repo", repo, symlinks=True)
    sh("git checkout -q . && git clean -fdq", repo)
    okay = True
    for f, old, new in b["edits"]:
        s = open(f"{repo}/{f}").read()
        n = s.count(old)
        if n != 1:
            print(b["id"], "edit matches", n, "times:", old[:60]); okay = False; break
        open(f"{repo}/{f}", "w").write(s.replace(old, new))
    if not okay: continue
    g = sh("gofmt -l " + " ".join(sorted({e[0] for e in b["edits"]})), repo)
    if g.stdout.strip(): sh("gofmt -w " + g.stdout.replace("\n", " "), repo)
    diff = sh("git diff", repo).stdout
    new = d + "/seed"; os.makedirs(new)
    open(new + "/patch.diff", "w").write(diff)
    kind = b["demo"][0]
    script = open(f"{here}/demo_{kind}.sh").read().replace("FLAGS ", b.get("flags", "") + " " if b.get("flags") else "")
    open(new + "/demo.sh", "w").write(script); os.chmod(new + "/demo.sh", 0o755)
    if kind == "bin": shutil.copy(here + "/lib.go", new + "/lib.go")
    open(new + "/demo.go", "w").write(b["demo"][1])
    sh(f"gofmt -w {new}/demo.go", new)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(new + "/meta.json", "w"), indent=1)
    bl = sh("go build ./... ", repo)
    if bl.returncode: print(b["id"], "does not build", bl.stderr); continue
    ts = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {repo}")
    open(d + "/test.sh", "w").write(ts)
    sh(f"bash {d}/test.sh {d}/out.json", repo)
    try: res = json.load(open(d + "/out.json"))
    except Exception as e: print(b["id"], "no test result", e); continue
    stable = set(base.get("stable") or base.get("stable_pass") or base.get("tests") or base.get("pass") or [])
    passed = set(res.get("passed") or res.get("pass") or [])
    missing = stable - passed
    bad = sh(f"bash {new}/demo.sh", repo)
    sh("git checkout -q .", repo)
    good = sh(f"bash {new}/demo.sh", repo)
    verdict = "OK" if stable and not missing and bad.returncode not in (0, 99) and good.returncode == 0 else "REJECTED"
    print(f"{b['id']} [{b['property']}] {verdict}: stable {len(stable)} missing {len(missing)} {sorted(missing)[:3]}, demo with {bad.returncode} ({bad.stdout.strip()[-160:]} {bad.stderr.strip()[-200:]}), without {good.returncode} {good.stdout.strip()[-200:] if good.returncode else ''}{good.stderr.strip()[-300:] if good.returncode else ''}", flush=True)
    if verdict == "OK":
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(new, out)
    shutil.rmtree(d)
