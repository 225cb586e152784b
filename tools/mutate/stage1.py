#!/usr/bin/env python3
"""Applies every syntactic change to a copy of /repo; keeps those that compile and pass the existing tests.
usage: stage1.py OUT.json [workers]; needs /tmp/mutate (built from mutate.go)."""
import json, os, re, subprocess, sys, shutil, threading, queue
out, W = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 3
R = "/repo"
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
files = [f for f in subprocess.check_output(["git", "-C", R, "ls-files", "*.go"], text=True).split() if not f.endswith("_test.go") and not f.startswith(("test/", "example/"))]
q = queue.Queue()
for f in files:
    for l in subprocess.check_output(["/tmp/mutate", "list", f"{R}/{f}"], text=True).splitlines():
        n, line, name = l.split("\t", 2)
        if re.search(r"(fmt\.|errors\.New|NewError|panic\()", name) or re.match(r"arguments . and . of (make|append|copy|len)", name): continue
        if f.endswith("ristretto.go") and name.startswith("constant") and int(line) < 60: continue
        q.put((f, int(n), int(line), name))
total = q.qsize()
res, lock = [], threading.Lock()
def work(i):
    d = f"/tmp/mutw/s1-{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/mutw", exist_ok=True)
    subprocess.check_call(["cp", "-a", R, d])
    while True:
        try: f, n, line, name = q.get_nowait()
        except queue.Empty: break
        src = open(f"{R}/{f}").read()
        m = subprocess.run(["/tmp/mutate", "apply", f"{R}/{f}", str(n)], capture_output=True, text=True)
        st = "bad"
        if m.returncode == 0 and m.stdout != src:
            open(f"{d}/{f}", "w").write(m.stdout)
            if subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True).returncode: st = "nobuild"
            else:
                try:
                    t = subprocess.run(["go", "test", "-vet=off", "-timeout", "60s", "./..."], cwd=d, env=env, capture_output=True, timeout=150)
                    st = "survives" if t.returncode == 0 else "killed"
                except subprocess.TimeoutExpired: st = "killed"
            open(f"{d}/{f}", "w").write(src)
        with lock:
            res.append({"file": f, "n": n, "line": line, "name": name, "status": st})
            if len(res) % 20 == 0: json.dump(res, open(out, "w"), indent=0); print(len(res), "/", total, flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
json.dump(res, open(out, "w"), indent=0)
from collections import Counter
print(Counter(r["status"] for r in res))
