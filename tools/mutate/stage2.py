#!/usr/bin/env python3
"""Runs the checks against the mutants that compile and pass the existing tests (stage1.py's survivors).
usage: stage2.py STAGE1.json OUT.json [filter-regex] [every-nth]; resumes OUT.json."""
import json, os, re, subprocess, sys, shutil, time
inp, out = sys.argv[1], sys.argv[2]
filt = sys.argv[3] if len(sys.argv) > 3 else "."
nth = int(sys.argv[4]) if len(sys.argv) > 4 else 1
R = "/repo"
order = {
 r"^cmd/": "C24",
 r"^pkg/frost/party/": "C21 C09 C18 C23 C10 C08 C05 C28",
 r"^pkg/eddsa/(public_key|signature)": "C19 C18 C17 C21 C01",
 r"^pkg/eddsa/": "C18 C03 C22 C21 C23 C02 C07 C01 C14",
 r"^pkg/frost/sign/": "C04 C02 C17 C16 C15 C07 C05 C08 C22 C23 C11 C12 C01 C14 C25 C26 C30 C13",
 r"^pkg/frost/keygen/": "C04 C06 C16 C15 C05 C08 C03 C23 C11 C12 C14 C25 C26 C30 C13",
 r"^pkg/frost/frost": "C23 C24 C01 C03",
 r"^pkg/helpers": "C29 C24 C22 C01",
 r"^pkg/internal/": "C20 C10 C09 C06 C21 C15 C03 C22 C16 C08 C27 C28",
 r"^pkg/messages/": "C09 C04 C12 C05 C08 C14 C27",
 r"^pkg/ristretto/": "C20 C19 C09 C18 C16 C28",
 r"^pkg/state/": "C04 C12 C11 C16 C05 C31 C23 C15 C14 C27 C13",
}
done = json.load(open(out)) if os.path.exists(out) else []
seen = {(x["file"], x["n"]) for x in done}
todo = [x for x in json.load(open(inp)) if x["status"] == "survives" and re.search(filt, x["file"])][::nth]
d = f"/tmp/mutw/s2-{os.getpid()}"
os.makedirs("/tmp/mutw", exist_ok=True)
shutil.rmtree(d, ignore_errors=True); subprocess.check_call(["cp", "-a", R, d])
for k, x in enumerate(todo):
    if (x["file"], x["n"]) in seen: continue
    ids = next(v for p, v in order.items() if re.search(p, x["file"])).split()
    f = x["file"]; src = open(f"{R}/{f}").read()
    m = subprocess.run(["/tmp/mutate", "apply", f"{R}/{f}", str(x["n"])], capture_output=True, text=True)
    open(f"{d}/{f}", "w").write(m.stdout)
    x["caught"], x["tried"], x["odd"] = None, [], []
    for i in ids:
        t0 = time.time()
        p = subprocess.run([os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../run.sh"), i, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_LIMIT="150"), capture_output=True, text=True)
        x["tried"].append(f"{i} {time.time()-t0:.0f}s")
        if p.returncode == 1: x["caught"] = i; break
        if p.returncode != 0: x["odd"].append(i + ": " + (p.stdout + p.stderr)[-300:])
    open(f"{d}/{f}", "w").write(src)
    done.append(x); json.dump(done, open(out, "w"), indent=0)
    if not x["caught"] or x["odd"]: print(f"{f}:{x['line']} #{x['n']} {x['name']}: caught={x['caught']} {x['odd']}", flush=True)
shutil.rmtree(d, ignore_errors=True)
from collections import Counter
print(Counter(x["caught"] for x in done))
