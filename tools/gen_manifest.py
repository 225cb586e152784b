#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: every property with a check under mc/ is claimed."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "stateless model checking of the implementation"
DEFAULT = ("exploration", "bounded exhaustive enumeration of executions of the real code against a reference model",
           "Exhaustive within the bounds stated in the evidence file; outside them nothing is claimed. Trusts the Go toolchain, math/big, crypto/ed25519 and crypto/sha512 used by the oracle.")
T = {
 "C04": ("model_checking", "explicit-state model checking of the real sessions: all delivery orders and processing points, lockstep reference model, states merged by whole-object digest", ""),
 "C05": ("model_checking", "explicit-state model checking of the real sessions with a stray-message budget at every point, lockstep reference model", ""),
 "C06": ("fault_enumeration", "exhaustive enumeration of faulty key generation messages of one or several cheaters combined with delivery orders, on the real sessions", ""),
 "C07": ("fault_enumeration", "exhaustive enumeration of faulty signing messages, including cancelling ones, combined with delivery orders, on the real sessions", ""),
 "C08": ("fault_enumeration", "exhaustive enumeration of malformed wire messages delivered in every session state, against a reference grammar", ""),
 "C11": ("model_checking", "explicit-state model checking of the real sessions over histories that continue past the end", ""),
 "C12": ("model_checking", "explicit-state model checking of the real sessions with the clock as an additional transition (instrumented time)", ""),
 "C13": ("model_checking", "stateless model checking of goroutine schedules under a controlled scheduler with bounded preemption, race detector on, linearizability decided by exhaustive search", ""),
 "C28": ("model_checking", "stateless model checking of goroutine schedules of all pairs of reading operations under a controlled scheduler with bounded preemption, race detector on, results compared with sequential ones", ""),
 "C30": ("model_checking", "explicit exploration of all sequences of operations on a key up to a depth, on the real code, with invariants checked after every operation", ""),
 "C29": ("exploration", "bounded exhaustive enumeration of histories and of their cuts into batches, lockstep with a twin session; enumeration of sets and thresholds for the dealer", ""),
 "C31": ("model_checking", "explicit enumeration of all delivery orders and processing points of the real engine with recording rounds, in lockstep with a reference model", ""),
 "C32": ("model_checking", "explicit-state exploration of every way a session goes, and enumeration of damaged inputs and arguments, with everything that comes out searched for every secret", ""),
 "C14": ("model_checking", "explicit-state exploration of interleavings of sessions and caller mutations, with full snapshots compared after every step", ""),
 "C16": ("model_checking", "explicit-state exploration of every way a session ends, followed by an exhaustive walk of everything reachable from it", ""),
 "C24": ("fault_enumeration", "exhaustive enumeration of parameters, messages, write failures and key-file damage around the real programs, judged by reference arithmetic and standard Ed25519", ""),
 "C15": ("fault_enumeration", "exhaustive enumeration of randomness-source behaviours (short reads, failures at every read) over complete sessions", ""),
}
NOTE = DEFAULT[2]
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists(os.path.join(root, "mc", i.lower(), "main.go")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    level, tech, note = T.get(i, DEFAULT)
    level = re.search(r'Level: +"(\w+)"', open(os.path.join(root, "mc", i.lower(), "main.go")).read()).group(1)
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note or NOTE})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "verifinstr", "enable": "nothing is committed in /repo: tools/build.sh lays the packages of mc/ and an instrumented copy of the sources over /repo with 'go build -overlay' and -tags verifinstr", "source_commits": []},
     "notes": "See DESIGN.md. known_findings.txt lists genuine defects (fixed ones as 'fixed:' lines)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
