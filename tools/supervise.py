#!/usr/bin/env python3
"""Run one check in a child process; if the child dies of a signal (stack
overflow, abort, out of memory) find the case that kills it by re-running the
cases that were in flight, and report that as the violation it is."""
import sys, subprocess, os, tempfile, shutil, json, resource
binp, pid, root = sys.argv[1:4]
extra = sys.argv[4:]
tier = os.environ.get("VERIF_TIER", "quick")
if "--tier" in extra: tier = extra[extra.index("--tier")+1]
slots = tempfile.mkdtemp(prefix="mon-slots-")
env = dict(os.environ, MON_SLOTS=slots, RUST_BACKTRACE="0")
def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
try:
    p = subprocess.run([binp, "--property", pid, "--root", root, *extra], env=env, preexec_fn=limit)
    rc = p.returncode
    if rc in (0, 1, 2, 3):
        sys.exit(rc)
    print(f"harness process ended with {rc}; re-running the cases in flight")
    bad = None
    for f in sorted(os.listdir(slots)):
        try: _, load, idx, cs = open(os.path.join(slots, f)).read().split()
        except ValueError: continue
        try:
            q = subprocess.run([binp, "--property", pid, "--root", root, "--tier", tier, "--case", load, "--idx", idx, "--cseed", cs],
                           env=env, preexec_fn=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=180)
            if q.returncode < 0 or q.returncode > 3:
                bad = (load, idx, cs, q.returncode); break
        except subprocess.TimeoutExpired:
            pass
    if not bad:
        print(f"INCONCLUSIVE property={pid}: the process died ({rc}) but no single case reproduces it")
        sys.exit(2)
    load, idx, cs, code = bad
    os.makedirs(os.path.join(root, "replays"), exist_ok=True)
    path = os.path.join(root, "replays", f"{pid}-{load}-{cs}.json")
    d = {"property": pid, "workload": load, "idx": int(idx), "case_seed": int(cs), "key": "crash",
         "message": f"process killed by signal/exit {code}", "tier": tier}
    json.dump(d, open(path, "w"), indent=1)
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier if tier in ("quick","thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
               "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run aborted by a crash of the code under test", "samples": [json.dumps(d)]},
               "wall_s": 0, "violations": 1, "violation_details": [d]}, open(os.path.join(root, "evidence", pid + ".json"), "w"))
    print(f"VIOLATION property={pid} replay={path}")
    print(f"  the code under test crashed the process ({code}) in {load} idx={idx}")
    sys.exit(1)
finally:
    shutil.rmtree(slots, ignore_errors=True)
