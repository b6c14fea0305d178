#!/usr/bin/env python3
"""run.py [--all] [--jobs N] [--out FILE] [name-prefix ...]
Applies each mutant to a scratch copy of /repo and runs the checks of a scratch copy of /verif
against it: the checks of the mutant's properties, or all of them (--all). Not used by any check."""
import argparse, json, os, shutil, subprocess, sys, tempfile, threading, queue, time
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
ap = argparse.ArgumentParser()
ap.add_argument("--all", action="store_true")
ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--out", default="/tmp/mutants.json")
ap.add_argument("--set", default="mutants")
ap.add_argument("names", nargs="*")
a = ap.parse_args()
M = __import__(a.set).M
root = tempfile.mkdtemp(prefix="mw", dir="/tmp")
claimed = [c["property"] for c in json.load(open(verif + "/MANIFEST.json"))["checks"]]
q = queue.Queue()
for x in M:
    if not a.names or any(x[0].startswith(n) for n in a.names):
        q.put(x)
results, lock = {}, threading.Lock()

def edit(repo, es):
    for e in es:
        f, o, n = e[:3]
        i = e[3] if len(e) > 3 else None
        s = open(f"{repo}/{f}").read()
        if i == -1:
            s = s.replace(o, n)
        elif i is None:
            assert s.count(o) == 1, (f, o)
            s = s.replace(o, n)
        else:
            parts = s.split(o)
            s = o.join(parts[:i + 1]) + n + o.join(parts[i + 1:])
        open(f"{repo}/{f}", "w").write(s)

def worker(k):
    d = f"{root}/{k}"
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "--exclude", "evidence", verif + "/", d + "/verif/"], check=True) if shutil.which("rsync") else subprocess.run(["cp", "-a", verif, d + "/verif"], check=True)
    subprocess.run(f"grep -rlZ --include=Cargo.toml --include='*.rs' --include=check.sh --exclude-dir=target /repo {d}/verif | xargs -0 sed -i 's#/repo#{d}/repo#g'", shell=True, check=True)
    subprocess.run(["bash", d + "/verif/check.sh", "build"], check=False, capture_output=True)
    while True:
        try:
            name, props, es = q.get_nowait()
        except queue.Empty:
            break
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
        try:
            edit(d + "/repo", es)
        except AssertionError as e:
            print(name, "DOES NOT APPLY", e, flush=True)
            continue
        r = {}
        for p in (os.environ["ONLY"].split() if "ONLY" in os.environ else claimed if a.all else props):
            t = time.time()
            try:
                x = subprocess.run(["bash", d + "/verif/check.sh", p, "quick"], capture_output=True, text=True, timeout=900)
                rc = x.returncode
                line = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
                msg = (x.stdout.strip().splitlines() or [""])[-1][:300] if rc == 1 else (x.stderr[-1500:] if rc else "")
                if rc == 1 and not line: rc = 77
            except subprocess.TimeoutExpired:
                rc, msg = 124, "timeout"
            r[p] = (rc, msg, round(time.time() - t, 1))
            if rc == 2: break
        with lock:
            results[name] = {"props": props, "r": r}
            caught = [p for p in r if r[p][0] == 1]
            missed = [p for p in props if r.get(p, (0,))[0] != 1]
            odd = [p for p in r if r[p][0] not in (0, 1)]
            print(name, "caught by", caught, *(["MISSED BY", missed] if missed else []), *(["ODD", [(p, r[p][0]) for p in odd]] if odd else []), flush=True)
            json.dump(results, open(a.out, "w"), indent=1)

ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(root)
print("done", len(results))
