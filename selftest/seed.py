#!/usr/bin/env python3
"""seed.py NAME... (default: all of seeds.S)
Writes /verif/seeded/<name>/ from seeds.py: the patch, the demonstration and meta.json, and
verifies it in a scratch copy: the patch applies, builds, passes the stable tests, and the
demonstration succeeds without and fails with it. Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from seeds import S
names = sys.argv[1:]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
for name, prop, needs, breaks, edits, main, *lib in S:
    if names and name not in names: continue
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    out = f"{verif}/seeded/{name}"
    try:
        sh(f"git clone -q /repo {d}/repo")
        for e in edits:
            f, o, n = e[:3]
            p = f"{d}/repo/{f}"
            s = open(p).read()
            if len(e) > 3:
                parts = s.split(o); i = e[3]
                s = o.join(parts[:i+1]) + n + o.join(parts[i+1:])
            else:
                assert s.count(o) == 1, (name, f, s.count(o))
                s = s.replace(o, n)
            open(p, "w").write(s)
        sh(f"cd {d}/repo && cargo fmt 2>/dev/null")
        patch = sh(f"git -C {d}/repo diff").stdout
        files = sh(f"git -C {d}/repo diff --stat").stdout
        sh(f"git -C {d}/repo checkout -q -- .")
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        demo = open(f"{here}/common/demo.sh").read()
        if lib:  # features of the library build
            demo = demo.replace('{ path = "$repo" }', '{ path = "$repo", default-features = false, features = [%s] }' % lib[0]).replace('", "staking"]', '"]')
            open(out + "/main.rs", "w").write(main.strip() + "\n")
        else:
            shutil.copy(f"{here}/common/h.rs", out)
            open(out + "/main.rs", "w").write("mod h;\nuse h::*;\n#[allow(unused_imports)]\nuse cosmwasm_std::*;\n\n" + main.strip() + "\n")
        open(out + "/demo.sh", "w").write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        a = sh(f"bash {out}/demo.sh", cwd=f"{d}/repo")
        ap = sh(f"git -C {d}/repo apply {out}/patch.diff")
        b = sh(f"bash {out}/demo.sh", cwd=f"{d}/repo")
        t = sh("cargo test --offline --lib", cwd=f"{d}/repo", env=dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtarget", RUSTUP_TOOLCHAIN="1.99.1"))
        tests = [l for l in t.stdout.splitlines() if l.startswith("test result")]
        good = a.returncode == 0 and ap.returncode == 0 and b.returncode == 1 and t.returncode == 0
        print(name, "GOOD" if good else "BAD", a.returncode, b.returncode, t.returncode, b.stderr.strip().splitlines()[-1:] , tests, flush=True)
        if not good: print(a.stdout[-1500:], a.stderr[-800:], ap.stderr, b.stdout[-2500:], b.stderr[-800:], t.stdout[-800:], t.stderr[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
