#!/usr/bin/env python3
"""dev/mkseed.py SPEC.py : make /verif/seeded/<id>/ from a spec and confirm the demo in a scratch copy.

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; cwd is the tree)."""
import json, os, runpy, shutil, subprocess, sys

def main(spec, keep=True):
    s = runpy.run_path(spec)
    W = f"/tmp/w/seedcopy_{os.getpid()}"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    d = f"/verif/seeded/{s['ID']}"
    try:
        os.makedirs(d, exist_ok=True)
        for f, old, new in s["EDITS"]:
            p = os.path.join(W, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["DEMO"])
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\n# cwd: the tree under test; exit 0 when the property holds on this instance\n'
            'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
            'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=W, capture_output=True, text=True, timeout=300)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=W, capture_output=True, text=True, timeout=300)
        ok = r0.returncode == 0 and r1.returncode != 0
        print(s["ID"], "clean rc", r0.returncode, "patched rc", r1.returncode, "OK" if ok else "FAILED")
        if not ok or "-v" in sys.argv:
            print("clean:", r0.stdout[-800:], r0.stderr[-1500:], "\npatched:", r1.stdout[-800:], r1.stderr[-800:])
        else:
            print("   patched says:", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
        # run the check against the patched scratch copy
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, check=True)
        env = dict(os.environ, VERIF_REPO=W)
        r = subprocess.run(["python3", "/verif/check.py", s["PROPERTY"]], env=env, capture_output=True, text=True)
        print("   check:", r.returncode, r.stdout.strip().splitlines()[-1][:160] if r.stdout else r.stderr[-300:])
    finally:
        shutil.rmtree(W, ignore_errors=True)

main(sys.argv[1])
