"""Build /verif/seeded/<id>/ from SEEDS (tools/seeds.py), confirming each in a scratch copy of /repo."""
import sys, os, subprocess, json, shutil, textwrap, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
cd "$PWD" && PYTHONPATH="$PWD" OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
only = set(sys.argv[1:])
scratch = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
try:
    for s in SEEDS:
        if only and s["id"] not in only: continue
        w = os.path.join(scratch, s["id"])
        sh("cp -a /repo %s" % w)
        sh("git checkout -q -- . ", cwd=w)
        for (f, old, new, *cnt) in s["edits"]:
            p = os.path.join(w, f); t = open(p).read()
            n = t.count(old)
            k = cnt[0] if cnt else None
            if k is None and n != 1: print(s["id"], "EDIT matches", n, f); break
            if k is None: t = t.replace(old, new)
            else:
                parts = t.split(old)
                assert len(parts) > k + 1, (s["id"], len(parts))
                t = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
            open(p, "w").write(t)
        else:
            d = sh("git diff", cwd=w).stdout
            # original lines only
            fixed = []
            out = os.path.join("/verif/seeded", s["id"]); os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(d)
            open(out + "/demo.sh", "w").write(DEMO_SH); os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo.py", "w").write("import torch, nnj\nimport torch.nn as nn\n" + textwrap.dedent(s["demo"]).strip() + "\n")
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            a = sh("bash %s/demo.sh" % out, cwd="/repo"); b = sh("bash %s/demo.sh" % out, cwd=w)
            t = sh("OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0 VP_SEED=2 PYTHONPATH=%s:/opt/vp/pytest_plugins %s -m pytest -p vp_seed -n 8 -q -p no:cacheprovider --timeout=300 -o python_files=*.py tests 2>&1 | tail -15" % (w, PY), cwd=w)
            ok = a.returncode == 0 and b.returncode != 0 and "........ " in t.stdout and "FAILED" not in t.stdout
            print(s["id"], s["prop"], "OK" if ok else "BAD", "demo clean", a.returncode, "patched", b.returncode, "tests", t.stdout.strip().splitlines()[-1:], (a.stderr[-300:] if a.returncode else ""))
            if not ok: shutil.rmtree(out)
        shutil.rmtree(w, ignore_errors=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
