"""run the checks against the planted changes in scratch copies: runseeds.py [ID ...]; result table on stdout"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = os.path.join(V, "seeded", i)
    p = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["cp", "-a", "/repo/.", t + "/r"], check=True)
        subprocess.run(["git", "-C", t + "/r", "apply", d + "/patch.diff"], check=True)
        t0 = time.time()
        r = subprocess.run([V + "/check", p], env=dict(os.environ, NNJ_REPO=t + "/r", NNJ_EVIDENCE=t + "/ev", VERIF_SEED="1"), capture_output=True, text=True)
        vl = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        fo = [l[:150] for l in r.stdout.splitlines() if l.startswith(("failed obl", "failing inp", "  undec", p + ":"))]
        kind = "MISSED" if not vl else ("no-input" if "no-failing" in vl[0] else "caught")
        print("%-40s %s rc=%d %s %.0fs" % (i, p, r.returncode, kind, time.time() - t0), flush=True)
        for l in fo:
            print("      " + l, flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:], r.stderr[-3000:])
    finally:
        shutil.rmtree(t)
