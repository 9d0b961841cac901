"""run the checks on behaviour-preserving rewrites, in scratch copies: runrefac.py [NAME[:C01,C02] ...]; anything but exit 0 is a false alarm"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/tools/refactorings"
PROPS = {
    "linear": "C01 C02 C03 C04 C05 C06 C11 C12 C13 C14 C17", "abstract_jacobian": "C07 C11 C13 C14 C17", "abstract_diagonal_jacobian": "C03 C04 C05 C06 C07 C11 C13 C14",
    "relu": "C01 C03 C06 C12 C14", "sigmoid": "C01 C05 C12 C14", "tanh": "C01 C05", "sinusoidal": "C01 C05 C12", "truncexp": "C01 C05 C14", "softplus": "C01 C05 C14", "l2norm": "C01 C05 C14 C21",
    "maxpool2d": "C01 C03 C04 C05 C11 C12 C13 C14", "upsample": "C01 C04 C05 C11 C14 C20", "sequential": "C08 C10 C11 C12 C13 C14 C17 C21", "skipconnection": "C09 C10 C11 C12 C13 C14",
    "log_likelihoods": "C13 C15 C16", "utils": "C18 C19", "conv2d": "C01 C02 C04 C05 C11 C12 C13 C14 C20", "flatten": "C01 C05 C06 C13 C21", "reshape": "C01 C21",
}
ids = sys.argv[1:] or sorted(f[:-5] for f in os.listdir(D) if f.endswith(".diff"))
for a in ids:
    i, _, only = a.partition(":")
    patch = D + "/" + i + ".diff"
    files = [l.split("/")[-1].strip()[:-3] for l in open(patch) if l.startswith("+++ ")]
    props = only.split(",") if only else sorted({p for f in files for p in PROPS[f].split()})
    t = tempfile.mkdtemp(prefix="refac")
    try:
        subprocess.run(["cp", "-a", "/repo/.", t + "/r"], check=True)
        subprocess.run(["git", "-C", t + "/r", "apply", patch], check=True)
        print("== " + i, flush=True)
        for p in props:
            t0 = time.time()
            r = subprocess.run([V + "/check", p], env=dict(os.environ, NNJ_REPO=t + "/r", NNJ_EVIDENCE=t + "/ev", VERIF_SEED="1"), capture_output=True, text=True)
            s = [l for l in r.stdout.splitlines() if l.startswith(p + ":")]
            bad = r.returncode != 0
            print("  %s %s rc=%d %.0fs %s" % ("ALARM" if bad else "ok   ", p, r.returncode, time.time() - t0, s[0][5:] if s else ""), flush=True)
            lines = [l for l in r.stdout.splitlines() if l.startswith(("failed obl", "failing inp", "  undec", "  prover"))]
            for l in lines[: 6 if bad else 3]:
                print("        " + l[:230], flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:], r.stderr[-3000:])
    finally:
        shutil.rmtree(t)
