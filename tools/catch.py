"""catch.py [seed ...]: applies each planted bug to a scratch copy of /repo and
runs the check of its property against that copy (VERIF_REPO)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
SC = "/tmp/vp_catch"
for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    shutil.rmtree(SC, ignore_errors=True)
    os.makedirs(SC)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % SC, shell=True, check=True)
    subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=SC, check=True)
    t = time.time()
    p = subprocess.run([os.path.join(V, "check"), m["property"]], env=dict(os.environ, VERIF_REPO=SC, VERIF_TIER="quick", VERIF_SEED="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
    v = [l for l in p.stdout.decode().splitlines() if l.startswith("VIOLATION")]
    print("%-5s %-4s rc %d %5.1fs %s" % (i, m["property"], p.returncode, time.time() - t, v[:1] or p.stdout.decode()[-300:]), flush=True)
shutil.rmtree(SC, ignore_errors=True)
