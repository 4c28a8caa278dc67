"""Apply each rewrite of refactors.py to a scratch copy and run its checks.
usage: tryref.py [-n] [ids]   (-n: only apply and compile)"""
import sys, os, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors as RF
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
for id, checks, file, edits in RF.ALL:
    if ids and not any(i in id for i in ids):
        continue
    sc = "/tmp/vp_ref"
    shutil.rmtree(sc, ignore_errors=True)
    os.makedirs(sc)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % sc, shell=True, check=True)
    try:
        for e in edits:
            f = os.path.join(sc, e[-1] or file)
            t = open(f).read()
            open(f, "w").write(RF.apply(t, e))
    except (AssertionError, KeyError) as ex:
        print(id, "EDIT FAILED", str(ex)[:300]); continue
    cf = file if file.endswith(".c") else "src/base/partition.c"
    r = subprocess.run(["gcc", "-fsyntax-only", "-w", "-DFLOAT64", "-DHAVE_CONFIG_H", "-mavx", "-mfma", "-I%s/src/include" % sc, "-I/repo/_build", "-I/repo/_build/src", os.path.join(sc, cf)], capture_output=True, text=True)
    if r.returncode:
        print(id, "COMPILE", r.stderr[:600]); continue
    if "-n" in sys.argv:
        print(id, "ok"); continue
    for c in checks:
        r = subprocess.run(["/verif/check", c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=sc))
        print("%-16s %s rc=%d %s" % (id, c, r.returncode, "" if r.returncode == 0 else r.stdout[-1500:] + r.stderr[-500:]))
        sys.stdout.flush()
shutil.rmtree("/tmp/vp_ref", ignore_errors=True)
