"""mkseed.py [id ...]: writes /verif/seeded/<id>/ from tools/seeds.py and checks
each in a scratch copy: builds, passes the stable tests, demo fails with and
passes without the change."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/vp_scr"
sys.path.insert(0, os.path.join(V, "tools"))
import seeds  # noqa

HEAD = r'''
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include "armas.h"
typedef struct { double *elems; int step, rows, cols; void *d; int nb; } M;
armas_env_t *armas_getenv();
static M mk(int r, int c, int s) { M m; m.step = s; m.rows = r; m.cols = c; m.d = 0; m.nb = 0; m.elems = calloc((size_t)s * (c > 0 ? c : 1) + 64, 8) ;
    for (int i = 0; i < s * c + 64; i++) m.elems[i] = 1000 + i; return m; }
#define AT(m, i, j) ((m).elems[(i) + (j) * (m).step])
static double val(int i, int j, int k) { return ((i * 7 + j * 5 + k * 3) % 11) - 5; }
static M fill(int r, int c, int s, int k) { M m = mk(r, c, s); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) AT(m, i, j) = val(i, j, k); return m; }
static M dup(M a) { M m = a; m.elems = malloc(((size_t)a.step * (a.cols > 0 ? a.cols : 1) + 64) * 8); memcpy(m.elems, a.elems, ((size_t)a.step * (a.cols > 0 ? a.cols : 1) + 64) * 8); return m; }
static int bad;
static void near(double a, double b, const char *w) { if (!(fabs(a - b) <= 1e-8 * (1 + fabs(b)))) { printf("%s: %g expected %g\n", w, a, b); bad = 1; } }
'''
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
gcc -O1 -w -DFLOAT64 -I/repo/src/include -I/repo/_build -I/repo/_build/src -o "$t/demo" "$here/demo.c" -L/repo/_build/src/.libs -larmasd -lm -lpthread || exit 1
LD_LIBRARY_PATH=/repo/_build/src/.libs timeout 60 "$t/demo"
'''


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    ids = sys.argv[1:] or [s["id"] for s in seeds.SEEDS]
    if os.path.exists(SCR):
        shutil.rmtree(SCR)
    sh("cp -a /repo %s" % SCR)
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/opt/vp/build.sh", SCR + "/.vp_build.sh").replace("/repo", SCR)
        open(SCR + "/.vp_" + s, "w").write(t)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", json.load(open("/opt/vp/BASELINE.json")).get("stable", [])))
    sh("bash %s/.vp_build.sh" % SCR)
    for s in seeds.SEEDS:
        if s["id"] not in ids:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        f = os.path.join(SCR, s["file"])
        src = open(f).read()
        edits = s["edits"]
        new = src
        for a, b in edits:
            assert new.count(a) >= 1, (s["id"], "pattern missing", a)
            n = s.get("nth", 0)
            pos = -1
            for _ in range(n + 1):
                pos = new.index(a, pos + 1)
            new = new[:pos] + b + new[pos + len(a):]
        open(f, "w").write(new)
        diff = sh("git -C %s diff -- %s" % (SCR, s["file"])).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.c"), "w").write(HEAD + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("mkdir -p %s/.demo; cp %s/demo.c %s/.demo/; sed 's#/repo#%s#g' %s/demo.sh > %s/.demo/demo.sh" % (SCR, d, SCR, SCR, d, SCR))
        b = sh("bash %s/.vp_build.sh" % SCR)
        r1 = sh("bash %s/.demo/demo.sh" % SCR)
        ok = b.returncode == 0
        miss = None
        if ok and "-n" not in sys.argv:
            sh("bash %s/.vp_test.sh %s/.out.json" % (SCR, SCR))
            got = set(json.load(open(SCR + "/.out.json"))["passed"])
            miss = len(base - got)
        open(f, "w").write(src)
        sh("bash %s/.vp_build.sh" % SCR)
        r0 = sh("bash %s/.demo/demo.sh" % SCR)
        print(s["id"], "build", ok, "tests missing", miss, "demo with:", r1.returncode, "without:", r0.returncode,
              "OK" if ok and miss == 0 and r1.returncode != 0 and r0.returncode == 0 else "***", r0.stdout.decode()[-300:] if r0.returncode else "",
              r1.stdout.decode()[-200:] if r1.returncode not in (0, 1) else "")
        sys.stdout.flush()
    shutil.rmtree(SCR)


main()
