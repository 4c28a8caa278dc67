"""Concrete reading of the contracts.  The same contract functions the verifier
checks are evaluated here over actual numbers and compared with what the
compiled library does: used to turn a failed obligation into a failing input,
and to replay one."""
import ctypes
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import term as T
from vc.term import *
from vc import symex as S
from vc.symex import NULL, UNINIT
from vc.frontend import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CFLAGS = ["-DHAVE_CONFIG_H", "-DFLOAT64", "-O1", "-ffast-math", "-fno-omit-frame-pointer", "-march=x86-64-v3",
          "-fPIC", "-w", "-pthread", '-DCONFIG_SETTINGS=""', '-DCOMPILER=""', '-DCOMPILE_TIME=""']


# ------------------------------------------------------------------ library
def sources():
    mk = open(os.path.join(REPO, "src", "Makefile.am")).read()
    out = []
    for s in re.findall(r"\b((?:base|blas|eblas|lapack|sparse|threaded|workers|compat|io)/[\w]+\.c)\b", mk):
        if s not in out and os.path.exists(os.path.join(REPO, "src", s)):
            out.append(s)
    return out


def build(dst, asan=True):
    """compile every library source of the current tree; returns the .so path"""
    src = os.path.join(REPO, "src")
    flags = list(CFLAGS) + (["-fsanitize=address"] if asan else [])
    inc = ["-I" + os.path.join(HERE, "cfg"), "-I" + src, "-I" + os.path.join(src, "include")]
    jobs = []
    objs = []
    files = [(os.path.join(src, s), s) for s in sources()] + [(os.path.join(VERIF, "replay", "helper.c"), "helper.c")]
    errs = []
    ncpu = os.cpu_count() or 4

    def reap(n):
        while len(jobs) > n:
            p, s = jobs.pop(0)
            e = p.communicate()[1]
            if p.returncode != 0:
                errs.append((s, e.decode()[:400]))
    for full, s in files:
        o = os.path.join(dst, s.replace("/", "_")[:-2] + ".o")
        objs.append(o)
        sub = [] if s == "helper.c" else ["-Dpthread_create=vp_pthread_create"]
        jobs.append((subprocess.Popen(["gcc"] + flags + sub + inc + ["-c", full, "-o", o], stderr=subprocess.PIPE), s))
        reap(ncpu - 1)
    reap(0)
    bad = {s for s, _ in errs}
    objs = [o for o in objs if os.path.exists(o)]
    so = os.path.join(dst, "libarmas_vp.so")
    p = subprocess.run(["gcc", "-shared", "-o", so] + objs + (["-fsanitize=address"] if asan else []) + ["-lm", "-lpthread"],
                       stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise RuntimeError("link: " + p.stderr.decode()[:500])
    return so, errs


class Dense(ctypes.Structure):
    _fields_ = [("elems", ctypes.c_void_p), ("step", ctypes.c_int), ("rows", ctypes.c_int), ("cols", ctypes.c_int),
                ("data", ctypes.c_void_p), ("nbytes", ctypes.c_int)]


# ------------------------------------------------------------ number values
FN = {}


def evalp(p):
    """value of a variable-free polynomial: Fraction when exact, else float"""
    p = K(p)
    if p.is_const():
        return p.const()
    s = 0
    for m, c in p.t:
        v = c
        for a, e in m:
            x = evala(a)
            if e < 0 and x == 0:
                return float('nan')
            v = v * (x ** e if not (e < 0 and isinstance(x, int)) else Fraction(x) ** e)
        s = s + v
    return s


def evala(a):
    k = a.kind
    if k == 'abs':
        return abs(evalp(a.args[0]))
    if k == 'sqrt':
        v = evalp(a.args[0])
        return math.sqrt(v) if v >= 0 else float('nan')
    if k == 'inv':
        v = evalp(a.args[0])
        return float('nan') if v == 0 else Fraction(1) / v if isinstance(v, (int, Fraction)) else 1.0 / v
    if k in ('max', 'min'):
        return (max if k == 'max' else min)(evalp(a.args[0]), evalp(a.args[1]))
    if k == 'sign':
        v = evalp(a.args[0])
        return -1 if v < 0 else 1
    if k == 'ind':
        return 1 if evalc(a.args[0]) else 0
    if k == 'ite':
        return evalp(a.args[1] if evalc(a.args[0]) else a.args[2])
    if k == 'div':
        return evalp(a.args[0]) // evalp(a.args[1])
    if k == 'uf' and a.args[0] in FN:
        return FN[a.args[0]](*[evalp(x) for x in a.args[1:]])
    raise ValueError("no value for %s" % T.show_atom(a))


def evalc(c):
    if c is True or c is False:
        return c
    k = c[0]
    if k in ('le', 'rle'):
        return evalp(c[1]) <= 0
    if k == 'rlt':
        return evalp(c[1]) < 0
    if k in ('eq', 'req'):
        return evalp(c[1]) == 0
    if k == 'not':
        return not evalc(c[1])
    if k == 'and':
        return all(evalc(x) for x in c[1:])
    if k == 'or':
        return any(evalc(x) for x in c[1:])
    raise ValueError(c)


class Skip(Exception):
    pass


def num(v):
    """normal form of a value read or written"""
    v = evalp(v) if isinstance(v, Poly) else v
    if isinstance(v, float):
        return K(Fraction(v)) if math.isfinite(v) else K(0)
    return K(v)


class CView:
    def __init__(self, c, name, mem, r0, c0, rows, cols):
        self.c, self.name, self.mem, self.r0, self.c0 = c, name, mem, r0, c0
        self.rows, self.cols = K(rows), K(cols)
        self.nr, self.nc = int(evalp(rows)), int(evalp(cols))
        self.struct = self

    def __call__(self, i, j=None):
        i = int(evalp(i))
        if j is None:
            i, j = (0, i) if self.nr == 1 else (i, 0)
        else:
            j = int(evalp(j))
        return self.c.rd(self.mem, self.r0 + i, self.c0 + j)

    def isrow(self):
        return self.nr == 1

    @property
    def n(self):
        return self.cols if self.nr == 1 else self.rows

    @property
    def size(self):
        return self.rows * self.cols

    def isvec(self):
        return self.nr == 1 or self.nc == 1

    def sub(self, r, c, nr, nc):
        return CView(self.c, self.name, self.mem, self.r0 + int(evalp(r)), self.c0 + int(evalp(c)), nr, nc)


class CFlags:
    def __init__(self, v, log):
        self.v, self.log = v, log

    def and_(self, m):
        self.log |= {b for b in range(32) if m >> b & 1}
        return CFlags(self.v & m, self.log)

    def nonzero(self):
        return self.v != 0

    def equals(self, m):
        return self.v == m


class CCtx:
    """SpecCtx over numbers"""
    concrete = True

    def __init__(self, args, mems, env):
        self.args, self.mems, self.envv = args, mems, env
        self.out = {}                    # (mem, r, c) -> value | UNINIT
        self.retval = None
        self.retfree = False
        self.sets = {}
        self.hdr = {}
        self.measure = None
        self.mayalias = set()
        self.postconds = []
        self.after = []                  # told about the matrices as they came back

    def __getattr__(self, k):
        a = self.__dict__.get("args", {})
        if k in a:
            return a[k]
        raise AttributeError(k)

    def rd(self, mem, r, c):
        return self.mems[mem][(r, c)]

    def decide(self, c):
        return evalc(c)

    decide_quiet = decide

    def flag(self, f, m):
        return f.and_(m).nonzero()

    def flagsel(self, f, m, v):
        return f.and_(m).equals(v)

    def ensures(self, f, desc=""):
        """consequences of the values given by write; checked by the proof only"""

    def requires(self, c, desc=""):
        if not evalc(c):
            raise Skip()

    def decreases(self, m):
        pass

    def nobuffer(self):
        return False

    def extent(self, v, rows, cols, unused=()):
        self.requires(c_and(c_eq(v.rows, rows), c_eq(v.cols, cols)))

    def optflags(self):
        return self.args["conf"]["optflags"]

    def scratch(self, cache):
        pass

    def sum(self, lo, hi, f):
        lo, hi = int(evalp(lo)), int(evalp(hi))
        s = T.ZERO
        for k in range(lo, hi):
            s = s + f(K(k))
        return s

    def nonzero(self, n, f, desc=""):
        for i in range(int(evalp(n))):
            if abs(evalp(f(K(i)))) < 0.5:
                raise Skip()

    def positive(self, y, n):
        for i in range(int(evalp(n))):
            k = (y.r0 + i, y.c0 + i)
            self.mems[y.mem][k] = K(abs(evalp(self.mems[y.mem][k])))
            if evalp(self.mems[y.mem][k]) < 0.5:
                raise Skip()

    def stage(self, v, f):
        pass

    def claim(self, f):
        pass

    def ghost(self, v):
        """values for the solution; given() derives the input from them"""
        g = "~" + v.mem
        if g not in self.mems:
            a = self.case["args"][v.mem]
            rnd = random.Random(json.dumps(a["data"]) if "ghost" not in a else 0)
            a.setdefault("ghost", [[rnd.randint(-4, 4) for _ in range(a["cols"])] for _ in range(a["rows"])])
            self.mems[g] = {(i, j): K(a["ghost"][i][j]) for i in range(a["rows"]) for j in range(a["cols"])}
        return CView(self, v.name, g, v.r0, v.c0, v.rows, v.cols)

    def given(self, v, f, alpha=None, where=None):
        alpha = evalp(K(1 if alpha is None else alpha))
        if alpha == 0:
            for k in self.mems["~" + v.mem]:
                self.mems["~" + v.mem][k] = T.ZERO
            return
        new = {}
        for i in range(v.nr):
            for j in range(v.nc):
                if where is None or evalc(where(K(i), K(j))):
                    new[(v.r0 + i, v.c0 + j)] = float(evalp(f(K(i), K(j))) / alpha)
        for (i, j), x in new.items():
            self.mems[v.mem][(i, j)] = K(Fraction(x))
            self.case["args"][v.mem]["data"][i][j] = x

    def givenv(self, v, f, alpha=None):
        if v.isrow():
            self.given(v, lambda i, j: f(j), alpha)
        else:
            self.given(v, lambda i, j: f(i), alpha)

    def write(self, v, f, where=None):
        vals = {}
        for i in range(v.nr):
            for j in range(v.nc):
                if where is not None and not evalc(where(K(i), K(j))):
                    continue
                vals[(v.mem, v.r0 + i, v.c0 + j)] = num(f(K(i), K(j)))
        self.out.update(vals)

    def writev(self, v, f, where=None):
        if v.isrow():
            self.write(v, lambda i, j: f(j), (lambda i, j: where(j)) if where else None)
        else:
            self.write(v, lambda i, j: f(i), (lambda i, j: where(i)) if where else None)

    def havoc(self, v):
        for i in range(v.nr):
            for j in range(v.nc):
                self.out[(v.mem, v.r0 + i, v.c0 + j)] = UNINIT

    def ret(self, v):
        self.retval = v if isinstance(v, tuple) or v is NULL else None if isinstance(v, (dict, CView)) else K(v)

    def val(self, p, path=()):
        return p["value"]

    def setval(self, p, v, path=()):
        self.sets[p["name"]] = num(v)

    def error(self, code):
        self.sets["$error"] = K(code)

    def setview(self, p, B, i, j, nr, nc, step=None):
        if p is NULL:
            return
        nm = p.name if isinstance(p, CView) else p["name"]
        self.hdr[nm] = tuple(int(evalp(x)) for x in (nr, nc, step if step is not None else B.step)) + (
            (B.mem, B.r0 + int(evalp(i)), B.c0 + int(evalp(j))),)

    def zeroview(self, p, fields=("rows", "cols", "step", "elems", "__data", "__nbytes")):
        self.hdr[p["name"]] = (0, 0, 0 if "step" in fields else None, None)

    # ---- order
    @staticmethod
    def keyof(key):
        return abs if key == "abs" else (lambda x: x)

    def elems(self, v):
        return [evalp(v(i)) for i in range(int(evalp(v.n)))]

    def where(self, v, i):
        return (v.r0, v.c0 + i) if v.isrow() else (v.r0 + i, v.c0)

    def reorder(self, v, up, key=None):
        old = self.elems(v)
        if key is None:
            new = sorted(old, reverse=not up)
            self.writev(v, lambda i: K(new[int(evalp(i))]))
            return
        self.havoc(v)
        kf = self.keyof(key)

        def told(m):
            new = [m[v.mem][i][j] for i, j in (self.where(v, k) for k in range(len(old)))]
            if sorted(new) != sorted(map(float, old)):
                return "%s is %s, not a rearrangement of %s" % (v.name, new, [float(x) for x in old])
            if list(map(kf, new)) != sorted(map(kf, new), reverse=not up):
                return "%s is not ordered: %s" % (v.name, new)
        self.after.append(told)

    def best(self, v, up, key=None):
        k = list(map(self.keyof(key), self.elems(v)))
        self.ret(k.index(max(k) if up else min(k)))

    def extreme(self, v, up, key=None):
        k = list(map(self.keyof(key), self.elems(v)))
        self.ret(K(max(k) if up else min(k)))

    def together(self, key, up, others):
        old = [float(x) for x in self.elems(key)]
        n = len(old)

        def part(get, kind, m, i):
            if kind == "elem":
                return (get(m, *self.where(m, i)),)
            if kind == "col":
                return tuple(get(m, m.r0 + r, m.c0 + i) for r in range(m.nr))
            return tuple(get(m, m.r0 + i, m.c0 + r) for r in range(m.nc))
        parts = [("elem", key)] + others
        before = lambda m, r, c: float(evalp(self.rd(m.mem, r, c)))
        was = sorted(tuple(part(before, k, m, i) for k, m in parts) for i in range(n))
        for k, m in parts:
            self.havoc(m if k == "elem" and m is key else m.sub(0, 0, m.rows, n) if k == "col" else m.sub(0, 0, n, m.cols) if k == "row"
                       else m.sub(0, 0, 1, n) if m.isrow() else m.sub(0, 0, n, 1))

        def told(mats):
            now = [tuple(part(lambda m, r, c: mats[m.mem][r][c], k, m, i) for k, m in parts) for i in range(n)]
            if sorted(now) != was:
                return "the keys and what belongs to them are no longer together: %s, were %s" % (sorted(now), was)
            ks = [x[0][0] for x in now]
            if ks != sorted(ks, reverse=not up):
                return "%s is not ordered: %s" % (key.name, ks)
        self.after.append(told)

    def env(self, f):
        v = self.envv[f]
        return K(v if v >= 0 else {"kb": 160, "blas1min": 1024, "blas2min": 256}.get(f, 64))


# -------------------------------------------------------------------- cases
def mkmat(rnd, r, c, small=False):
    v = (lambda: rnd.choice([0, 0, 0, 0, 1, -1])) if small else (lambda: rnd.randint(-3, 3))
    return {"kind": "mat", "rows": r, "cols": c, "step": max(1, r) + rnd.choice([0, 0, 1, 2, 5]), "data": [[v() for _ in range(c)] for _ in range(r)]}


def gen_case(ct, rnd, masks, big):
    """random arguments for one contract"""
    pool = [rnd.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9] + ([11, 13, 17] if big else [])) for _ in range(rnd.choice([1, 2, 2, 3]))]
    if rnd.random() < 0.7:
        pool = [p or 1 for p in pool]
    if rnd.random() < 0.25:
        pool.append(1)
    env = {"mb": -1, "nb": -1, "kb": -1, "lb": -1, "blas1min": -1, "blas2min": -1}
    if rnd.random() < 0.7:
        for f in ("blas1min", "blas2min", "lb"):
            if rnd.random() < 0.7:
                env[f] = rnd.choice([0, 1, 2, 3, 4, 5, 8])
        if rnd.random() < 0.5:
            for f in ("mb", "nb", "kb"):
                env[f] = rnd.choice([4, 8, 12, 16])
    case = {"fn": ct.name, "key": ct.key, "env": env, "args": {}}
    dim = lambda: rnd.choice(pool)
    smallvals = rnd.random() < 0.5

    def val():
        x = rnd.randint(-3, 3) if smallvals else rnd.randint(-9, 9)
        if rnd.random() < 0.1:
            x = 0
        return x
    dims = {}
    for p in ct.params:
        k = p.kind
        if p.kw.get("null") and rnd.random() < 0.15:
            case["args"][p.name] = {"kind": "null"}
            continue
        if k in ("mat", "vec"):
            if k == "vec":
                only = p.kw.get("a") or ["row", "col"]
                sh = rnd.choice(only)
                r, c = (1, dim()) if sh == "row" else (dim(), 1)
            else:
                r, c = dim(), dim()
                if rnd.random() < 0.15:
                    r = 1
                elif rnd.random() < 0.2:
                    c = 1
            step = max(1, r) + rnd.choice([0, 0, 1, 2, 5])
            case["args"][p.name] = {"kind": "mat", "rows": r, "cols": c, "step": step,
                                    "data": [[val() for _ in range(c)] for _ in range(r)]}
        elif k == "real":
            case["args"][p.name] = {"kind": "real", "value": rnd.choice([0, 1, 1, -1, 2, -2, 3, 0.5, -3])}
        elif k in ("int", "nat", "pos"):
            lo = -3 if k == "int" else 0 if k == "nat" else 1
            v = rnd.choice(pool + [rnd.randint(lo, 10), 0])
            if k == "pos":
                v = max(1, v)
            elif k == "nat":
                v = max(0, v)
            case["args"][p.name] = {"kind": "int", "value": v}
        elif k == "flags":
            v = 0
            bits = sorted(masks.get(p.name, set()))
            if bits:
                for _ in range(rnd.choice([0, 1, 1, 2, 2, 3])):
                    v |= 1 << rnd.choice(bits)
            case["args"][p.name] = {"kind": "flags", "value": v}
        elif k in ("conf", "confnn"):
            w = rnd.random() < 0.7 or k == "confnn"
            case["args"][p.name] = {"kind": "conf", "which": int(w), "optflags": rnd.choice([0, 0, 0, 1, 2, 4, 8, 8]) if w else 0}
        elif k in ("scalarptr", "intptr"):
            case["args"][p.name] = {"kind": k, "value": val()}
        elif k == "func":
            case["args"][p.name] = {"kind": "func"}
        elif k in ("opaque", "view"):
            case["args"][p.name] = {"kind": k}
        elif k in GEN:
            case["args"][p.name] = GEN[k](ct, p, rnd, pool, case)
        else:
            raise Skip("kind " + k)
    g = ct.opts.get("gen")
    if g and rnd.random() < 0.8:
        g(case, rnd)
    return case


GEN = {}
ARGS = {}
MARK = 7.25e77


class Runner:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)
        self.lib.vp_conf_get.restype = ctypes.c_void_p
        self.libc = ctypes.CDLL(None)
        self.libc.malloc.restype = ctypes.c_void_p
        self.libc.malloc.argtypes = [ctypes.c_size_t]
        self.libc.free.argtypes = [ctypes.c_void_p]

    def sym(self, ct):
        n = ct.name
        for p in (n.replace("armas_", "armas_d_", 1), n.replace("armassp_", "armas_dsp_", 1), n, "__" + n,
                  n.replace("mat_", "mat_d_", 1), n.replace("vec_", "vec_d_", 1)):
            try:
                return getattr(self.lib, p)
            except AttributeError:
                pass
        return None

    def expected(self, ct, case, masks):
        args, mems = {}, {}
        for nm, a in case["args"].items():
            k = a["kind"]
            if k == "null":
                args[nm] = NULL
            elif k == "mat":
                mems[nm] = {(i, j): K(Fraction(a["data"][i][j])) for i in range(a["rows"]) for j in range(a["cols"])}
                args[nm] = CView(None, nm, nm, 0, 0, a["rows"], a["cols"])
                args[nm].step = K(a["step"])
            elif k == "real":
                args[nm] = K(Fraction(a["value"]))
            elif k == "int":
                args[nm] = K(a["value"])
            elif k == "flags":
                args[nm] = CFlags(a["value"], masks.setdefault(nm, set()))
            elif k == "conf":
                args[nm] = {"name": nm, "optflags": CFlags(a["optflags"], set())}
            elif k in ("scalarptr", "intptr"):
                args[nm] = {"name": nm, "value": K(a["value"])}
            else:
                args[nm] = {"name": nm}
        c = CCtx(args, mems, case["env"])
        c.case = case
        for v in args.values():
            if isinstance(v, CView):
                v.c = c
        ct.spec(c)
        return c

    def call(self, ct, case):
        """runs the library; returns dict with results"""
        f = self.sym(ct)
        if f is None:
            return None
        self.rehdr = ct.opts.get("rehdr", ())
        e = case["env"]
        self.lib.vp_env_set(e["mb"], e["nb"], e["kb"], e["lb"], e["blas1min"], e["blas2min"])
        argv, keep, bufs, hdrs = [], [], {}, {}
        conf = None
        for p in ct.params:
            a = case["args"][p.name]
            k = a["kind"]
            if k == "null":
                argv.append(ctypes.c_void_p(0))
            elif k == "mat":
                r, c, s = a["rows"], a["cols"], a["step"]
                n = s * (c - 1) + r if c > 0 and r > 0 else 0
                raw = self.libc.malloc(max(n, 1) * 8)
                arr = (ctypes.c_double * n).from_address(raw) if n else None
                for x in range(n):
                    arr[x] = MARK + x * 1e62
                for i in range(r):
                    for j in range(c):
                        arr[i + j * s] = float(a["data"][i][j])
                d = Dense(raw, s, r, c, None, 0)
                bufs[p.name] = (raw, arr, d, a)
                argv.append(ctypes.byref(d))
            elif k == "real":
                argv.append(ctypes.c_double(float(a["value"])))
            elif k in ("int", "flags"):
                argv.append(ctypes.c_int(a["value"]))
            elif k == "conf":
                # a small private packing buffer gives small blocks
                local = 0x10000 if e.get("cmem", -1) > 0 else 0
                self.lib.vp_env_cmem(e.get("cmem", -1))
                self.lib.vp_conf_reset(a["which"], a["optflags"] | local)
                conf = a
                argv.append(ctypes.c_void_p(self.lib.vp_conf_get(1) if a["which"] else 0))
            elif k == "scalarptr":
                d = ctypes.c_double(float(a["value"]))
                bufs[p.name] = (None, None, d, a)
                argv.append(ctypes.byref(d))
            elif k == "intptr":
                d = ctypes.c_int(int(a["value"]))
                bufs[p.name] = (None, None, d, a)
                argv.append(ctypes.byref(d))
            elif k == "view":
                d = Dense(None, 77, 78, 79, None, 0)
                hdrs[p.name] = d
                argv.append(ctypes.byref(d))
            elif k == "func":
                fn = CALLBACKS[p.name]
                keep.append(fn)
                argv.append(fn)
            elif k == "opaque":
                argv.append(ctypes.c_void_p(0))
            elif k in ARGS:
                v, own = ARGS[k](a)
                argv.append(v)
                keep.append(own)
            else:
                raise Skip(k)
        rk = ct.opts.get("rettype", "real" if ct.opts.get("retreal") else None)
        f.restype = ctypes.c_double if ct.returns_real() else ctypes.c_int
        rv = f(*argv)
        res = {"ret": rv, "hdr": {}, "mats": {}, "bad": [], "error": self.lib.vp_conf_int(conf["which"], 0) if conf else None, "scalars": {}}
        for nm, d in hdrs.items():
            res["hdr"][nm] = self.hdrval(d, bufs)
        for nm, (raw, arr, d, a) in bufs.items():
            if raw is None:
                res["scalars"][nm] = d.value
                continue
            r, c, s = a["rows"], a["cols"], a["step"]
            n = len(arr) if arr is not None else 0
            res["mats"][nm] = [[arr[i + j * s] for j in range(c)] for i in range(r)]
            for x in range(n):
                if x % s >= r and arr[x] != MARK + x * 1e62:
                    res["bad"].append("%s: storage outside the matrix overwritten at offset %d" % (nm, x))
            if nm in self.rehdr:
                res["hdr"][nm] = self.hdrval(d, bufs)
            elif (d.step, d.rows, d.cols) != (s, r, c) or d.elems != raw:
                res["bad"].append("%s: matrix header changed" % nm)
            self.libc.free(raw)
        return res

    def hdrval(self, d, bufs):
        at = None
        for nm, (raw, arr, _, a) in bufs.items():
            if raw is not None and d.elems and raw <= d.elems <= raw + max(len(arr) if arr is not None else 0, 1) * 8:
                k = (d.elems - raw) // 8
                at = (nm, k)
        return (d.rows, d.cols, d.step, at, d.elems)

    def compare(self, ct, case, c, res):
        """first difference between the contract and the run, or None"""
        if res["bad"]:
            return res["bad"][0]

        def differs(got, want):
            if want is UNINIT:
                return False
            w = float(evalp(want))
            if got != got:
                return True
            return abs(got - w) > 1e-7 * (1 + abs(w))
        for nm, m in res["mats"].items():
            for i, row in enumerate(m):
                for j, g in enumerate(row):
                    w = c.out.get((nm, i, j))
                    if w is None:
                        if g != float(case["args"][nm]["data"][i][j]):
                            return "%s(%d,%d) must not change: was %r, is %r" % (nm, i, j, case["args"][nm]["data"][i][j], g)
                    elif differs(g, w):
                        return "%s(%d,%d) is %r, specified %r" % (nm, i, j, g, float(evalp(w)))
        for f in c.after:
            d = f(res["mats"])
            if d:
                return d
        for nm, g in res["hdr"].items():
            w = c.hdr.get(nm)
            if w is None:
                continue
            if g[:2] != w[:2] or (w[2] is not None and g[2] != w[2]):
                return "%s is described as %d x %d with stride %d, specified %s" % (nm, g[0], g[1], g[2], w[:3])
            if w[3] is not None and g[0] > 0 and g[1] > 0:
                mem, i, j = w[3]
                k = i + j * case["args"][mem]["step"]
                if g[3] != (mem, k) and (i < case["args"][mem]["rows"] and j < case["args"][mem]["cols"] or g[3] is not None):
                    return "%s starts at %s, specified %s" % (nm, g[3], (mem, k))
        for nm, g in res["scalars"].items():
            w = c.sets.get(nm, K(case["args"][nm]["value"]))
            if differs(g, w):
                return "*%s is %r, specified %r" % (nm, g, float(evalp(w)))
        if res["error"] is not None:
            w = int(evalp(c.sets.get("$error", 0)))
            if res["error"] != w:
                return "conf->error is %d, specified %d" % (res["error"], w)
        if isinstance(c.retval, tuple):
            if not evalc(c.retval[1](num(res["ret"]))):
                return "return value %r does not satisfy its specification" % res["ret"]
        elif c.retval is not None and c.retval is not NULL and differs(res["ret"], c.retval):
            return "returned %r, specified %r" % (res["ret"], float(evalp(c.retval)))
        return None


CB1 = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_double)
CB2 = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_int, ctypes.c_int)
CB3 = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_double, ctypes.c_void_p)
CALLBACKS = {"oper": CB1(lambda x: 2 * x + 1), "value": CB2(lambda i, j: 3 * i - 5 * j + 1)}
FN["fn:oper"] = lambda x: 2 * x + 1
FN["fn:value"] = lambda i, j: 3 * i - 5 * j + 1


def load_registry():
    import importlib
    import pkgutil
    import contracts
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("contracts." + m.name)
    from vc.contract import REGISTRY
    return REGISTRY


def one(R, ct, case, masks):
    if ct.opts.get("driver"):
        return ct.opts["driver"][1](R, case), None
    c = R.expected(ct, case, masks)
    res = R.call(ct, case)
    if res is None:
        raise Skip("not exported")
    return R.compare(ct, case, c, res), res


def child(so, keys, seed, seconds, curfile):
    reg = load_registry()
    R = Runner(so)
    rnd = random.Random(seed)
    masks = {k: {} for k in keys}
    keys = [k for k in keys if reg[k].opts.get('driver') or R.sym(reg[k]) is not None and not reg[k].static]
    t0 = time.time()
    n = tried = 0
    i = 0
    dead = {}
    while time.time() - t0 < seconds and keys:
        ct = reg[keys[i % len(keys)]]
        i += 1
        if dead.get(ct.key, 0) > 400:
            keys.remove(ct.key)
            continue
        if ct.opts.get("driver"):
            case = ct.opts["driver"][0](rnd)
            case["key"] = ct.key
            with open(curfile, "w") as fh:
                json.dump(case, fh)
            n += 1
            d = ct.opts["driver"][1](R, case)
            if d:
                print(json.dumps({"fail": d, "case": case}))
                sys.stdout.flush()
                os._exit(3)
            continue
        try:
            case = gen_case(ct, rnd, masks[ct.key], rnd.random() < 0.2)
            c = R.expected(ct, case, masks[ct.key])
        except Skip:
            dead[ct.key] = dead.get(ct.key, 0) + 1
            continue
        except ValueError:
            dead[ct.key] = dead.get(ct.key, 0) + 50
            continue
        dead[ct.key] = 0
        tried += 1
        with open(curfile, "w") as fh:
            json.dump(case, fh)
        try:
            res = R.call(ct, case)
        except Skip:
            dead[ct.key] = 1000
            continue
        if res is None:
            dead[ct.key] = 1000
            continue
        os.unlink(curfile)          # whatever takes long from here on, it is not the call
        n += 1
        d = R.compare(ct, case, c, res)
        if d:
            print(json.dumps({"fail": d, "case": case}))
            sys.stdout.flush()
            os._exit(3)
    print(json.dumps({"ran": n}))
    sys.stdout.flush()
    os._exit(0)


def asan_env():
    p = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    e = dict(os.environ)
    e["LD_PRELOAD"] = os.path.realpath(p)
    e["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    e["PYTHONHASHSEED"] = "0"
    e.pop("ARMAS_CONFIG", None)
    return e


def running(cur):
    """for how long the call described in the file has been running"""
    try:
        return time.time() - os.path.getmtime(cur)
    except OSError:
        return 0


def search(so, keys, seed, seconds, tmp, procs=6):
    """returns (failure dict or None, number of library runs)"""
    env = asan_env()
    ps = []
    for w in range(procs):
        cur = os.path.join(tmp, "case%d.json" % w)
        if os.path.exists(cur):
            os.unlink(cur)
        errf = open(os.path.join(tmp, "err%d.txt" % w), "w")
        outf = open(os.path.join(tmp, "out%d.txt" % w), "w")
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "concrete.py"), "--child", so, str(seed * 1000 + w), str(seconds), cur] + keys,
                             stdout=outf, stderr=errf, env=env)
        ps.append((p, cur, w))
    t0 = time.time()
    found = None
    ran = 0
    live = list(ps)
    while live and found is None:
        time.sleep(0.1)
        for it in list(live):
            p, cur, w = it
            rc = p.poll()
            if rc is None:
                if running(cur) > 10:
                    p.kill()
                    p.wait()
                    live.remove(it)
                    try:
                        found = {"fail": "the call does not return", "case": json.load(open(cur))}
                    except (ValueError, OSError):
                        pass
                    break
                if time.time() - t0 > seconds + 60:
                    p.kill()
                    p.wait()
                    live.remove(it)
                continue
            live.remove(it)
            out = open(os.path.join(tmp, "out%d.txt" % w)).read().strip().split("\n")[-1]
            if rc == 3:
                found = json.loads(out)
                break
            if rc == 0:
                ran += json.loads(out)["ran"]
                continue
            err = open(os.path.join(tmp, "err%d.txt" % w)).read()
            if os.path.exists(cur) and ("AddressSanitizer" in err or rc < 0):
                m = re.search(r"ERROR: AddressSanitizer: (.*)", err)
                fr = re.findall(r"#\d+ 0x\w+ in (\S+) (\S+)", err)
                found = {"fail": "the call crashes: %s %s" % (m.group(1).split(" on ")[0] if m else "signal %d" % -rc,
                                                              fr[0] if fr else ""), "case": json.load(open(cur))}
                break
    for p, _, _ in ps:
        if p.poll() is None:
            p.kill()
            p.wait()
    return found, ran


def replay(path):
    d = json.load(open(path))
    case = d["case"]
    tmp = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        so, _ = build(tmp)
        env = asan_env()
        cf = os.path.join(tmp, "case.json")
        json.dump(case, open(cf, "w"))
        try:
            p = subprocess.run([sys.executable, os.path.join(HERE, "concrete.py"), "--one", so, cf], env=env, timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            print("the call does not return")
            rc = 3
        print("replay: %s" % ("the failure is reproduced" if rc != 0 else "the call meets its contract"))
        return 1 if rc else 0
    finally:
        shutil.rmtree(tmp)


def main():
    sys.setrecursionlimit(20000)
    a = sys.argv[1:]
    if a[0] == "--child":
        child(a[1], a[5:], int(a[2]), float(a[3]), a[4])
    elif a[0] == "--one":
        reg = load_registry()
        case = json.load(open(a[2]))
        R = Runner(a[1])
        d, res = one(R, reg[case["key"]], case, {})
        print(d or "contract met")
        sys.stdout.flush()
        os._exit(3 if d else 0)
    else:
        sys.exit(replay(a[0]))


if __name__ == "__main__":
    from vc import concrete          # the module the contracts know
    concrete.main()
