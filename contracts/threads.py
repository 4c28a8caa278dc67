"""Division of work between threads: threaded/*.c, workers/gemm.c, accel.h.
A created thread is run where it is created; that the order does not matter is
the content of the contracts: blocks do not overlap."""
import ctypes
import os
import random
from .lib import *
from . import gemm as G
from . import blas3 as B3
from vc import symex as S
from vc.contract import make_matrix, SpecCtx
from vc.symex import OPtr
from vc.sweep import sweeps

TOP = (1 << 31) - 1


# ------------------------------------------------ search for a failing input
class Dense(ctypes.Structure):
    _fields_ = [("elems", ctypes.c_void_p), ("step", ctypes.c_int), ("rows", ctypes.c_int), ("cols", ctypes.c_int),
                ("data", ctypes.c_void_p), ("nbytes", ctypes.c_int)]


class Conf(ctypes.Structure):
    _fields_ = [("error", ctypes.c_int), ("optflags", ctypes.c_int), ("tolmult", ctypes.c_int), ("work", ctypes.c_void_p),
                ("accel", ctypes.c_void_p), ("rest", ctypes.c_char * 64)]


class Env(ctypes.Structure):
    _fields_ = [("cores", ctypes.c_size_t), ("items", ctypes.c_size_t), ("weight", ctypes.c_double), ("options", ctypes.c_int)]


OPTS = {"B": 0x20, "T": 0x40, "R": 0x80, "2": 0x200}


def gen(op, kind):
    def g(rnd):
        cfg = "%d,%d,%s" % (rnd.choice([1, 2, 5, 20, 100]), rnd.choice([2, 3, 5, 8]), rnd.choice(["B", "T", "BR", "B2"]) if kind == "W" else "B")
        n = lambda: rnd.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 30])
        return {"op": op, "kind": kind, "cfg": cfg, "left": rnd.choice([-1, -1, -1, 0, 1, 2]) if kind == "S" else -1, "rows": n(), "cols": n(), "inner": n(), "seed": rnd.randint(0, 9999),
                "flags": sum(rnd.choice(x) for x in ([0, TRANSA, CTRANSA] if op == "mult" else [0, TRANSA] if op in ("mult_trm", "solve_trm") else [0],
                                                     [0, TRANSB, CTRANSB] if op == "mult" else [0, TRANSB] if op == "mult_sym" else [0],
                                                     [0] if op == "mult" else [LEFT, RIGHT, 0], [0] if op == "mult" else [LOWER, UPPER]))}
    return g


def drive(R, case):
    """the same operation with and without the accelerator"""
    lib, vp, dbl = R.lib, ctypes.c_void_p, ctypes.c_double
    items, cores, policy = case["cfg"].split(",")
    lib.armas_ac_getenv.restype = ctypes.POINTER(Env)
    env = lib.armas_ac_getenv().contents
    env.cores, env.items, env.options = int(cores), int(items), sum(OPTS[x] for x in policy)
    left = ctypes.c_int.in_dll(lib, "vp_threads_left")
    rnd = random.Random(case["seed"])
    op, f, m, n, k = case["op"], case["flags"], case["rows"], case["cols"], case["inner"]
    if op == "mult":
        sh = {"A": (k, m) if f & (TRANSA | CTRANSA) else (m, k), "B": (n, k) if f & (TRANSB | CTRANSB) else (k, n), "C": (m, n)}
    else:
        t = n if f & RIGHT else m
        sh = {"A": (t, t), "B": (n, m) if f & TRANSB else (m, n), "C": (m, n)}
    keep = []

    def mat(r, c, vals):
        ld = r + 3
        a = (dbl * (ld * c + 8))(*([7.25e77] * (ld * c + 8)))
        for j in range(c):
            for i in range(r):
                a[i + j * ld] = vals(i, j)
        keep.append(a)
        return Dense(ctypes.addressof(a), ld, r, c, None, 0), a
    val = {x: {} for x in sh}
    for x, (r, c) in sh.items():
        for j in range(c):
            for i in range(r):
                val[x][i, j] = rnd.uniform(-1, 1) + (4 + r if i == j and op == "solve_trm" else 0)
    lib.armas_ac_init.argtypes = [ctypes.POINTER(vp), ctypes.c_char_p]
    h = vp()
    if lib.armas_ac_init(ctypes.byref(h), case["kind"].encode()) != 0:
        return None
    fn = getattr(lib, "armas_d_" + op)
    fn.restype = ctypes.c_int
    res = []
    for ac in (None, h):
        cf = Conf(0, 0, 0, None, ac)
        M = {x: mat(*sh[x], lambda i, j, x=x: val[x][i, j]) for x in sh}
        b = lambda x: ctypes.byref(M[x][0])
        rd = random.Random(case["seed"])
        al, be = dbl(rd.choice([1, 2, -0.5])), dbl(rd.choice([0, 1, 2]))
        left.value = case["left"] if ac else -1
        if op in ("mult", "mult_sym"):
            rc = fn(be, b("C"), al, b("A"), b("B"), f, ctypes.byref(cf))
        else:
            rc = fn(b("B"), al, b("A"), f, ctypes.byref(cf))
        short, left.value = left.value == 0, -1
        res.append((rc, [list(M[x][1]) for x in ("C", "B", "A")]))
    lib.armas_ac_release.argtypes = [vp]
    lib.armas_ac_release.restype = None
    if case["kind"] != "T":
        lib.armas_ac_release(h)
    if short and res[1][0] < 0:
        return None
    if res[0][0] != res[1][0]:
        return "armas_%s returns %d with the accelerator and %d without" % (op, res[1][0], res[0][0])
    for p, q in zip(res[0][1], res[1][1]):
        for i, (u, v) in enumerate(zip(p, q)):
            if not abs(u - v) <= 1e-9 * (1 + abs(u)):
                return "armas_%s: element %d is %r with the accelerator and %r without" % (op, i, v, u)
    return None


# ------------------------------------------------------------------- ranges
def facts(n, nb, total):
    return lambda v: c_and(c_ge(v, 0), c_le(v, total), c_or(c_not(c_eq(n, 0)), c_eq(v, 0)), c_or(c_not(c_eq(n, nb)), c_eq(v, total)))


def start(c, n, nb, total):
    """where block n of nb of `total` items starts"""
    v = A(T.mk_atom('uf', ("armas_ac_block_index", n, nb, total), 'i'))
    c._st.assume(facts(n, nb, total)(v))
    return v


def span(c, n, nb, total):
    """block n: from, to"""
    lo, hi = start(c, n, nb, total), start(c, n + 1, nb, total)
    c._st.assume(c_le(lo, hi))
    return lo, hi


for src in ("threaded/gemm.c", "threaded/symm.c", "threaded/trmm.c", "threaded/trsm.c", "workers/gemm.c"):
    @contract(src + ":armas_ac_block_index", src, "n:i32 nblocks:i32 ntotal:i32", prop="C11", opts={"machine": True})
    def _(c):
        n, nb, t = c.n, c.nblocks, c.ntotal
        c.requires(c_and(c_ge(n, 0), c_le(n, nb), c_ge(nb, 1), c_ge(t, 0)), "a block, or the end of the last one")
        c.function_of(n, nb, t)
        c.ret(("cond", facts(n, nb, t)))
        if c.decide(c_lt(n, nb)):
            c.relates((n + 1, nb, t), lambda v, w: c_le(v, w), "blocks follow each other")


# ------------------------------------------------------------------ operands
def mk_args(names):
    def mk(X, st, p, d):
        s = st.copy()
        o = {("tag",): T.sym("tag"), ("beta",): T.sym("beta", 'r'), ("alpha",): T.sym("alpha", 'r'), ("flags",): S.Flags("flags")}
        for nm in ("C", "A", "B"):
            if nm in names:
                make_matrix(X, s, nm, T.sym(nm + ".rows"), T.sym(nm + ".cols"))
                o[(nm,)] = OPtr(nm)
            else:
                o[(nm,)] = NULL
        s.objs[p.name] = o
        yield OPtr(p.name), s
    return mk


MK = {"cab": mk_args("CAB"), "ab": mk_args("AB")}


def operands(c, p, names):
    g = lambda f: c._st.objs[p.obj][p.path + (f,)]
    return tuple(c.view(g(nm), nm) for nm in names) + (g("beta"), g("alpha"), g("flags"))


def by_columns(c, t, n, cols, rows, colwise):
    """which part of the result threads t and later compute"""
    if colwise:
        lo = start(c, t, n, cols)
        return lambda i, j: c_ge(j, lo)
    lo = start(c, t, n, rows)
    return lambda i, j: c_ge(i, lo)


def gemm(c, p, part):
    C, A, B, beta, alpha, f = operands(c, p, "CAB")
    ta, tb = G.op(c, f, 0), G.op(c, f, 1)
    c.requires(not (c.flag(f, TRANSA) and c.flag(f, CTRANSA)) and not (c.flag(f, TRANSB) and c.flag(f, CTRANSB)), "an operand is transposed one way")
    c.requires(G.gemm_shape(C, A, B, ta, tb), "operand shapes agree")
    c.requires(c_and(c_ge(C.rows, 1), c_ge(C.cols, 1)), "the result is not empty")
    where = part(C, c.decide(c_le(C.rows, C.cols)))
    G.gemm(c, beta, C, alpha, A, B, ta, tb, c.flag(f, ABSA | ABSB), where)


def symm(c, p, part):
    C, A, B, beta, alpha, f = operands(c, p, "CAB")
    right, upper, tb = B3.left_right(c, f), B3.one_triangle(c, f), c.flag(f, TRANSB)
    B3.plain(c, f, UNIT | TRANSA | CTRANSA | CTRANSB | ABSA | ABSB)
    c.requires(B3.symm_shape(C, A, B, right, tb), "operand shapes agree")
    c.requires(c_and(c_ge(C.rows, 1), c_ge(C.cols, 1)), "the result is not empty")
    where = part(C, not right)
    B3.symm(c, beta, C, alpha, A, B, right, upper, tb, where)


def tri(what):
    def spec(c, p, part):
        A, B, beta, alpha, f = operands(c, p, "AB")
        right, upper, trans, unit = B3.triflags(c, f)
        c.requires(c_and(B3.trm_shape(A, B, right), c_ge(A.rows, 1), c_ge(B.rows, 1), c_ge(B.cols, 1)), "operand shapes agree")
        where = part(B, not right)
        what(c, B, alpha, A, right, upper, trans, unit, where)
        c.set(p.obj, p.path + ("C",), NULL)
    return spec


for src, fn, kind, what in (("gemm", "mult", "cab", gemm), ("symm", "mult_sym", "cab", symm),
                            ("trmm", "mult_trm", "ab", tri(B3.trmm)), ("trsm", "solve_trm", "ab", tri(B3.trsm))):
    def _rec(c, what=what):
        t, n = c.thread, c.nthreads
        c.requires(c_and(c_ge(t, 0), c_lt(t, n)), "one of the threads")
        c.decreases(n - t)
        c.mayfail((c.cf, "error"))
        c.ret(0)
        what(c, c.blas, lambda v, cols: by_columns(c, t, n, v.cols, v.rows, cols))
    contract(":threaded_%s_recursive" % fn, "threaded/%s.c" % src, "thread:int nthreads:int blas:%s cf:confnn" % kind, prop="C11",
             opts={"argmakers": MK})(_rec)

    def _top(c, what=what):
        c.mayfail((c.cf, "error"))
        c.ret(0)
        what(c, c.args_, lambda v, cols: None)
    contract("armas_ac_threaded_%s" % fn, "threaded/%s.c" % src, "args_:%s cf:confnn acf:opaque" % kind, prop="C11",
             opts={"argmakers": MK, "driver": (gen(fn, "S"), drive)})(_top)


@contract("armas_ac_threaded_cores", "threaded/entry.c", "num_items:pos", prop="C11")
def _(c):
    c.ret(("cond", lambda v: c_ge(v, 1)))


# ------------------------------------------------------------------- workers
def mk_slots(X, st, p, d):
    s = st.copy()
    o = "slots." + p.name
    s.objs[o] = {}
    s.objs["$slots"] = {(o,): T.sym("ntask")}
    s.objs["$sched"] = {("n",): T.ZERO}
    yield OPtr(o), s


def mk_obj(X, st, p, d):
    s = st.copy()
    s.objs[p.name] = {}
    yield OPtr(p.name), s


def mk_block(X, st, p, d):
    """a block of the result of a multiplication"""
    for b, s in MK["cab"](X, st, S_("blas"), d):
        o = {(f,): T.sym("blk." + f) for f in ("row", "column", "nrows", "ncolumns", "block_index", "is_last")}
        o[("u", "blas3")] = b
        s.objs[p.name] = o
        yield OPtr(p.name), s


class S_:
    def __init__(self, name):
        self.name = name


MKW = dict(MK, slots=mk_slots, obj=mk_obj, gblock=mk_block)
W = "workers/gemm.c"


@contract(":armas_ac_define_block", W, "blk:obj index:int nblk:int major:nat minor:nat colwise:int", prop="C11", opts={"argmakers": MKW})
def _(c):
    c.requires(c_and(c_ge(c.index, 0), c_lt(c.index, c.nblk)), "one of the blocks")
    cw = c.decide(c_not(c_eq(c.colwise, 0)))
    lo, hi = span(c, c.index, c.nblk, c.major)
    for f, v in (("column", lo), ("ncolumns", hi - lo), ("row", 0), ("nrows", c.minor)) if cw else \
            (("row", lo), ("nrows", hi - lo), ("column", 0), ("ncolumns", c.minor)):
        c.set(c.blk.obj, c.blk.path + (f,), K(v))


def wgemm(c, p, where):
    C, A, B, beta, alpha, f = operands(c, p, "CAB")
    ta, tb = G.op(c, f, 0), G.op(c, f, 1)
    c.requires(not (c.flag(f, TRANSA) and c.flag(f, CTRANSA)) and not (c.flag(f, TRANSB) and c.flag(f, CTRANSB)), "an operand is transposed one way")
    c.requires(c_and(G.gemm_shape(C, A, B, ta, tb), c_ge(C.rows, 1), c_ge(C.cols, 1)), "operand shapes agree, the result is not empty")
    G.gemm(c, beta, C, alpha, A, B, ta, tb, c.flag(f, ABSA | ABSB), where and (lambda i, j: where(C, i, j)))


@contract(W + ":compute_block", W, "args_:gblock", prop="C11", opts={"argmakers": MKW, "nofail": True})
def _(c):
    r, cl, nr, nc = (c.val(c.args_, (f,)) for f in ("row", "column", "nrows", "ncolumns"))
    b = c.val(c.args_, ("u", "blas3"))
    C = c.view(OPtr("C") if c._mode == "verify" else c._st.objs[b.obj][b.path + ("C",)], "C")
    c.requires(c_and(c_ge(r, 0), c_ge(cl, 0), c_ge(nr, 0), c_ge(nc, 0), c_le(r + nr, C.rows), c_le(cl + nc, C.cols)), "the block lies in the result")
    wgemm(c, b, lambda C, i, j: c_and(c_ge(i, r), c_lt(i, r + nr), c_ge(j, cl), c_lt(j, cl + nc)))


def done_blocks(c, ks, n):
    """the first blocks of the result"""
    C = c.view(c._st.objs["args_"][("C",)], "C")
    cw = c.decide(c_gt(C.cols, C.rows))
    lim = start(c, ks[0], n, C.cols if cw else C.rows)
    wgemm(c, OPtr("args_"), lambda C, i, j: c_lt(j if cw else i, lim))


@contract(":schedule_blocks", W, "args_:cab tasks:slots ntask:int ready:obj scheduler:obj", prop="C11",
          opts={"argmakers": MKW, "nofail": True, "invariants": {"schedule_blocks": sweeps(done_blocks)}})
def _(c):
    C = c.view(c._st.objs[c.args_.obj][c.args_.path + ("C",)], "C")
    c.requires(c_ge(c.ntask, 1), "there is a block")
    c.decide(c_gt(C.cols, C.rows))
    wgemm(c, c.args_, None)
    c.set("$sched", ("n",), c._st.objs.setdefault("$sched", {("n",): T.ZERO})[("n",)] + c.ntask)


def tiles(c):
    r, k = T.sym("rtiles"), T.sym("ctiles")
    return r, k


def done_tiles(c, ks, n):
    """all of the first tile columns, or the first tiles of the next one"""
    C = c.view(c._st.objs["args_"][("C",)], "C")
    rt, ct = tiles(c)
    if len(ks) == 1:
        lim = start(c, ks[0], ct, C.cols)
        wgemm(c, OPtr("args_"), lambda C, i, j: c_lt(j, lim))
        return
    lo, hi = span(c, ks[0], ct, C.cols)
    lim = start(c, ks[1], rt, C.rows)
    wgemm(c, OPtr("args_"), lambda C, i, j: c_and(c_ge(j, lo), c_lt(j, hi), c_lt(i, lim)))


@contract(":schedule_tiles", W, "args_:cab tasks:slots ntask:int rtiles:pos ctiles:pos ready:obj scheduler:obj", prop="C11",
          opts={"argmakers": MKW, "nofail": True, "invariants": {"schedule_tiles": sweeps(done_tiles)}})
def _(c):
    c.requires(c_eq(c.ntask, c.rtiles * c.ctiles), "as many tasks as tiles")
    wgemm(c, c.args_, None)
    c.set("$sched", ("n",), c._st.objs.setdefault("$sched", {("n",): T.ZERO})[("n",)] + c.ntask)


@contract("armas_ac_workers_mult", W, "args_:cab cf:confnn scheduler:obj", prop="C11",
          opts={"argmakers": MKW, "nofail": True, "trackfree": True, "driver": (gen("mult", "W"), drive)})
def _(c):
    c.mayfail((c.cf, "error"))
    c.declines(-EIMP)
    C = c.view(c._st.objs[c.args_.obj][c.args_.path + ("C",)], "C")
    c.decide(c_gt(C.cols, C.rows))
    wgemm(c, c.args_, None)
    c.ret(0)
