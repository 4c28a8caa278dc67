"""Work buffers (armas.h).  A buffer of `bytes` bytes is handed out from the
front; the state is how much has been handed out (`offset`).  Sizes are machine
integers here: no operation on them may overflow."""
import ctypes
from .lib import *
from vc import symex as S
from vc.symex import OPtr, DPtr, RState

SRC = "base/env.c"
REG = "M.wbuf"
TOP = (1 << 64) - 1


def buffer(X, st, p, null, unset=False):
    if null:
        yield NULL, st.copy()
    # holding no memory
    s = st.copy()
    z = None if unset else T.ZERO
    s.objs[p.name] = {("buf",): NULL, ("bytes",): T.ZERO, ("offset",): T.ZERO} if not unset else {}
    yield OPtr(p.name), s
    if unset:
        return
    s = st.copy()
    n, o = T.sym("wbuf.bytes"), T.sym("wbuf.offset")
    X.region(REG, ld=None, rows=n, cols=T.ONE, label="work buffer", esize=1)
    s.mem[REG] = RState("wbuf")
    for c in (c_ge(o, 0), c_le(o, n), c_le(n, TOP)):
        s.assume(c)
    s.objs[p.name] = {("buf",): DPtr(REG, T.ZERO), ("bytes",): n, ("offset",): o}
    yield OPtr(p.name), s


def mk_wbuf(X, st, p, d):
    yield from buffer(X, st, p, False)


def mk_wnull(X, st, p, d):
    yield from buffer(X, st, p, True)


def mk_wnew(X, st, p, d):
    yield from buffer(X, st, p, False, True)


MK = {"wbuf": mk_wbuf, "wnull": mk_wnull, "wnew": mk_wnew}


def gen(fn):
    def g(rnd):
        cap = rnd.choice([0, 1, 7, 8, 9, 16, 63, 64, 100, 1000])
        ops = []
        for _ in range(rnd.randint(1, 12)):
            n = rnd.choice([0, 1, 2, 7, 8, 9, 15, 16, 63, 64, 65, cap, cap // 2, cap + 1, TOP, TOP - 6, 1 << 61, 1 << 63])
            ops.append([rnd.choice(["bytes", "elems", "bits", "save", "restore", "reset", "zero", "query"]), n, rnd.choice([0, 1, 4, 8, 16])])
        return {"fn": fn, "capacity": cap, "new": rnd.choice([0, 1]), "ops": ops}
    return g


class Wbuf(ctypes.Structure):
    _fields_ = [("buf", ctypes.c_void_p), ("bytes", ctypes.c_size_t), ("offset", ctypes.c_size_t)]


def drive(R, case):
    """a history of reservations against the list of regions handed out"""
    lib, z, vp = R.lib, ctypes.c_size_t, ctypes.c_void_p

    def fn(nm, res, *args):
        f = getattr(lib, nm)
        f.restype = res
        return f(*args)
    cap = case["capacity"]
    if case["new"]:
        w = fn("armas_wnew", vp, z(cap))
        if not w:
            return None
        W = ctypes.cast(w, ctypes.POINTER(Wbuf)).contents
    else:
        W = Wbuf(1, 5, 6)
        if not fn("armas_walloc", vp, ctypes.byref(W), z(cap)):
            return None
    P = ctypes.byref(W)
    if W.bytes != cap or W.offset != 0 or not W.buf:
        return "a new buffer of %d bytes has %d, %d in use" % (cap, W.bytes, W.offset)
    base = W.buf
    if ctypes.string_at(base, cap) != bytes(cap):
        return "a new buffer is not zero"
    given, saved = [], []

    def state(what, off):
        if (W.buf, W.bytes, W.offset) != (base, cap, off):
            return "after %s the buffer of %d bytes says %d bytes, %d in use; expected %d in use" % (what, cap, W.bytes, W.offset, off)
        if fn("armas_wbytes", z, P) != cap - off or fn("armas_wpos", z, P) != off or fn("armas_wptr", vp, P) != base + off:
            return "after %s with %d of %d bytes in use: %d free, position %d" % (what, off, cap, fn("armas_wbytes", z, P), fn("armas_wpos", z, P))
    off = 0
    for op, n, sz in case["ops"]:
        if op in ("bytes", "elems", "bits"):
            want = n if op == "bytes" else n * sz if op == "elems" else (n + 7) // 8
            p = fn("armas_wreserve_bytes", vp, P, z(n)) if op == "bytes" else fn("armas_wreserve", vp, P, z(n), z(sz)) if op == "elems" \
                else fn("armas_wreserve_bits", vp, P, z(n))
            what = "reserving %d bytes (%s of %d x %d)" % (want, op, n, sz)
            if want <= cap - off:
                if p != base + off:
                    return what + " with %d free does not give the first free byte" % (cap - off)
                ctypes.memset(p, 0xa5, want)
                off += want
            elif p:
                return what + " succeeds with %d bytes free" % (cap - off)
        elif op == "save":
            saved.append(fn("armas_wpos", z, P))
            what = "saving"
        elif op == "restore":
            what = "restoring position %s" % (saved[-1:] or "-")
            if saved:
                off = saved.pop()
                fn("armas_wsetpos", None, P, z(off))
        elif op == "reset":
            what = "reset"
            fn("armas_wreset", None, P)
            off = 0
            saved = []
        elif op == "zero":
            what = "zeroing %d" % n
            ctypes.memset(base, 0x5a, cap)
            fn("armas_wzero", None, P, z(n))
            k = n if 0 < n <= cap else cap
            if ctypes.string_at(base, cap) != bytes(k) + b"\x5a" * (cap - k):
                return "zeroing %d bytes of %d clears others" % (n, cap)
        else:
            what = "nothing"
        r = state(what, off)
        if r:
            return r
    if case["new"]:
        fn("armas_wfree", None, P)
    else:
        fn("armas_wrelease", None, P)
        if W.buf or W.bytes or W.offset:
            return "a released buffer says %d bytes" % W.bytes
    return None


def wb(name, params, **kw):
    kw.update(argmakers=MK, leaf=True, machine=True, trackfree=True, driver=(gen(name), drive))
    return contract(name, SRC, params, prop="C12", opts=kw)


def held(c):
    """does the buffer hold memory?"""
    return c.val(c.W, ("buf",)) is not NULL


def state(c):
    return c.val(c.W, ("bytes",)), c.val(c.W, ("offset",))


def put(c, obj, n, ok):
    c.set(obj, ("bytes",), n if ok else T.ZERO)
    c.set(obj, ("offset",), T.ZERO)
    c.set(obj, ("buf",), DPtr("M.heap1", T.ZERO) if ok else NULL)


@wb("armas_walloc", "W:wnew nbytes:u64")
def _(c):
    ok = not c.decide(c_lt(T.sym("alloc.rc0"), 0))
    put(c, c.W.obj, c.nbytes, ok)
    c.ret(c.W if ok else NULL)
    if ok:
        c.ensures(lambda post: c_eq(c._X.regions["M.heap1"].rows, c.nbytes), "the memory has the size recorded")


@wb("armas_wnew", "nbytes:u64")
def _(c):
    if c.decide(c_lt(T.sym("alloc.rc0"), 0)):
        return c.ret(NULL)
    ok = not c.decide(c_lt(T.sym("alloc.rc1"), 0))
    if not ok:
        c.set("$freed", ("heapobj1",), T.ONE)
        return c.ret(NULL)
    c.set("heapobj1", ("bytes",), c.nbytes)
    c.set("heapobj1", ("offset",), T.ZERO)
    c.set("heapobj1", ("buf",), DPtr("M.heap2", T.ZERO))
    c.ret(OPtr("heapobj1"))
    c.ensures(lambda post: c_eq(c._X.regions["M.heap2"].rows, c.nbytes), "the memory has the size recorded")


def release(c):
    if c.W is NULL or not held(c):
        return False
    c.set("$freed", (REG,), T.ONE)
    return True


@wb("armas_wrelease", "W:wnull")
def _(c):
    if release(c):
        put(c, c.W.obj, None, False)


@wb("armas_wfree", "W:wnull")
def _(c):
    if c.W is not NULL:
        release(c)
        c.set("$freed", (c.W.obj,), T.ONE)
        c.anything(c.W, "bytes")
        c.anything(c.W, "offset")
        c.anything(c.W, "buf")


def reserve(c, n):
    """the first n free bytes, or nothing"""
    if c.W is NULL:
        return c.ret(NULL)
    size, off = state(c)
    if not c.decide(c_le(n, size - off)):
        return c.ret(NULL)
    if held(c):
        c.ret(DPtr(REG, off))
    c.set(c.W.obj, ("offset",), off + n)


wb("armas_wreserve_bytes", "W:wnull nbytes:u64")(lambda c: reserve(c, c.nbytes))
wb("armas_wreserve", "W:wnull count:u64 sz:u64")(lambda c: reserve(c, c.count * c.sz))
wb("armas_wreserve_bits", "W:wnull count:u64")(lambda c: reserve(c, T.idiv(c.count + 7, 8)))


@wb("armas_wreset", "W:wbuf")
def _(c):
    c.set(c.W.obj, ("offset",), T.ZERO)


@wb("armas_wzero", "W:wbuf n:u64")
def _(c):
    if not held(c):
        c.requires(c_eq(c.n, c.n + 1), "the buffer holds memory")
    size, off = state(c)
    k = c.n if c.decide(c_gt(c.n, 0)) and c.decide(c_le(c.n, size)) else size
    v = View(c, "buffer", REG, T.ZERO, T.ZERO, size, T.ONE)
    c.write(v, lambda i, j: T.ZERO, lambda i, j: c_lt(i, k))


@wb("armas_wbytes", "W:wnull")
def _(c):
    c.ret(0 if c.W is NULL else state(c)[0] - state(c)[1])


@wb("armas_wpos", "W:wnull")
def _(c):
    c.ret(0 if c.W is NULL else state(c)[1])


@wb("armas_wptr", "W:wnull")
def _(c):
    c.ret(NULL if c.W is NULL or not held(c) else DPtr(REG, state(c)[1]))


@wb("armas_wsetpos", "W:wnull pos:u64")
def _(c):
    """any position armas_wpos can have told is restored"""
    if c.W is not NULL and c.decide(c_le(c.pos, state(c)[0])):
        c.set(c.W.obj, ("offset",), c.pos)
