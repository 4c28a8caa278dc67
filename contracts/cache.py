"""Division of the packing buffer.  Sizes and addresses only: pointers into the
buffer are byte offsets from its start."""
import ctypes
from .lib import *
from vc import symex as S
from vc.symex import OPtr, DPtr, NULL, RState, Unsupported
from vc import term as T

CP = ("C08", "C09", "C10")
SRC = "base/cache.c"
LINE = 64           # bytes of a cache line


def mk_cbuf(X, st, p, d):
    s = st.copy()
    ln = T.sym("cbuf.len")
    X.region("M.cbuf", ld=None, rows=ln, cols=T.ONE, label="cbuf")
    s.mem["M.cbuf"] = RState("cbuf")
    s.objs[p.name] = {("data",): DPtr("M.cbuf", T.ZERO), ("len",): ln, ("cmem",): T.sym("cbuf.cmem"), ("l1mem",): T.sym("cbuf.l1mem"),
                      ("__unaligned",): S.OPtr("$heap"), ("__nbytes",): T.sym("cbuf.nbytes")}
    s.assume(c_ge(T.sym("cbuf.l1mem"), 0))
    s.assume(c_ge(T.sym("cbuf.cmem"), 0))
    yield OPtr(p.name), s


def mk_cache(X, st, p, d):
    s = st.copy()
    s.objs[p.name] = {}
    yield OPtr(p.name), s


def mk_size(X, st, p, d):
    s = st.copy()
    v = T.sym("*" + p.name)
    s.assume(c_ge(v, 1))
    s.objs[p.name] = {(): v}
    yield OPtr(p.name), s


def mk_out(X, st, p, d):
    """where a pointer is returned; may be null"""
    if p.kw.get("null"):
        yield NULL, st.copy()
    s = st.copy()
    s.objs[p.name] = {}
    yield OPtr(p.name), s



# ---------------------------------------------- the same, over actual numbers
class Cbuf(ctypes.Structure):
    _fields_ = [("data", ctypes.c_void_p), ("len", ctypes.c_size_t), ("unaligned", ctypes.c_void_p), ("nbytes", ctypes.c_size_t),
                ("cmem", ctypes.c_size_t), ("l1mem", ctypes.c_size_t)]


class Cache(ctypes.Structure):
    _fields_ = [("Acpy", ctypes.c_void_p), ("Bcpy", ctypes.c_void_p)] + [(f, ctypes.c_size_t) for f in ("ab_step", "KB", "NB", "MB", "rb")] + [
        ("C0", ctypes.c_void_p), ("dC", ctypes.c_void_p), ("c_step", ctypes.c_size_t), ("cbuf", ctypes.c_void_p)]


class Env(ctypes.Structure):
    _fields_ = [(f, ctypes.c_int) for f in ("mb", "nb", "kb", "lb", "blas1min", "blas2min")] + [
        ("cmem", ctypes.c_size_t), ("l1mem", ctypes.c_size_t), ("fixed", ctypes.c_int)]


def gen(fn):
    def g(rnd):
        size = lambda: rnd.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 64, 65, 100, 160, 200, 1000, 5000, 100000])
        case = {"fn": fn, "mb": size(), "nb": size(), "kb": size(), "p": rnd.choice([8, 8, 4, 16]),
                "cmem": rnd.choice([768, 960, 1024, 1100, 2000, 4096, 5000, 16384, 100000, 262144]),
                "l1mem": rnd.choice([0, 64, 1024, 4096, 32768]), "fixed": rnd.choice([0, 1]), "three": rnd.choice([2, 3]), "init": rnd.choice([0, 1]),
                "shift": rnd.choice([0, 8, 16, 33, 63])}
        return case
    return g


def drive(R, case):
    lib = R.lib

    def fn(nm, res=None):
        for pf in ("armas_d_", "armas_"):
            try:
                f = getattr(lib, nm.replace("armas_", pf, 1))
                f.restype = res
                return f
            except AttributeError:
                pass
        raise ValueError(nm)
    cb, ch = Cbuf(), Cache()
    z = ctypes.c_size_t
    p = case["p"]
    if case["init"]:
        if not fn("armas_cbuf_init", ctypes.c_void_p)(ctypes.byref(cb), z(case["cmem"]), z(case["l1mem"])):
            return None
        lo, hi = cb.unaligned, cb.unaligned + cb.nbytes
    else:
        raw = ctypes.create_string_buffer(case["cmem"] + 128)
        lo = ctypes.addressof(raw) + case["shift"]
        hi = lo + case["cmem"]
        fn("armas_cbuf_make", ctypes.c_void_p)(ctypes.byref(cb), ctypes.c_void_p(lo), z(case["cmem"]), z(case["l1mem"]))
    if cb.data < lo or cb.data + cb.len > hi:
        return "the buffer (%d bytes from %d) is not inside its memory of %d bytes" % (cb.len, cb.data - lo, hi - lo)
    if cb.data % LINE:
        return "the buffer does not start at a cache line"
    parts = 3 if case["fn"].endswith("3") or (case["fn"] == "armas_cache_setup" and case["three"] == 3) else 2
    if cb.len < parts * 4 * LINE:
        return None
    m, n, k = case["mb"], case["nb"], case["kb"]
    if "split" in case["fn"]:
        mb, nb, kb = z(m), z(n), z(k)
        ps = [ctypes.c_void_p() for _ in range(parts)]
        fn(case["fn"])(ctypes.byref(cb), *([ctypes.byref(x) for x in ps] + [ctypes.byref(mb), ctypes.byref(nb), ctypes.byref(kb), z(p)]))
        at = [(x.value or 0) - cb.data for x in ps]
        MB, NB, step, KB = mb.value, nb.value, kb.value, kb.value
    else:
        if case["fn"] == "armas_cache_setup":
            ev = ctypes.cast(fn("armas_getenv", ctypes.c_void_p)(), ctypes.POINTER(Env)).contents
            old = (ev.mb, ev.nb, ev.kb, ev.fixed)
            ev.mb, ev.nb, ev.kb, ev.fixed = m, n, k, case["fixed"]
            fn(case["fn"])(ctypes.byref(ch), ctypes.byref(cb), ctypes.c_int(case["three"]), z(p))
            ev.mb, ev.nb, ev.kb, ev.fixed = old
        else:
            fn(case["fn"])(ctypes.byref(ch), ctypes.byref(cb), z(m), z(n), z(k), z(p))
        at = [(x or 0) - cb.data for x in ((ch.Acpy, ch.Bcpy) + ((ch.dC,) if parts == 3 else ()))]
        MB, NB, step, KB = ch.MB, ch.NB, ch.ab_step, ch.KB
        if min(MB, NB, KB, ch.rb) < 1:
            return "an empty block: MB=%d NB=%d KB=%d rb=%d" % (MB, NB, KB, ch.rb)
        if ch.rb > MB:
            return "strips of %d rows in blocks of %d" % (ch.rb, MB)
        if parts == 3 and (MB > step or ch.c_step != step):
            return "the result block of %d rows has a stride of %d" % (MB, step)
    if min(MB, NB, KB) < 1:
        return "an empty block: MB=%d NB=%d KB=%d" % (MB, NB, KB)
    if step * p < LINE or (KB + LINE // p // 2 - 1) // (LINE // p // 2) * (LINE // p // 2) > step:
        return "columns of %d items have a stride of %d items" % (KB, step)
    ends = [at[0] + MB * step * p] + [a + NB * step * p for a in at[1:]]
    for i in range(len(at)):
        if at[i] < 0 or ends[i] > cb.len:
            return "block %d spans bytes %d..%d of a buffer of %d" % (i, at[i], ends[i], cb.len)
        if i and at[i] < ends[i - 1]:
            return "block %d starts at byte %d, block %d ends at %d" % (i, at[i], i - 1, ends[i - 1])
    return None


PROTO = ("armas_cbuf_select", "armas_cbuf_release", "armas_cache_setup2", "armas_cache_setup")
MK = {"cbuf": mk_cbuf, "newcache": mk_cache, "sizeptr": mk_size, "outptr": mk_out}


def item(c):
    """the item sizes there are: float, double, complex double"""
    for n in (8, 4):
        if c.decide(c_eq(c.p, n)):
            return n
    c.requires(c_eq(c.p, 16))
    return 16


@contract(":cacheline_rows", SRC, "rows:nat max:nat clp:pos", prop=CP)
def _(c):
    c.requires(c_ge(c.max, c.clp), "there is room for a cache line")
    c.ret(("cond", lambda v: c_and(c_ge(v, c.clp), c_le(v, c.max), c_eq(T.imod(v, c.clp), 0))))


@contract(":column_count", SRC, "cols:nat max:nat", prop=CP)
def _(c):
    c.requires(c_ge(c.max, 4), "there is room for four columns")
    c.ret(("cond", lambda v: c_and(c_ge(v, 4), c_le(v, c.max), c_or(c_le(v, c.cols), c_eq(v, 4)), c_eq(T.imod(v, 4), 0))))


def split(c, parts):
    p = item(c)
    ln = c.val(c.cbuf, ("len",))
    clp = LINE // p
    c.requires(c_ge(ln, parts * 4 * LINE), "the buffer holds the smallest blocks")
    c.ensures(lambda post: c_and(c_ge(post(c.mb), 4), c_ge(post(c.nb), 4), c_ge(post(c.kb), clp)), "no block is empty")
    c.ensures(lambda post: c_eq(T.imod(post(c.kb), clp), 0), "a column is whole cache lines")
    c.changes(c.mb, "")
    c.changes(c.nb, "")
    c.changes(c.kb, "")
    outs = [c.aptr, c.bptr] + ([c.cptr] if parts == 3 else [])
    outs = [o if o is not NULL else None for o in outs]
    for o in outs:
        if o is not None:
            c.points(o, c.cbuf, "")
    if outs[0] is not None:
        c.ensures(lambda post: c_eq(post(outs[0]), 0), "the first block starts the buffer")
    if outs[1] is not None:
        c.ensures(lambda post: c_le(post(c.mb) * post(c.kb) * p, post(outs[1])), "the second block starts past the first")
    last = outs[-1]
    if parts == 3 and outs[1] is not None and last is not None:
        c.ensures(lambda post: c_le(post(outs[1]) + post(c.nb) * post(c.kb) * p, post(last)), "the third block starts past the second")
    if last is not None:
        c.ensures(lambda post: c_le(post(last) + post(c.nb) * post(c.kb) * p, ln), "the last block ends inside the buffer")
    if parts == 3:
        c.ensures(lambda post: c_le(post(c.mb), post(c.kb)), "the result block is no higher than its columns are long")


contract("armas_cbuf_split2", SRC, "cbuf:cbuf aptr:outptr? bptr:outptr? mb:sizeptr nb:sizeptr kb:sizeptr p:int", prop=CP,
         opts={"argmakers": MK, "nosearch": True, "noproto": PROTO, "driver": (gen("armas_cbuf_split2"), drive)})(lambda c: split(c, 2))
contract("armas_cbuf_split3", SRC, "cbuf:cbuf aptr:outptr? bptr:outptr? cptr:outptr? mb:sizeptr nb:sizeptr kb:sizeptr p:int", prop=CP,
         opts={"argmakers": MK, "nosearch": True, "noproto": PROTO, "driver": (gen("armas_cbuf_split3"), drive)})(lambda c: split(c, 3))

FIELDS = ("KB", "NB", "MB", "rb", "ab_step")


def roundup(n, k):
    return T.idiv(n + (k - 1), k) * k


def setup(c, parts):
    p = item(c)
    clp = LINE // p
    ln = c.val(c.cbuf, ("len",))
    c.requires(c_ge(ln, parts * 4 * LINE), "the buffer holds the smallest blocks")
    c.changes(c.cache, *(FIELDS + (("c_step",))))
    fs = ("Acpy", "Bcpy") + (("dC",) if parts == 3 else ())
    for f in fs:
        c.points(c.cache, c.cbuf, f)
    if parts == 2:
        c.anything(c.cache, "dC")
    k = lambda post, f: post(c.cache, f)
    c.ensures(lambda post: c_and(*[c_ge(k(post, f), 1) for f in FIELDS]), "block sizes are positive")
    c.ensures(lambda post: c_le(k(post, "rb"), k(post, "MB")), "a strip is no higher than its block")
    c.ensures(lambda post: c_and(c_ge(k(post, "ab_step"), clp), c_le(roundup(k(post, "KB"), clp // 2), k(post, "ab_step"))),
              "a packed column fits its stride of a cache line or more")
    c.ensures(lambda post: c_eq(k(post, "Acpy"), 0), "the first block starts the buffer")
    c.ensures(lambda post: c_le(k(post, "MB") * k(post, "ab_step") * p, k(post, "Bcpy")), "the second block starts past the first")
    if parts == 3:
        c.ensures(lambda post: c_le(k(post, "Bcpy") + k(post, "NB") * k(post, "ab_step") * p, k(post, "dC")), "the third block starts past the second")
        c.ensures(lambda post: c_and(c_le(k(post, "MB"), k(post, "ab_step")), c_eq(k(post, "c_step"), k(post, "ab_step"))),
                  "the result block fits its stride")
    c.ensures(lambda post: c_le(k(post, fs[-1]) + k(post, "NB") * k(post, "ab_step") * p, ln), "the last block ends inside the buffer")
    c.set(c.cache.obj, c.cache.path + ("cbuf",), c.cbuf)


for nm, parts in (("armas_cache_setup2", 2), ("armas_cache_setup3", 3)):
    def _spec(c, parts=parts):
        c.requires(c_and(c_ge(c.mb, 1), c_ge(c.nb, 1), c_ge(c.kb, 1)), "the configured block sizes are positive")
        setup(c, parts)
    contract(nm, SRC, "cache:newcache cbuf:cbuf mb:int nb:int kb:int p:int", prop=CP, opts={"argmakers": MK, "nosearch": True, "noproto": PROTO, "driver": (gen(nm), drive)})(_spec)


@contract("armas_cache_setup", SRC, "cache:newcache cbuf:cbuf three:int p:int", prop=CP,
          opts={"argmakers": MK, "nosearch": True, "noproto": PROTO, "driver": (gen("armas_cache_setup"), drive)})
def _(c):
    c.requires(c_and(*[c_ge(c.env(f), 1) for f in ("mb", "nb", "kb")]), "the configured block sizes are positive")
    setup(c, 3 if c.decide(c_eq(c.three, 3)) else 2)


def aligned(c, post, reg):
    return c_eq(T.imod(T.sym("addr." + reg) + post(c.cbuf, "data"), LINE), 0)


@contract("armas_cbuf_init", SRC, "cbuf:newcache cmem:nat l1mem:nat", prop=CP, opts={"argmakers": MK, "nosearch": True, "noproto": PROTO, "leaf": True, "driver": (gen("armas_cache_setup2"), drive)})
def _(c):
    if c.decide(c_lt(T.sym("alloc.rc0"), 0)):
        c.ret(NULL)
        c.changes(c.cbuf, "__unaligned")
        return
    c.ret(c.cbuf)
    c.changes(c.cbuf, "len", "__nbytes", "data", "__unaligned")
    c.setval(c.cbuf, c.cmem, ("cmem",))
    c.setval(c.cbuf, c.l1mem, ("l1mem",))
    reg = "M.heap1"
    c.into[(c.cbuf.obj, ("data",))] = reg
    c.into[(c.cbuf.obj, ("__unaligned",))] = reg
    c.ensures(lambda post: c_eq(c._X.regions[reg].rows, post(c.cbuf, "__nbytes")), "the recorded size is that of the memory")
    c.ensures(lambda post: c_eq(post(c.cbuf, "__unaligned"), 0), "the block to release is recorded")
    c.ensures(lambda post: c_le(post(c.cbuf, "data") + post(c.cbuf, "len"), post(c.cbuf, "__nbytes")), "the buffer ends inside its memory")
    c.ensures(lambda post: c_and(c_ge(post(c.cbuf, "data"), 0), aligned(c, post, reg)), "the buffer starts at a cache line")
    c.ensures(lambda post: c_ge(post(c.cbuf, "len"), 12 * LINE), "the smallest blocks fit")


def mk_bytes(X, st, p, d):
    s = st.copy()
    X.region("M." + p.name, ld=None, rows=T.sym("cmem"), cols=T.ONE, label=p.name, esize=1)
    s.mem["M." + p.name] = RState(p.name)
    s.assume(c_ge(T.sym("addr.M." + p.name), 0))
    yield DPtr("M." + p.name, T.ZERO), s


MK["bytes"] = mk_bytes


@contract("armas_cbuf_make", SRC, "cbuf:newcache buf:bytes cmem:nat l1mem:nat", prop=CP, opts={"argmakers": MK, "nosearch": True, "noproto": PROTO, "leaf": True, "driver": (gen("armas_cache_setup2"), drive)})
def _(c):
    c.requires(c_ge(c.cmem, LINE), "there is room to align the start")
    c.ret(c.cbuf)
    reg = "M.buf"
    c.changes(c.cbuf, "len", "data")
    c.set(c.cbuf.obj, ("__unaligned",), NULL)
    c.setval(c.cbuf, 0, ("__nbytes",))
    c.setval(c.cbuf, c.cmem, ("cmem",))
    c.setval(c.cbuf, c.l1mem, ("l1mem",))
    c.into[(c.cbuf.obj, ("data",))] = reg
    c.ensures(lambda post: c_le(post(c.cbuf, "data") + post(c.cbuf, "len"), c.cmem), "the buffer ends inside the memory given")
    c.ensures(lambda post: c_and(c_ge(post(c.cbuf, "data"), 0), aligned(c, post, reg)), "the buffer starts at a cache line")
    c.ensures(lambda post: c_ge(post(c.cbuf, "len"), c.cmem - LINE), "at most a cache line is given up to alignment")
