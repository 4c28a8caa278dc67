"""Stand-ins, used at calls only, for the functions that hand out the packing
buffers.  What they promise is what property C10 decides about base/cache.c;
the two blocks of the buffer become two objects here."""
from . import term as T
from .term import *
from . import symex as S
from .symex import OPtr, DPtr, NULL, RState
from .intrinsics import builtin

CF = ("KB", "NB", "MB", "rb", "ab_step")


def cache_regions(X, st, name):
    """the two packing blocks as objects of their own"""
    fs = {f: T.sym("%s.%s" % (name, f)) for f in CF}
    q = T.sym(name + ".lines")          # packed columns hold whole vectors
    for c in [c_ge(fs[f], 1) for f in CF] + [c_le(q * 4, fs["ab_step"]), c_le(fs["KB"], q * 4), c_le(q * 4, fs["KB"] + 3), c_le(fs["rb"], fs["MB"])]:
        st.assume(c)
    d = {(f,): v for f, v in fs.items()}
    for f, w in (("Acpy", "MB"), ("Bcpy", "NB")):
        r = "M.%s.%s" % (name, f)
        if r not in X.regions:
            X.region(r, ld=fs["ab_step"], rows=fs["ab_step"], cols=fs[w], label=name + "." + f)
        X.scratch.add(r)
        st.mem[r] = RState(r)
        d[(f,)] = DPtr(r, T.ZERO)
    d[("dC",)] = NULL
    d[("C0",)] = NULL
    d[("c_step",)] = T.ZERO
    d[("cbuf",)] = OPtr("$cbuf")
    return d


@builtin("armas_cbuf_select")
def _select(X, st, a, e):
    X.assumptions.add("armas_cbuf_select hands out a buffer or fails without effect (see C10)")
    ok = T.sym("cbuf.rc")
    for b, s in X.branch(st, c_lt(ok, 0)):
        if not b:
            h = s.objs.setdefault("$held", {("buffers",): T.ZERO}).get(("buffers",))
            s.oset("$held", ("buffers",), h + 1)
        yield (K(-1) if b else T.ZERO), s


@builtin("armas_cbuf_release")
def _release(X, st, a, e):
    h = st.objs.setdefault("$held", {("buffers",): T.ZERO}).get(("buffers",))
    X.oblige(st, "resource", c_ge(h, 1), "the packing buffer released is held")
    st.oset("$held", ("buffers",), h - 1)
    yield T.ZERO, st


@builtin("armas_cache_setup2", "armas_cache_setup")
def _setup2(X, st, a, e):
    h = st.objs.setdefault("$held", {("buffers",): T.ZERO}).get(("buffers",)) + st.objs.get("$tls", {}).get(("n",), T.ZERO)
    X.oblige(st, "resource", c_ge(h, 1), "a packing buffer is held where it is divided")
    X.assumptions.add("armas_cache_setup2 divides the buffer into two separate blocks as C10 states")
    d = cache_regions(X, st, "cache")
    for p, v in d.items():
        st.oset(a[0].obj, a[0].path + p, v)
    yield T.ZERO, st


def make_cache(X, st, p, d):
    s = st.copy()
    s.objs[p.name] = cache_regions(X, s, p.name)
    yield OPtr(p.name), s


# ----------------------------------------------------------------- threads
def ranout(s):
    s.objs.setdefault("$fail", {})
    s.oset("$fail", ("n",), T.ONE)


@builtin("armas_cbuf_get_thread_global", "armas_cbuf_create_thread_global")
def _threadbuf(X, st, a, e):
    X.assumptions.add("armas_cbuf_get_thread_global hands out a buffer of the calling thread or NULL")
    if X.nofail:
        X.assumptions.add("a worker gets its packing buffer")
    else:
        s = st.copy()
        ranout(s)
        yield NULL, s
    st.objs.setdefault("$tls", {})
    st.oset("$tls", ("n",), T.ONE)
    yield OPtr("$cbuf"), st


@builtin("armas_cbuf_release_thread_global")
def _threadrel(X, st, a, e):
    st.objs.setdefault("$tls", {})
    st.oset("$tls", ("n",), T.ZERO)
    yield T.ZERO, st


@builtin("pthread_create")
def _create(X, st, a, e):
    """the thread runs at once; its writes must not matter to the others, which
    is what the contract of the function creating it comes down to"""
    X.assumptions.add("a created thread is executed to its end where it is created (threads touch separate blocks, see the contract of the caller); "
                      "pthread_create and pthread_join behave as specified")
    th, _, f, arg = a
    s = st.copy()
    ranout(s)
    err = T.fresh("errno")
    s.assume(c_ge(err, 1))
    yield err, s
    if not isinstance(f, S.FPtr):
        raise S.Unsupported("thread function %r" % (f,))
    mine = dict(st.objs.get("$tls", {}))
    st.objs["$tls"] = {("n",): T.ZERO}
    h = T.fresh("thread")
    X.store(st, X.deref(th), h)
    for rv, s in X.do_call(f.name, [arg], st, e):
        X.oblige(s, "resource", c_eq(s.objs["$tls"][("n",)], 0), "a thread releases its buffer before it ends")
        if mine:
            s.objs["$tls"] = dict(mine)
        else:
            del s.objs["$tls"]
        s.oset("$held", ("threads",), s.objs["$held"][("threads",)] + 1)
        # what it was given must stay as it is until it is joined
        for (p, v) in s.objs[arg.obj].items():
            if p[:len(arg.path)] == arg.path and not (p and p[-1] == '$reg'):
                s.objs.setdefault("$thread.%s" % h, {})
                s.oset("$thread.%s" % h, (arg.obj,) + p, v)
        yield T.ZERO, s


@builtin("pthread_join")
def _join(X, st, a, e):
    n = st.objs["$held"][("threads",)]
    X.oblige(st, "resource", c_ge(n, 1), "the thread joined was created")
    st.oset("$held", ("threads",), n - 1)
    d = st.objs.get("$thread.%s" % st.norm(a[0]))
    if d is None:
        raise S.Unsupported("thread handle %s" % a[0])
    for (o, *p), v in d.items():
        now = st.objs.get(o, {}).get(tuple(p))
        same = now is v or now == v
        if not same and isinstance(now, T.Poly) and isinstance(v, T.Poly):
            same = st.cnorm(c_eq(now, v))
        X.oblige(st, "resource", same, "the arguments of a thread (%s) stay as they are until it is joined" % ".".join(map(str, p)))
    yield T.ZERO, st


@builtin("armas_sched_schedule")
def _schedule(X, st, a, e):
    """the task runs now; every task has a place of its own, tasks are scheduled
    in the order of their places"""
    X.assumptions.add("the scheduler runs every scheduled task once, before the counter of its group reaches zero (worker threads: queues, locks and "
                      "atomic operations are outside the contracts); a task is executed to its end where it is scheduled")
    t = a[1]
    if not isinstance(t, OPtr) or not t.obj.startswith("slots.") or len(t.path) != 1:
        raise S.Unsupported("scheduling %r" % (t,))
    d = st.objs.setdefault("$sched", {("n",): T.ZERO})
    n = d[("n",)]
    size = st.objs["$slots"][(t.obj,)]
    X.oblige(st, "resource", c_eq(t.path[0][1], n), "each task has a place of its own")
    X.oblige(st, "bounds", c_lt(t.path[0][1], size), "the place of a task lies in the array")
    g = lambda *p: next(X.load(st, ('o', t.obj, t.path + p)))[0]
    f, arg, ready = g("task", "func"), g("task", "args"), g("task", "ready")
    X.oblige(st, "resource", isinstance(ready, OPtr) and ready.path == (), "a task counts down")
    if not isinstance(f, S.FPtr):
        raise S.Unsupported("task function %r" % (f,))
    for rv, s in X.do_call(f.name, [arg], st, e):
        s.oset("$sched", ("n",), n + 1)
        s.oset(t.obj, (t.path[0], '$sealed'), T.ONE)
        yield T.ZERO, s


@builtin("armas_counter_init")
def _counter(X, st, a, e):
    X.store(st, ('o', a[0].obj, a[0].path + ("count",)), a[1])
    yield T.ZERO, st


@builtin("armas_counter_wait")
def _wait(X, st, a, e):
    n = st.objs.get("$sched", {}).get(("n",), T.ZERO)
    X.oblige(st, "resource", c_eq(st.objs[a[0].obj][a[0].path + ("count",)], n), "all tasks scheduled are waited for")
    st.objs["$sched"] = {("n",): T.ZERO}
    st.objs.setdefault("$done", {})
    st.oset("$done", ("n",), n)
    yield T.ZERO, st


@builtin("worker_all_ready")
def _ready(X, st, a, e):
    X.assumptions.add("no worker refers to a task once all of them have been counted (worker_all_ready)")
    X.oblige(st, "resource", c_eq(st.objs.get("$done", {}).get(("n",), T.ZERO), a[1]), "all tasks are done")
    yield T.ZERO, st
