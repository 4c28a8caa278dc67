"""Contracts.  A contract is one Python function over a SpecCtx; it is used in
two ways: to check the body of the function it describes, and, at every call
site, in place of that body."""
import copy
import time
import traceback
from . import term as T
from .term import *
from . import symex as S
from .symex import (Flags, DPtr, OPtr, FPtr, Vec, NULL, UNINIT, UNKNOWN, RState, R_, C_, Ra, Ca,
                    Executor, State, Unsupported, NeedInvariant, Budget)
from . import solver as Z
from . import quant
from .compare import Comparer
import z3


class Fork(Exception):
    def __init__(self, c):
        self.c = c


class Infeasible(Exception):
    pass


class SplitSum(Exception):
    pass


class View:
    """cells of a region addressed by (i, j)"""

    def __init__(self, c, name, reg, r0, c0, rows, cols, di=(1, 0), dj=(0, 1), ptr=None, struct=None):
        self.c, self.name, self.reg = c, name, reg
        self.r0, self.c0, self.rows, self.cols = r0, c0, rows, cols
        self.di, self.dj = di, dj
        self.ptr = ptr
        self.struct = struct

    def cell(self, i, j):
        return (self.r0 + i * self.di[0] + j * self.dj[0], self.c0 + i * self.di[1] + j * self.dj[1])

    def __call__(self, i, j=None):
        if j is None:
            return self.c._read(self, *self._vi(i))
        return self.c._read(self, K(i), K(j))

    def _vi(self, k):
        k = K(k)
        if self.isrow():
            return T.ZERO, k
        return k, T.ZERO

    def isrow(self):
        if not hasattr(self, "_isrow"):
            self._isrow = self.c.decide(c_eq(self.rows, 1))
        return self._isrow

    @property
    def n(self):
        """length of a vector"""
        return self.cols if self.isrow() else self.rows

    @property
    def size(self):
        return self.rows * self.cols

    @property
    def step(self):
        return self.c._st.objs[self.struct.obj][self.struct.path + ("step",)]

    def isvec(self):
        return c_or(c_eq(self.rows, 1), c_eq(self.cols, 1))

    # inverse map at the generic cell (R_, C_)
    def index(self):
        """(i, j, guard) at the generic cell"""
        di, dj = self.di, self.dj
        one_row = self.c.decide_quiet(c_eq(self.rows, 1))
        one_col = self.c.decide_quiet(c_eq(self.cols, 1))
        if di == (1, 0) and dj == (0, 1):
            i, j = R_ - self.r0, C_ - self.c0
            if one_row:
                g = c_and(c_eq(R_, self.r0), c_ge(j, 0), c_lt(j, self.cols))
                return T.ZERO, j, g
            if one_col:
                g = c_and(c_ge(i, 0), c_lt(i, self.rows), c_eq(C_, self.c0))
                return i, T.ZERO, g
            return i, j, c_and(c_ge(i, 0), c_lt(i, self.rows), c_ge(j, 0), c_lt(j, self.cols))
        if one_row or dj != (0, 1):
            if dj == (1, 1):
                j = C_ - self.c0
                return T.ZERO, j, c_and(c_eq(R_ - self.r0, j), c_ge(j, 0), c_lt(j, self.cols))
            if dj == (1, 0):
                j = R_ - self.r0
                return T.ZERO, j, c_and(c_eq(C_, self.c0), c_ge(j, 0), c_lt(j, self.cols))
            if dj == (0, 1):
                j = C_ - self.c0
                return T.ZERO, j, c_and(c_eq(R_, self.r0), c_ge(j, 0), c_lt(j, self.cols))
        if one_col:
            if di == (0, 1):
                i = C_ - self.c0
                return i, T.ZERO, c_and(c_eq(R_, self.r0), c_ge(i, 0), c_lt(i, self.rows))
            if di == (1, 1):
                i = C_ - self.c0
                return i, T.ZERO, c_and(c_eq(R_ - self.r0, i), c_ge(i, 0), c_lt(i, self.rows))
        raise Unsupported("view of shape di=%s dj=%s" % (di, dj))

    def sub(self, r, c, nr, nc):
        r0, c0 = self.cell(K(r), K(c))
        return View(self.c, self.name, self.reg, r0, c0, K(nr), K(nc), self.di, self.dj)

    def guard(self):
        return self.index()[2]


class SpecCtx:
    """what a contract function sees"""

    def __init__(self, X, st, mode, args):
        self._X, self._st, self._mode = X, st, mode
        self.args = args
        self.reqs = []
        self.effects = []
        self.retval = None
        self.sets = []
        self.extra = ()
        self.sumvars = []
        self.views = []
        self.snapcache = {}
        self.writing = None
        self.measure = None
        self.nooverlap = True
        self.retfree = False
        self.written = []
        self.mayalias = set()
        self.givens = []
        self.claims = []
        self.staged = {}
        self.changed = {}
        self.ensured = []
        self.into = {}
        self.failable = False
        self.decl = None
        self.failpaths = set()
        self.relations = []
        self.pure = None
        self.reorders = []
        self.quants = []
        self.companions = None

    def __getattr__(self, k):
        a = self.__dict__.get("args", {})
        if k in a:
            return a[k]
        raise AttributeError(k)

    # ---- logic
    def decide(self, c):
        if c is True or c is False:
            return c
        r = self._X.decide(self._st, c)
        if r is None:
            raise Fork(c)
        return r

    def decide_quiet(self, c):
        return self._X.decide(self._st, c) is True

    def flag(self, f, name):
        """is any of the bits set?"""
        v = f.and_(name) if isinstance(f, Flags) else None
        if v is None:
            if isinstance(f, Poly) and f.is_const():
                return bool(int(f.const()) & name)
            raise Unsupported("flags value %r" % (f,))
        return self.decide(v.nonzero())

    def flagsel(self, f, mask, value):
        """(flags & mask) == value"""
        return self.decide(f.and_(mask).equals(value))

    def requires(self, c, desc="precondition"):
        self.reqs.append((c, desc))
        if self._mode == 'verify':
            c = self._st.cnorm(c)
            if c is True:
                return
            if c is False or not Z.feasible(self._st.pc, c):
                raise Infeasible()
            self._st.assume(c)

    def requires_each(self, reg, lo, hi, desc):
        """every element of an array of integers is between the bounds"""
        rs = self._st.mem[reg]
        o = self._st.objs.setdefault("$range", {})
        if self._mode == 'verify':
            o = dict(o)
            o[(rs.base,)] = (lo, hi)
            self._st.objs["$range"] = o
        elif rs.upd or o.get((rs.base,)) != (lo, hi):
            self._X.oblige(self._st, "precondition", False, desc)

    def decreases(self, m):
        self.measure = m

    # ---- reading
    def _read(self, v, i, j):
        row, col = v.cell(i, j)
        if self.writing == v.reg and row == R_ and col == C_:
            return T.rd('$old', R_, C_, self._X.regions[v.reg].sort)
        r = self._X.try_read(self._st, v.reg, row, col, self.extra)
        if r is not None:
            return r
        if self.sumvars:
            self._split(v.reg, row, col)
        nm = self.snapcache.get(v.reg)
        if nm is None:
            nm = self._X.snapshot(self._st, v.reg)
            self.snapcache[v.reg] = nm
        return T.rd(nm, row, col, self._X.regions[v.reg].sort)

    def _split(self, reg, row, col):
        """the cell read has different content in parts of the range summed
        over: ask for the sum to be taken in two parts"""
        k, lo, hi = self.sumvars[-1]
        ka = k.t[0][0][0][0]
        pc = tuple(c for c in self._st.pc + tuple(self.extra) if ka not in Z.cond_atoms(c))
        seen = set()

        def walk(c):
            if isinstance(c, bool):
                return
            if c[0] in ('and', 'or', 'not'):
                for x in c[1:]:
                    walk(x)
            elif c[0] in ('le', 'eq'):
                q, m = T.lin_coef_poly(c[1], ka)
                if q is None or not q.is_const() or abs(q.const()) != 1:
                    return
                b = -m if q.const() == 1 else m
                seen.add(b)
                seen.add(b + 1)
        for g, _ in self._st.mem[reg].upd:
            walk(self._st.cnorm(T.csubst(g, {Ra: row, Ca: col})))
        for b in sorted(seen, key=T.show):
            if Z.entails(pc, c_and(c_le(lo, b), c_le(b, hi))) \
                    and not Z.entails(pc, c_eq(lo, b)) and not Z.entails(pc, c_eq(b, hi)):
                raise SplitSum(b)

    def sum(self, lo, hi, f):
        lo, hi = K(lo), K(hi)
        k = T.fresh("k")
        sv = self.extra
        self.extra = sv + tuple(c for c in (c_le(lo, k), c_lt(k, hi)) if c is not True and c is not False)
        self.sumvars.append((k, lo, hi))
        try:
            body = f(k)
        except SplitSum as e:
            body, b = None, e.args[0]
        finally:
            self.sumvars.pop()
            self.extra = sv
        if body is None:
            return self.sum(lo, b, f) + self.sum(b, hi, f)
        # antidifference S(hi) - S(lo) equals the sum only for lo <= hi
        return T.mkS(body, k, hi) - T.mkS(body, k, lo)

    # ---- solutions
    def nonzero(self, n, f, desc=""):
        """values the program divides by; a zero among them ends the claim"""
        self._X.assumptions.add("%s has no zero" % desc)

    def ghost(self, v):
        """the unknown values v is specified to end with: an array of the same
        shape as v that nothing in the program reads or writes"""
        g = "~" + v.reg
        stages = self._st.objs.get("$stages", {}).get(v.reg)
        if stages and self._mode != 'verify' and g not in self.staged:
            self.staged[g] = self._st.mem[g]
            self._st.mem[g] = stages[0]
            self._st.objs["$stages"] = dict(self._st.objs["$stages"], **{v.reg: stages[1:]})
        if g not in self._st.mem:
            if self._mode != 'verify':
                raise Unsupported("%s: no solution is known for %s here" % (v.name, self._X.regions[v.reg].label))
            r = self._X.regions[v.reg]
            if g not in self._X.regions:
                self._X.region(g, ld=r.ld, rows=r.rows, cols=r.cols, label="solution of " + r.label)
            self._st.mem[g] = RState(g)
        w = View(self, v.name + "~", g, v.r0, v.c0, v.rows, v.cols, v.di, v.dj)
        w._isrow = v.isrow() if self.decide_quiet(v.isvec()) else False
        return w

    def given(self, v, f, alpha=None, where=None):
        """precondition: alpha * v(i,j) == f(i,j), f told in terms of the
        solution; alpha zero means the zero solution"""
        alpha = K(1 if alpha is None else alpha)
        if self._mode != 'verify':
            self.givens.append((v, f, alpha, where))
            return
        if alpha.is_const():
            zero = alpha.const() == 0
        else:
            zero = self.decide(c_req(alpha, 0))
        if zero:
            g = "~" + v.reg
            self._st.mem[g] = RState(g, ((True, T.ZERO),))
            return
        i, j, g = v.index()
        if where is not None:
            g = c_and(g, where(i, j))
        sv = self.extra
        self.extra = sv + ((g,) if g is not True else ())
        val = T.mk_inv(alpha) * f(i, j)
        self.extra = sv
        self._X._add_update(self._st, v.reg, g, self._st.norm(val))
        self.snapcache = {}

    def givenv(self, v, f, alpha=None):
        if v.isrow():
            self.given(v, lambda i, j: f(j), alpha)
        else:
            self.given(v, lambda i, j: f(i), alpha)

    def stage(self, v, f):
        """what v holds after the next system is solved; the solution proper
        is the result of the last one"""
        y = self.ghost(v)
        i, j, g = v.index()
        sv = self.extra
        self.extra = sv + ((g,) if g is not True else ())
        r = RState(y.reg, ((True, self._st.norm(f(i, j))),))
        self.extra = sv
        d = self._st.objs.get("$stages", {})
        self._st.objs["$stages"] = dict(d, **{v.reg: d.get(v.reg, ()) + (r,)})

    def claim(self, cond):
        """something else that holds in every iteration of a loop"""
        self.claims.append(cond)

    def positive(self, y, n):
        """precondition: the first n diagonal values of a solution are positive"""
        if self._mode == 'verify':
            self._st.objs["$positive"] = {y.reg: (y.r0, y.c0, K(n))}
            return
        r0, c0, m = self._st.objs.get("$positive", {}).get(y.reg, (None,) * 3)
        if r0 is None:
            raise Unsupported("which values are positive")
        d = y.r0 - r0
        self.requires(c_and(c_eq(d, y.c0 - c0), c_ge(d, 0), c_or(c_le(n, 0), c_le(d + n, m))), "the diagonal is positive")

    def use_positive(self, y, k):
        """the k'th of them is; what lies beyond the last is as good as positive"""
        r0, c0, m = self._st.objs["$positive"][y.reg]
        d = y.r0 - r0
        if self._X.decide(self._st, c_and(c_eq(d, y.c0 - c0), c_le(0, d + k))) is not True:
            return
        x = self._st.norm(y(k, k))
        self._st.assume(c_rlt(0, x))
        (root,) = T.mk_sqrt(x * x).t[0][0]
        self._st.sub = dict(self._st.sub, **{}) if root[0] in self._st.sub else dict(list(self._st.sub.items()) + [(root[0], x)])

    # ---- order
    def reorder(self, v, up, key=None):
        """v holds a rearrangement of its elements, ordered (on what key says
        of each: None or "abs")"""
        qv = quant.QView(v, key)
        qv.ordering, qv.sorting, qv.pairs = [up], True, None
        self.reorders.append((qv, up))
        if self._mode == 'verify':
            self.effects.append((v, qv.guard, UNINIT))
            quant.track(self._X, self, [q for q, _ in self.reorders])

    def best(self, v, up, key=None):
        """the value returned is the index of the first of the largest (up) or
        smallest elements of v"""
        qv = quant.QView(v, key)
        qv.ordering, qv.sorting, qv.pairs = [up], False, None
        if self._mode == 'verify':
            quant.track(self._X, self, [qv])

        def told(q, rv):
            m = q.key(qv, rv)
            return z3.And(Z.zcond(c_and(c_ge(rv, 0), c_lt(rv, qv.n))),
                          q.all1(qv, T.ZERO, qv.n, lambda i: quant.le(q.key(qv, i), m, up)),
                          q.all1(qv, T.ZERO, rv, lambda i: q.key(qv, i) < m if up else q.key(qv, i) > m))
        self.ret(("cond", lambda rv: c_and(c_ge(rv, 0), c_lt(rv, qv.n))))
        self.quants.append((told, "the value returned is the index of the first %s element of %s" % ("largest" if up else "smallest", v.name)))

    def extreme(self, v, up, key=None):
        """the value returned is the largest or smallest element of v"""
        qv = quant.QView(v, key)
        qv.ordering, qv.sorting, qv.pairs = [up], False, None
        if self._mode == 'verify':
            quant.track(self._X, self, [qv])
        self.ret(("cond", lambda rv: True))
        self.quants.append((lambda q, rv: z3.And(
            q.all1(qv, T.ZERO, qv.n, lambda i: quant.le(q.key(qv, i), q.real(rv), up)),
            z3.Not(q.all1(qv, T.ZERO, qv.n, lambda i: q.key(qv, i) != q.real(rv)))),
            "the value returned is the %s of %s" % ("largest" if up else "smallest", v.name)))

    def together(self, key, up, others):
        """key is ordered and the others (("elem", v), ("col", m), ("row", m))
        are rearranged with it"""
        X = self._X
        if self._mode != 'verify':
            raise Unsupported("a call that sorts with companions")
        qk = quant.QView(key)
        qk.ordering, qk.sorting, qk.pairs = [up], True, "elem"
        qs = [qk]
        self.effects.append((key, qk.guard, UNINIT))
        for kind, m in others:
            qm = quant.QView(m)
            qm.ordering, qm.sorting, qm.pairs = None, False, kind
            n = qk.n
            w = m.sub(0, 0, m.rows, n) if kind == "col" else m.sub(0, 0, n, m.cols) if kind == "row" else m
            qm.guard = w.guard()
            self.effects.append((m, qm.guard, UNINIT))
            qs.append(qm)
        quant.track(X, self, qs)
        X.qn = qk.n
        X.qstart = self._st.copy()
        self.companions = (qk, up, qs)

    # ---- effects
    def write(self, v, f, where=None):
        """content of v(i,j) becomes f(i,j) wherever where(i,j) holds"""
        i, j, g = v.index()
        if where is not None:
            g = c_and(g, where(i, j))
        if g is False:
            return
        sv, sw = self.extra, self.writing
        self.extra = sv + ((g,) if g is not True else ())
        self.writing = v.reg
        if self._X.decide(self._st, T.c_not(g)) is True and False:
            val = T.ZERO
        else:
            val = f(i, j)
        self.extra, self.writing = sv, sw
        self.effects.append((v, g, val))
        self.written.append(v)

    def writev(self, v, f, where=None):
        """vector form"""
        if v.isrow():
            self.write(v, lambda i, j: f(j), (lambda i, j: where(j)) if where else None)
        else:
            self.write(v, lambda i, j: f(i), (lambda i, j: where(i)) if where else None)

    def havoc(self, v):
        i, j, g = v.index()
        self.effects.append((v, g, UNINIT))
        self.written.append(v)

    def scratch(self, cache):
        """the packing buffers: block sizes as the callee relies on, contents
        unspecified afterwards"""
        X = self._X
        f = {n: self.val(cache, (n,)) for n in ("KB", "NB", "MB", "rb", "ab_step", "Acpy", "Bcpy")}
        for n in ("KB", "NB", "MB", "rb"):
            self.requires(c_ge(f[n], 1), "block size %s is positive" % n)
        self.requires(c_le(f["rb"], f["MB"]), "strip height fits the block")
        q = T.sym("vec4." + T.show(f["KB"])) if self._mode == 'verify' else T.fresh("vec4")
        self._st.assume(c_le(f["KB"], q * 4))
        self._st.assume(c_le(q * 4, f["KB"] + 3))
        self.requires(c_le(q * 4, f["ab_step"]), "packed columns fit the block")
        for n, w in (("Acpy", "MB"), ("Bcpy", "NB")):
            p = f[n]
            r = X.regions[p.reg]
            same = p.reg in X.scratch and p.off == T.ZERO and r.ld == f["ab_step"]
            self.requires(bool(same), "%s is a packing block" % n)
            self.requires(c_and(c_le(f[w], r.cols), c_le(f["ab_step"], r.rows)), "%s is large enough" % n)
            self.effects.append((View(self, n, p.reg, T.ZERO, T.ZERO, r.rows, r.cols), True, UNINIT))
        self.requires(f["Acpy"].reg != f["Bcpy"].reg, "packing blocks are separate")
        return f

    def extent(self, v, rows, cols, unused=()):
        """v names rows x cols elements; the fields in unused may say anything,
        the function does not look at them"""
        if self._mode != 'verify':
            v.rows, v.cols = K(rows), K(cols)
            return
        self.requires(c_and(c_eq(v.rows, rows), c_eq(v.cols, cols)))
        for f in unused:
            self._st.oset(v.struct.obj, v.struct.path + (f,), T.sym("%s.%s.unused" % (v.name, f)))

    def optflags(self):
        """options of the configuration in force"""
        cf = self.args.get("conf", OPtr("conf", ()) if "conf" in self._st.objs else NULL)
        if cf is NULL:
            cf = OPtr("gconf", ())
            if "gconf" not in self._st.objs:
                make_conf(self._X, self._st, "gconf")
        return self._st.objs[cf.obj][cf.path + ("optflags",)]

    def nobuffer(self):
        """no packing buffer can be had"""
        return c_lt(T.sym("cbuf.rc"), 0)

    def ret(self, v):
        self.retval = K(v) if not isinstance(v, (OPtr, DPtr, tuple)) and v is not NULL else v

    def set(self, obj, path, v):
        self.sets.append((obj, path if isinstance(path, tuple) else (path,), v))

    def changes(self, p, *paths):
        """these fields of *p get some value; ensures() says which"""
        for q in paths:
            q = q if isinstance(q, tuple) else (q,)
            q = tuple(x for x in q if x != "")
            self.changed[(p.obj, p.path + q)] = T.fresh("post." + ".".join(map(str, q)))

    def anything(self, p, *path):
        """the field may hold anything afterwards"""
        self.changed[(p.obj, p.path + path)] = UNINIT

    def mayfail(self, *fields):
        """resources may run out (memory, threads): then the result is
        negative, what is written is unspecified and so are these fields"""
        self.failable = True
        self.failpaths |= {(p.obj, p.path + (f,)) for p, f in fields}

    def declines(self, code):
        """the function may return the code having done nothing"""
        self.decl = code

    def function_of(self, *args):
        """the result depends on these integers only"""
        self.pure = args

    def relates(self, args, cond, desc):
        """cond(result, result for args) holds; proved by running the function
        twice, assumed at calls of a function_of"""
        self.relations.append((args, cond, desc))

    def view(self, p, name):
        """the matrix whose header is at p"""
        if p is NULL:
            return NULL
        v = view_of_struct(self._X, self._st, p, name)
        v.c = self
        self.args[name] = v
        return v

    def points(self, p, buf, *path):
        """the field points into the memory of the buffer"""
        d = self._st.objs[buf.obj][buf.path + ("data",)]
        path = tuple(x for x in path if x != "")
        self.changed[(p.obj, p.path + path)] = DPtr(d.reg, T.fresh("post." + ".".join(map(str, path))))
        self.into[(p.obj, p.path + path)] = d.reg

    def env(self, f):
        """a field of the global configuration"""
        make_env(self._X, self._st)
        return self._st.objs["genv"][(f,)]

    def ensures(self, f, desc):
        """f(post) is a condition; post(p, field) is a value after the call"""
        self.ensured.append((f, desc))

    def val(self, p, path=()):
        """value of the object p points to"""
        v = self._X.load_quiet(self._st, p) if isinstance(p, DPtr) else self._st.objs[p.obj].get(p.path + path, UNINIT)
        if v is UNINIT or v is UNKNOWN:
            self.requires(False, "object read by the contract is initialised")
            return T.ZERO
        return self._st.norm(v) if isinstance(v, Poly) else v

    def setval(self, p, v, path=()):
        self.sets.append((p.obj, p.path + path, K(v)))

    def setview(self, p, B, i, j, nr, nc, step=None):
        """*p describes nr x nc elements of B from (i, j)"""
        if p is NULL:
            return
        i, j = K(i), K(j)
        ld = B.step
        p = p.struct if isinstance(p, View) else p
        for f, v in (("rows", K(nr)), ("cols", K(nc)), ("step", K(step) if step is not None else ld),
                     ("elems", DPtr(B.reg, i + j * ld)), ("__data", NULL), ("__nbytes", T.ZERO)):
            self.sets.append((p.obj, p.path + (f,), v))

    def zeroview(self, p, fields=("rows", "cols", "step", "elems", "__data", "__nbytes")):
        for f in fields:
            self.sets.append((p.obj, p.path + (f,), NULL if f in ("elems", "__data") else T.ZERO))

    def error(self, code):
        """conf->error = code"""
        cf = self.args.get("conf")
        if cf is None or cf is NULL:
            cf = OPtr("gconf", ())
            if "gconf" not in self._st.objs:
                make_conf(self._X, self._st, "gconf")
        self.sets.append((cf.obj, cf.path + ("error",), K(code)))


def postof(s, rv):
    def post(p, *path):
        if p == "return":
            return rv
        v = s.objs.get(p.obj, {}).get(p.path + path, UNINIT)
        if isinstance(v, DPtr):
            v = v.off
        if not isinstance(v, Poly):
            raise Unsupported("field %s.%s has no value after the call" % (p.obj, ".".join(map(str, path))))
        return s.norm(v)
    return post


# ----------------------------------------------------------------- arguments
class P:
    """parameter declaration"""

    def __init__(self, name, kind, **kw):
        self.name, self.kind, self.kw = name, kind, kw


def parse_params(s):
    """'y:vec alpha:real A:mat flags:flags conf:conf'"""
    out = []
    for w in s.split():
        n, k = w.split(":", 1)
        kw = {}
        if k.endswith("?"):
            k = k[:-1]
            kw["null"] = True
        if "(" in k:
            k, rest = k[:-1].split("(", 1)
            for it in rest.split(","):
                if "=" in it:
                    a, b = it.split("=")
                    kw[a] = b
                else:
                    kw.setdefault("a", []).append(it)
        out.append(P(n, k, **kw))
    return out


# every value of the machine type
MACHINE = {"i32": S.int_range("int"), "u64": S.int_range("unsigned long"), "i64": S.int_range("long")}

CONF_FIELDS = ("error", "optflags", "work", "accel", "maxiter", "gmres_m", "smult", "stop", "numiters", "residual",
               "tolmult")


def make_conf(X, st, name):
    st.objs[name] = {
        ("error",): T.sym(name + ".error"),
        ("optflags",): Flags(name + ".optflags"),
        ("work",): OPtr(name + ".work"),
        ("accel",): NULL,           # no accelerator attached
        ("maxiter",): T.sym(name + ".maxiter"),
        ("gmres_m",): T.sym(name + ".gmres_m"),
        ("smult",): T.sym(name + ".smult", 'r'),
        ("stop",): T.sym(name + ".stop", 'r'),
        ("numiters",): T.sym(name + ".numiters"),
        ("residual",): T.sym(name + ".residual", 'r'),
        ("tolmult",): T.sym(name + ".tolmult"),
    }


def make_env(X, st):
    if "genv" in st.objs:
        return
    d = {}
    for f in ("mb", "nb", "kb", "lb", "blas1min", "blas2min", "cmem", "l1mem", "fixed"):
        s = T.sym("env." + f)
        d[(f,)] = s
    st.objs["genv"] = d
    for f in ("mb", "nb", "kb", "lb", "blas1min", "blas2min"):
        st.assume(c_ge(d[(f,)], 0))


class Contract:
    def __init__(self, name, src, params, spec, prop=None, shapes=None, note=None, recursive=False, extra_tus=(),
                 opts=None):
        self.key = name
        self.static = ":" in name
        self.name, self.src, self.params, self.spec = name.split(":")[-1], src, parse_params(params), spec
        self.prop = prop
        self.note = note
        self.extra_tus = extra_tus
        self.opts = opts or {}

    def returns_real(self):
        from . import frontend as F
        if not hasattr(self, "_rr"):
            try:
                fn = F.load(self.src).funcs[self.name]
                t = fn["type"].get("desugaredQualType", fn["type"]["qualType"]).split("(")[0].strip()
                self._rr = t in ("double", "DTYPE", "ABSTYPE", "float")
            except (F.ExtractionError, KeyError):
                self._rr = bool(self.opts.get("retreal"))
        return self._rr

    # ------------------------------------------------------------ call site
    def small(self, X, st, vals):
        """condition: every matrix argument has a non-negative size"""
        cs = []
        for p, v in zip(self.params, vals):
            if p.kind in ("vec", "mat") and isinstance(v, OPtr):
                for f in ("rows", "cols"):
                    x = st.objs.get(v.obj, {}).get(v.path + (f,), UNINIT)
                    if isinstance(x, Poly):
                        cs.append(c_ge(x, 0))
        return c_and(*cs)

    def apply(self, X, st, vals, e):
        for c, s in self._spec_paths(X, st, 'apply', lambda s: self.bind_apply(X, s, vals)):
            for cond, desc in c.reqs:
                X.oblige(s, "precondition", cond, "%s of %s at its call" % (desc, self.name))
                s.assume(cond)
            if c.measure is not None and X.measure is not None and self.name in X.measure_funcs:
                X.oblige(s, "termination", c_and(c_ge(c.measure, 0), c_lt(c.measure, X.measure)),
                         "recursive call of %s works on a smaller problem" % self.name)
            self.check_frames(X, s, c)
            for v, f, alpha, where in c.givens:
                self.check_given(X, s, c, v, f, alpha, where)
            for g in c.staged:
                s.mem[g] = c.staged[g]
            if c.failable:
                f = s.copy()
                f.objs.setdefault("$fail", {})
                f.oset("$fail", ("n",), T.ONE)
                for v, g, val in c.effects:
                    X._add_update(f, v.reg, g, UNINIT)
                for (obj, path) in list(c.changed) + list(c.failpaths):
                    f.oset(obj, path, T.fresh("fail." + ".".join(map(str, path))))
                rv = T.fresh("fail." + self.name)
                f.assume(c_lt(rv, 0))
                yield rv, f
            if c.decl is not None:
                yield K(c.decl), s.copy()
            for v, g, val in c.effects:
                g2 = s.cnorm(g)
                if g2 is False:
                    continue
                X._add_update(s, v.reg, g, val if val is UNINIT else s.norm(val))
            for qv, up in c.reorders:
                quant.rearrange(X, s, qv, up, qv.key)
            for (obj, path), v in c.changed.items():
                s.oset(obj, path, v)
            for obj, path, v in c.sets:
                s.oset(obj, path, v)
            rv = c.retval
            fresh = lambda: T.fresh("ret." + self.name) if c.pure is None else A(T.mk_atom('uf', (self.name,) + tuple(s.norm(K(x)) for x in c.pure), 'i'))
            if isinstance(rv, tuple):
                cond = rv[1]
                rv = fresh()
                s.assume(s.cnorm(cond(rv)))
            if rv is None:
                rv = fresh() if c.retfree or c.pure is not None else T.ZERO
            for f, desc in c.ensured:
                s.assume(s.cnorm(f(postof(s, rv))))
            for f, desc in c.quants:
                q = quant.Q(X, s)
                quant.add_fact(s, f(q, rv))
                for x in q.rd.axioms.values():
                    quant.add_fact(s, x)
            for args, cond, desc in c.relations:
                s.assume(s.cnorm(cond(rv, A(T.mk_atom('uf', (self.name,) + tuple(s.norm(K(x)) for x in args), 'i')))))
            yield rv, s

    def check_given(self, X, s, c, v, f, alpha, where):
        if X.dry:
            return
        i, j = T.fresh("i"), T.fresh("j")
        if c.decide_quiet(c_eq(v.rows, 1)):
            i = T.ZERO
        elif c.decide_quiet(c_eq(v.cols, 1)):
            j = T.ZERO
        s2 = s.copy()
        for x in (c_ge(i, 0), c_lt(i, v.rows), c_ge(j, 0), c_lt(j, v.cols)) + ((where(i, j),) if where else ()):
            if x is not True:
                s2.assume(x)
        if Z.check_sat(list(s2.pc))[0] == 'unsat':
            return
        sv = c._st, c.snapcache
        c._st, c.snapcache = s2, {}
        want = f(i, j)
        c._st, c.snapcache = sv
        cmp = Comparer(X)
        for got, s3 in X.mread(s2, v.reg, *v.cell(i, j)):
            cmp.values(s3, alpha * got if got is not UNINIT else got, want, "precondition",
                       "%s of %s holds the right side of the system solved" % (v.name, self.name))

    def check_frames(self, X, s, c):
        if X.dry:
            return
        vs = []
        pads = {p.name: p.kw.get("pad") for p in self.params}
        for nm, v in c.args.items():
            if isinstance(v, View):
                vs.append((nm, v))
        for nm, v in vs:
            # view inside its operand
            reg = X.regions[v.reg]
            cs = []
            if reg.rows is not None:
                r1, c1 = v.cell(v.rows - 1, v.cols - 1)
                cs = [c_ge(v.r0, 0), c_lt(r1, reg.rows), c_ge(v.c0, 0)]
                if reg.cols is not None:
                    cs.append(c_lt(c1, reg.cols))
                if pads.get(nm):
                    s = s.copy()
                    cs.append(c_le(v.r0 + padded(s, v.rows, ''), reg.rows))
                nonempty = c_and(c_gt(v.rows, 0), c_gt(v.cols, 0))
                goal = c_or(c_not(nonempty), c_and(*cs))
                X.oblige(s, "bounds", goal, "argument %s of %s lies inside %s" % (nm, self.name, reg.label))
        wr = {}
        for v, g, val in c.effects:
            wr.setdefault(v.reg, []).append((v, g))
        for nm, v in vs:
            for w, g in wr.get(v.reg, []):
                if w is v or w.name == v.name or (w.name, v.name) in c.mayalias:
                    continue
                g2 = v.guard()
                X.oblige(s, "separation", c_not(c_and(g, g2)),
                         "%s and %s of %s do not overlap" % (w.name, v.name, self.name))

    def _spec_paths(self, X, st, mode, bind):
        """run the contract function, forking the state where it asks"""
        for args, s0 in bind(st):
            todo = [s0]
            while todo:
                s = todo.pop()
                s1 = s.copy()
                c = SpecCtx(X, s1, mode, args(s1) if callable(args) else args)
                for v in c.args.values():
                    if isinstance(v, View):
                        v.c = c
                        if hasattr(v, "_isrow"):
                            del v._isrow
                try:
                    self.spec(c)
                except Fork as f:
                    for b, s2 in X.branch(s.copy(), f.c):
                        todo.append(s2)
                    continue
                except Infeasible:
                    continue
                yield c, s1

    def bind_apply(self, X, st, vals):
        def args(s):
            d = {}
            for p, v in zip(self.params, vals):
                d[p.name] = v
            for p, v in zip(self.params, vals):
                if p.kind in ("vec", "mat"):
                    if v is NULL:
                        d[p.name] = NULL
                        continue
                    d[p.name] = view_of_struct(X, s, v, p.name)
                elif p.kind == "ptr":
                    d[p.name] = view_of_ptr(X, s, v, p, d)
                elif p.kind == "scalarptr":
                    d[p.name] = v
                elif p.kind == "conf":
                    if v is NULL and self.opts.get("confdefault", True):
                        pass
                elif p.kind == "flags":
                    pass
            return d
        yield args, st

    # ------------------------------------------------------------ own body
    def verify(self, X):
        X.measure = None
        X.measure_funcs = self.opts.get("measure_group", (self.name,))
        n = 0
        tu, fn = X.find_func(self.name)
        from . import frontend as F
        if fn is None:
            raise F.ExtractionError("function %s is not defined in %s" % (self.name, self.src))
        if len(F.params_of(fn)) != len(self.params):
            raise F.ExtractionError("function %s has other parameters than its contract" % self.name)
        for args, st in self.initial(X):
            for c, s in self._spec_paths(X, st, 'verify', lambda s, args=args: iter([(args, s)])):
                X.measure = c.measure
                if Z.check_sat(list(s.pc))[0] == 'unsat':
                    continue
                n += 1
                if X.part and n % X.part[1] != X.part[0]:
                    continue
                pre = s.copy()
                vals = [self.actual(X, s, p, c.args[p.name]) for p in self.params]
                X.cover_reached = 0
                X.func_stack = []
                cnt = 0
                if self.name in tu.perm:
                    pm = tu.perm[self.name]
                    vals = [vals[pm.index(i)] for i in range(len(vals))]
                for rv, e in X.run_function(self.name, vals, s):
                    cnt += 1
                    self.check_post(X, c, pre, rv, e)
                X.covers.setdefault("cases", 0)
                X.covers["cases"] += 1
                X.covers["paths"] = X.covers.get("paths", 0) + cnt
                X.npaths += cnt
        if X.part and n and X.covers.get("cases", 0) == 0:
            X._record("vacuity", "no case of %s falls to this part" % self.name, True, "z3", 0)
        elif n == 0 or X.covers.get("paths", 0) == 0:
            X._record("vacuity", "no execution satisfies the precondition of %s" % self.name, False, "z3", 0)
        else:
            X._record("vacuity", "precondition of %s is satisfiable and its end is reached (%d cases, %d paths)" % (
                self.name, n, X.covers["paths"]), True, "z3", 0)

    def actual(self, X, st, p, v):
        if isinstance(v, View):
            return v.struct if v.struct is not None else v.ptr
        return v

    def check_post(self, X, c, pre, rv, e):
        X.func_stack = [self.name]
        X.cur_tu = None
        if c.decl is not None and isinstance(rv, Poly) and X.decide(e, c_eq(rv, c.decl)) is True:
            c = copy.copy(c)
            c.effects, c.sets, c.changed, c.ensured, c.relations, c.retval, c.failable = [], [], {}, [], [], None, False
        failed = c.failable and ("n",) in e.objs.get("$fail", {})
        if failed:
            X.oblige(e, "postcondition", c_lt(rv, 0), "running out of resources is reported")
        want = {}
        for r, rs in pre.mem.items():
            want[r] = rs
        for v, g, val in c.effects:
            rs = want[v.reg]
            want[v.reg] = RState(rs.base, rs.upd + ((g, UNINIT if failed else val),))
        cmp = Comparer(X)
        for r in pre.mem:
            if r not in e.mem:
                continue
            lab = X.regions[r].label
            wr = any(v.reg == r for v, _, _ in c.effects)
            cmp.regions(e, r, e.mem[r], want[r], "postcondition",
                        "final contents of %s equal the specified function of the inputs" % lab if wr
                        else "%s is left unchanged" % lab)
        # objects
        wobj = {}
        for obj, path, v in c.sets:
            wobj[(obj, path)] = v
        for o, d in pre.objs.items():
            d2 = e.objs.get(o)
            if d2 is None or o in ("$stages", "$positive", "$pivoted") or o.startswith("$q."):
                continue
            for p in set(d) | {q for (oo, q) in wobj if oo == o}:
                if p and p[-1] == '$reg':
                    continue
                w = wobj.get((o, p), d.get(p, UNINIT))
                if w is UNINIT or w is UNKNOWN or (o, p) in c.changed or failed and (o, p) in c.failpaths:
                    continue
                g = d2.get(p, UNINIT)
                if g is w or g == w:
                    if (o, p) in wobj:
                        X._record("postcondition", "%s.%s has the specified value" % (o, ".".join(map(str, p))), True, "normaliser", 0)
                    continue
                cmp.values(e, g, w, "postcondition" if (o, p) in wobj else "frame",
                           "%s.%s has the specified value" % (o, ".".join(map(str, p))))
        for (o, p), v in wobj.items():
            if o not in pre.objs:
                g = e.objs.get(o, {}).get(p, UNINIT)
                cmp.values(e, g, v, "postcondition", "%s.%s has the specified value" % (o, ".".join(map(str, p))))
        for (o, p), reg in c.into.items():
            g = e.objs.get(o, {}).get(p, UNINIT)
            X._record("postcondition", "%s points into the buffer" % (o + "." + ".".join(map(str, p))), isinstance(g, DPtr) and g.reg == reg, "normaliser", 0)
        for f, desc in c.ensured:
            X.oblige(e, "postcondition", e.cnorm(f(postof(e, rv))), desc)
        for qv, up in c.reorders:
            if failed:
                continue
            q = quant.Q(X, e)
            b0, b1 = quant.Q(X, pre).bag(qv), q.bag(qv)
            quant.oblige(X, e, "postcondition", None if b0 is None or b1 is None else b0 == b1,
                         "%s holds a rearrangement of its elements" % qv.name, q.rd)
            q = quant.Q(X, e)
            quant.oblige(X, e, "postcondition", q.ordered(qv, up, T.ZERO, qv.n), "%s is ordered" % qv.name, q.rd)
        if c.companions:
            quant.check_together(X, c.companions, e)
        for f, desc in c.quants:
            q = quant.Q(X, e)
            quant.oblige(X, e, "postcondition", f(q, rv), desc, q.rd)
        for args, cond, desc in c.relations:
            vals = list(args)
            tu, fn = X.find_func(self.name)
            pm = tu.perm.get(self.name)
            if pm:
                vals = [vals[pm.index(i)] for i in range(len(vals))]
            X.func_stack = []
            for rv2, e2 in X.run_function(self.name, vals, e.copy()):
                X.oblige(e2, "postcondition", e2.cnorm(cond(rv, rv2)), desc)
            X.func_stack = [self.name]
            X.cur_tu = None
        if c.retval is not None and not failed:
            if isinstance(c.retval, tuple):
                # a condition over the returned value
                X.oblige(e, "postcondition", c.retval[1](rv), "return value satisfies its specification")
            else:
                cmp.values(e, rv, c.retval, "postcondition", "return value equals the specified value")

    def initial(self, X):
        """yields (args, state) for every shape case"""
        st = State()
        st.objs["$held"] = {("buffers",): T.ZERO, ("threads",): T.ZERO}
        cases = [(st, {})]
        for p in self.params:
            nxt = []
            for s, d in cases:
                for v, s2 in self.make_arg(X, s, p, d):
                    d2 = dict(d)
                    d2[p.name] = v
                    nxt.append((s2, d2))
            cases = nxt
        for s, d in cases:
            ini = self.opts.get("init")
            if ini:
                ini(X, s, d)
            yield d, s

    def make_arg(self, X, st, p, d):
        k = p.kind
        if p.kw.get("null"):
            yield NULL, st.copy()
        if k == "real":
            yield T.sym(p.name, 'r'), st
        elif k == "int":
            yield T.sym(p.name), st
        elif k == "nat":
            v = T.sym(p.name)
            s = st.copy()
            s.assume(c_ge(v, 0))
            yield v, s
        elif k in MACHINE:
            v = T.sym(p.name)
            s = st.copy()
            s.assume(c_ge(v, MACHINE[k][0]))
            s.assume(c_le(v, MACHINE[k][1]))
            yield v, s
        elif k == "pos":
            v = T.sym(p.name)
            s = st.copy()
            s.assume(c_ge(v, 1))
            yield v, s
        elif k == "flags":
            yield Flags(p.name), st
        elif k == "null":
            yield NULL, st
        elif k in ("vec", "mat"):
            shapes = []
            n = T.sym(p.name + ".rows")
            m = T.sym(p.name + ".cols")
            if k == "mat":
                shapes = [(n, m)]
            else:
                only = p.kw.get("a")
                if not only or "row" in only:
                    shapes.append((T.ONE, m))
                if not only or "col" in only:
                    shapes.append((n, T.ONE))
            for i, (r, c) in enumerate(shapes):
                s = st.copy()
                v = make_matrix(X, s, p.name, r, c, vecshape=("" if k != "vec" else ".row" if r is T.ONE else ".col"))
                if "pad" in p.kw:
                    reg = X.regions[v.reg]
                    reg.rows = padded(s, r)
                    s.assume(c_le(reg.rows, reg.ld))
                yield v, s
        elif k == "ptr":
            s = st.copy()
            yield self.make_ptr(X, s, p, d), s
        elif k == "scalarptr":
            s = st.copy()
            s.objs[p.name] = {(): T.sym("*" + p.name, 'r')}
            yield OPtr(p.name), s
        elif k == "intptr":
            s = st.copy()
            s.objs[p.name] = {(): T.sym("*" + p.name, 'i')}
            yield OPtr(p.name), s
        elif k == "conf":
            s = st.copy()
            yield NULL, s
            s = st.copy()
            make_conf(X, s, p.name)
            yield OPtr(p.name), s
        elif k == "confnn":
            s = st.copy()
            make_conf(X, s, p.name)
            yield OPtr(p.name), s
        elif k == "func":
            yield FPtr("$fn:" + p.name), st
        elif k == "opaque":
            yield OPtr("$opaque:" + p.name), st
        elif k == "cache":
            from . import protos
            yield from protos.make_cache(X, st, p, d)
        elif k == "view":
            # uninitialised matrix header to be filled in
            s = st.copy()
            s.objs[p.name] = {}
            yield OPtr(p.name), s
        elif k in X.argmakers:
            yield from X.argmakers[k](X, st, p, d)
        else:
            raise Unsupported("parameter kind %s" % k)

    def make_ptr(self, X, s, p, d):
        """raw pointer kernel operand: ptr(rows,cols,ld=name|inc=name)"""
        a = p.kw.get("a", [])
        rows = ev(a[0], d)
        cols = ev(a[1], d) if len(a) > 1 else T.ONE
        ld = p.kw.get("ld")
        inc = p.kw.get("inc")
        rn = "M." + p.name
        if inc:
            ldp = d.get(inc)
            if ldp is None:
                ldp = T.sym(inc)
            X.region(rn, ld=ldp, rows=T.ONE, cols=rows, label=p.name)
            s.assume(c_ge(ldp, 1))
            s.mem[rn] = RState(p.name)
            return View(None, p.name, rn, T.ZERO, T.ZERO, T.ONE, rows, ptr=DPtr(rn, T.ZERO))
        if ld:
            ldp = d.get(ld)
            if ldp is None:
                ldp = T.sym(ld)
            X.region(rn, ld=ldp, rows=rows, cols=cols, label=p.name)
            s.assume(c_ge(ldp, 1))
            s.assume(c_le(rows, ldp))
            s.mem[rn] = RState(p.name)
            return View(None, p.name, rn, T.ZERO, T.ZERO, rows, cols, ptr=DPtr(rn, T.ZERO))
        # flat contiguous
        X.region(rn, ld=None, rows=padded(s, rows) if "pad" in p.kw else rows, cols=T.ONE, label=p.name)
        s.mem[rn] = RState(p.name)
        return View(None, p.name, rn, T.ZERO, T.ZERO, rows, T.ONE, ptr=DPtr(rn, T.ZERO))


def padded(s, rows, name=None):
    """rows rounded up to whole vectors of four (kernels read, and mask out, up
    to three elements past the last one)"""
    q = T.sym("vec4." + (name or T.show(rows))) if name != '' else T.fresh("vec4")
    s.assume(c_le(rows, q * 4))
    s.assume(c_le(q * 4, rows + 3))
    return q * 4


def ev(s, d):
    if isinstance(s, Poly):
        return s
    if s.lstrip("-").isdigit():
        return K(int(s))
    env = dict(d)
    import re
    for nm in re.findall(r"[A-Za-z_]\w*", s):
        if nm not in env:
            env[nm] = T.sym(nm)
    return K(eval(s, {}, env))      # contract text, not program text


def make_matrix(X, st, name, rows, cols, vecshape="", base=None):
    ld = T.sym(name + ".step")
    reg = "M." + name + ("" if not vecshape else vecshape)
    X.region(reg, ld=ld, rows=rows, cols=cols, label=name)
    st.mem[reg] = RState(base or name)
    for c in (c_ge(rows, 0), c_ge(cols, 0), c_ge(ld, 1), c_le(rows, ld)):
        st.assume(c)
    st.objs[name] = {("elems",): DPtr(reg, T.ZERO), ("step",): ld, ("rows",): rows, ("cols",): cols,
                     ("__data",): NULL, ("__nbytes",): T.ZERO}
    return View(None, name, reg, T.ZERO, T.ZERO, rows, cols, struct=OPtr(name))


def view_of_struct(X, st, p, name):
    if not isinstance(p, OPtr):
        raise Unsupported("matrix argument %s is %r" % (name, p))
    g = lambda f: st.objs[p.obj].get(p.path + (f,), UNINIT)
    el, step, rows, cols = g("elems"), g("step"), g("rows"), g("cols")
    if el is UNINIT or rows is UNINIT or cols is UNINIT or rows is UNKNOWN or el is UNKNOWN:
        raise Unsupported("matrix argument %s is not initialised" % name)
    rows, cols = st.norm(rows), st.norm(cols)
    if el is NULL:
        # an empty matrix
        reg = "M.null"
        if reg not in X.regions:
            X.region(reg, ld=T.sym("null.step"), rows=T.ZERO, cols=T.ZERO, label="null")
        if reg not in st.mem:
            st.mem[reg] = RState("null")
        return View(None, name, reg, T.ZERO, T.ZERO, rows, cols, struct=p)
    r0, c0 = X.decode(st, el.reg, el.off)
    dr, dc = X.decode(st, el.reg, step)
    reg = X.regions[el.reg]
    if reg.ld is None:
        # a flat buffer viewed as a matrix
        if dr.is_const() and dr.const() == 0:
            raise Unsupported("zero stride")
        if rows == T.ONE or X.decide(st, c_eq(rows, 1)) is True:
            if dr == T.ONE:
                return View(None, name, el.reg, r0, c0, rows, cols, di=(0, 1), dj=(1, 0), struct=p)
        if cols == T.ONE or X.decide(st, c_eq(cols, 1)) is True:
            return View(None, name, el.reg, r0, c0, rows, cols, struct=p)
        raise Unsupported("flat buffer used as a matrix")
    if not (dr.is_const() and dc.is_const()):
        if cols == T.ONE or X.decide(st, c_eq(cols, 1)) is True:
            return View(None, name, el.reg, r0, c0, rows, T.ONE, struct=p)
        raise Unsupported("stride %s of %s is not a stride of its storage" % (step, name))
    dj = (dr.const(), dc.const())
    return View(None, name, el.reg, r0, c0, rows, cols, dj=dj, struct=p)


def view_of_ptr(X, st, v, p, d):
    a = p.kw.get("a", [])
    rows = ev(a[0], d)
    cols = ev(a[1], d) if len(a) > 1 else T.ONE
    if isinstance(v, OPtr):
        # a scalar object used as a one-element vector
        raise Unsupported("scalar object passed as data pointer %s" % p.name)
    r0, c0 = X.decode(st, v.reg, v.off)
    inc, ld = p.kw.get("inc"), p.kw.get("ld")
    if inc:
        dr, dc = X.decode(st, v.reg, d[inc])
        if not (dr.is_const() and dc.is_const()):
            raise Unsupported("increment %s" % d[inc])
        return View(None, p.name, v.reg, r0, c0, T.ONE, rows, dj=(dr.const(), dc.const()), ptr=v)
    if ld:
        dr, dc = X.decode(st, v.reg, d[ld])
        if not (dr.is_const() and dc.is_const()):
            raise Unsupported("leading dimension %s" % d[ld])
        return View(None, p.name, v.reg, r0, c0, rows, cols, dj=(dr.const(), dc.const()), ptr=v)
    return View(None, p.name, v.reg, r0, c0, rows, T.ONE, ptr=v)


REGISTRY = {}
import os
VERBOSE = bool(os.environ.get("VC_TRACE"))


def _where(ex):
    f = traceback.extract_tb(ex.__traceback__)[-1]
    return "%s:%d in %s" % (os.path.basename(f.filename), f.lineno, f.name)



def contract(name, src, params, prop=None, **kw):
    if name.startswith(":"):
        name = src + name

    def w(f):
        assert name not in REGISTRY, name
        REGISTRY[name] = Contract(name, src, params, f, prop, **kw)
        return f
    return w


def proto_conf_default(X, st, vals, e):
    if "gconf" not in st.objs:
        make_conf(X, st, "gconf")
    yield OPtr("gconf"), st


def verify_one(name, contracts, tus, deadline=None, exclude=(), part=None):
    """returns an Executor with its obligations; never raises"""
    ct = contracts[name]
    T.reset_fresh()
    X = Executor([], {k: v for k, v in contracts.items() if k not in exclude})
    X.part = part
    err = None
    t0 = time.time()
    for k, o in contracts.items():
        # accessors keep their bodies at calls
        if o.opts.get("leaf") and k != name:
            X.contracts.pop(k, None)
    X.argmakers = ct.opts.get("argmakers", {})
    X.deadline = (t0 + deadline) if deadline else None
    try:
        from . import frontend as F
        X.tus = [F.load(ct.src)] + [F.load(t) for t in ct.extra_tus]
        for k in ct.opts.get("inline", ()):
            X.contracts.pop(k, None)
        X.noproto = ct.opts.get("noproto", ())
        X.machine = bool(ct.opts.get("machine"))
        X.trackfree = bool(ct.opts.get("trackfree"))
        X.nofail = bool(ct.opts.get("nofail"))
        inv = ct.opts.get("invariants")
        if inv:
            X.invariants = inv
        ct.verify(X)
        if ct.opts.get("lemma") and (not part or part[0] == 0):
            ct.opts["lemma"](X)
    except (Unsupported, NeedInvariant, Budget, S.NullDeref, RecursionError) as ex:
        err = "%s: %s" % (type(ex).__name__, ex)
    except Exception as ex:     # noqa
        err = "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:] if VERBOSE else _where(ex))
    X.error = err
    X.wall = time.time() - t0
    return X


from . import protos      # noqa: E402,F401  (registers the buffer stand-ins)
