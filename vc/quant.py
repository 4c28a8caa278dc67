"""Loops and contracts told with quantifiers: which element is the largest, that
a range is ordered, that the content is a rearrangement of what it was.

A loop of this kind is summarised in the classical way: every variable it
changes holds anything, the ranges it writes hold anything, and a set of
invariants is assumed; the body is executed once and the invariants must hold
again. The invariants are the largest inductive subset of a family of formulas
over the variables of the loop, whatever these are called.

Facts about the content of memory are first-order formulas over the read
functions of the executor, kept with the path ("$q.facts").  That a vector is a
rearrangement is proved by counting: for an arbitrary value t the number of
elements equal to t does not change ("$q.bag")."""
import time
import z3
from . import term as T
from .term import *
from . import symex as S
from .symex import DPtr, OPtr, UNINIT, UNKNOWN, RState, R_, C_, Ra, Ca, Unsupported, NeedInvariant
from . import solver as Z

TIMEOUT = 3000
DEBUG = False
TAG = z3.Real("bag!t")


def add_fact(s, f, where=False):
    """where: the fact says where things went; only what is told in the same
    terms needs it"""
    d = dict(s.objs.get("$q.facts", {}))
    d[("f", len(d), where)] = f
    s.objs["$q.facts"] = d


def facts(s, where=True):
    return [f for k, f in s.objs.get("$q.facts", {}).items() if where or not k[2]]


class Reader:
    """content of memory at indices that need not be decided"""

    def __init__(self, X):
        self.X = X
        self.n = 0
        self.axioms = {}
        self.extra = ()

    def anything(self, sort):
        nm = T.show(T.fresh("q.any"))
        return z3.Real(nm) if sort == 'r' else z3.Int(nm)

    def note(self, p):
        for a in Z.cond_atoms(c_req(p, 0)):
            if not isinstance(a, tuple):
                Z.zatom(a)
                for x in Z._axioms.get(a, ()):
                    self.axioms[x.get_id()] = x

    def notec(self, c):
        for a in Z.cond_atoms(c):
            if not isinstance(a, tuple):
                Z.zatom(a)
                if a in Z._axioms and not any(b.kind == 'sym' and b.args[0].startswith("q!") for b in T.atom_free(a)):
                    for x in Z._axioms[a]:
                        self.axioms[x.get_id()] = x

    def at(self, st, reg, row, col, rs=None):
        rs = rs or st.mem[reg]
        return self._at(st, rs, len(rs.upd), row, col, self.X.regions[reg].sort)

    def _at(self, st, rs, n, row, col, sort):
        out = []
        while n > 0:
            g, val = rs.upd[n - 1]
            c = st.cnorm(T.csubst(g, {Ra: row, Ca: col}))
            if self.extra and c is not True and c is not False:
                # bound indices range over the operand
                if Z.entails(self.extra, c):
                    c = True
                elif not Z.feasible(self.extra, c):
                    c = False
            if c is False:
                n -= 1
                continue
            self.notec(c)
            v = self._val(st, rs, n - 1, val, row, col, sort)
            if c is True:
                return self._chain(out, v)
            out.append((Z.zcond(c), v))
            n -= 1
        v = self.anything(sort) if rs.base is None else Z.zpoly(T.rd(rs.base, row, col, sort), sort)
        return self._chain(out, v)

    def _chain(self, out, v):
        for c, w in reversed(out):
            v = z3.If(c, w, v)
        return v

    def _val(self, st, rs, n, val, row, col, sort):
        if val is UNINIT or not isinstance(val, Poly):
            return self.anything(sort)
        v = T.subst(val, {Ra: row, Ca: col})
        self.note(v)
        z = Z.zpoly(v, sort)
        mp = []
        for a in T.free_atoms(v):
            if a.kind != 'rd':
                continue
            if a.args[0] == '$old':
                mp.append((Z.zatom(a), self._at(st, rs, n, a.args[1], a.args[2], sort)))
            elif a.args[0] in st.snaps:
                r2, s2 = st.snaps[a.args[0]]
                mp.append((Z.zatom(a), self._at(st, r2, len(r2.upd), a.args[1], a.args[2], s2)))
        return z3.substitute(z, *mp) if mp else z


class QView:
    """a tracked vector (or the rows or columns of a matrix) of the contract"""

    def __init__(self, v, key=None, name=None):
        self.reg, self.r0, self.c0, self.rows, self.cols = v.reg, v.r0, v.c0, v.rows, v.cols
        self.name = name or v.name
        self.guard = v.guard()
        self.isvec = v.c.decide_quiet(c_or(c_eq(v.rows, 1), c_eq(v.cols, 1)))
        self.isrow = v.isrow() if self.isvec else False
        self.n = (v.cols if self.isrow else v.rows) if self.isvec else None
        self.key = key

    def cell(self, i):
        return (self.r0, self.c0 + i) if self.isrow else (self.r0 + i, self.c0)

    def first(self):
        return self.c0 if self.isrow else self.r0

    def K(self, z):
        return z if self.key is None else z3.If(z >= 0, z, -z)


class Q:
    """formulas about one state"""

    def __init__(self, X, s, rd=None):
        self.X, self.s = X, s
        self.rd = rd or Reader(X)

    def x(self, v, i, rs=None):
        i = K(i)
        return self.rd.at(self.s, v.reg, *v.cell(i), rs=rs)

    def key(self, v, i):
        return v.K(self.x(v, i))

    def real(self, p):
        self.rd.note(p)
        return Z.zreal(p)

    def var(self, v):
        """a bound index: counted from the first element of v, named by its
        place in the region so that instances are found by reads"""
        self.rd.n += 1
        p = T.sym("q!%d" % self.rd.n)
        return p - v.first(), Z.zint(p)

    def all1(self, v, lo, hi, f, but=None):
        i, zi = self.var(v)
        g = [Z.zcond(c_le(lo, i)), Z.zcond(c_lt(i, hi)), Z.zcond(c_ge(i, 0)), Z.zcond(c_lt(i, v.n))]
        if but is not None:
            g.append(z3.Not(Z.zcond(c_eq(i, but))))
        return self.bind(v, [i], g, lambda: f(i))

    def bind(self, v, idx, g, f):
        sv = self.rd.extra
        self.rd.extra = sv + tuple(self.s.cnorm(c) for i in idx for c in (c_ge(i, 0), c_lt(i, v.n)))
        try:
            body = f()
        finally:
            self.rd.extra = sv
        return z3.ForAll([Z.zint(i + v.first()) for i in idx], z3.Implies(z3.And(g), body))

    def all2(self, v, lo, hi, f, but=None, mid=None):
        """f(i, j) for all lo <= i < j < hi (and i < mid)"""
        i, zi = self.var(v)
        j, zj = self.var(v)
        g = [Z.zcond(c_le(lo, i)), Z.zcond(c_lt(i, j)), Z.zcond(c_lt(j, hi)), Z.zcond(c_ge(i, 0)), Z.zcond(c_lt(j, v.n))]
        if mid is not None:
            g.append(Z.zcond(c_lt(i, mid)))
        if but is not None:
            g += [z3.Not(Z.zcond(c_eq(i, but))), z3.Not(Z.zcond(c_eq(j, but)))]
        return self.bind(v, [i, j], g, lambda: f(i, j))

    def ordered(self, v, up, lo, hi, but=None, mid=None):
        return self.all2(v, lo, hi, lambda i, j: le(self.key(v, i), self.key(v, j), up), but, mid)

    # ---- counting
    def bag(self, v):
        """how many elements of v have the key TAG, or None"""
        ent = self.s.objs.get("$q.bag", {}).get((v.name,))
        if ent is None:
            return None
        rs0, cnt = ent
        rs = self.s.mem[v.reg]
        if rs.base != rs0.base:
            return None
        m = 0
        while m < min(len(rs.upd), len(rs0.upd)) and (rs.upd[m] is rs0.upd[m] or rs.upd[m] == rs0.upd[m]):
            m += 1
        a = self._moved(v, rs0, m)
        b = self._moved(v, rs, m)
        if a is None or b is None:
            return None
        return cnt - a + b

    def is_tag(self, v, z):
        return z3.If(z == TAG, z3.IntVal(1), z3.IntVal(0))

    def _moved(self, v, rs, m):
        """what the updates from the m-th on add to the count"""
        tot = z3.IntVal(0)
        for k in range(m, len(rs.upd)):
            g, val = rs.upd[k]
            if isinstance(val, Poly) and len(val.atoms()) == 1:
                a = list(val.atoms())[0]
                if a.kind == 'rd' and a.args[0] in self.X.rearranged and val == A(a):
                    # a rearrangement of a part of v
                    r, c = T.sym("q!r"), T.sym("q!c")
                    goal = z3.Implies(Z.zcond(self.s.cnorm(T.csubst(g, {Ra: r, Ca: c}))),
                                      Z.zcond(self.s.cnorm(T.csubst(v.guard, {Ra: r, Ca: c}))))
                    if prove(self.s, goal, self.rd):
                        continue
                    return None
            pt = point(g)
            if pt is None:
                return None
            row, col = pt
            c = self.s.cnorm(T.csubst(v.guard, {Ra: row, Ca: col}))
            if c is not True and not Z.entails(self.s.pc, c) and not prove(self.s, Z.zcond(c), self.rd):
                return None
            sort = self.X.regions[v.reg].sort
            new = self.rd._val(self.s, rs, k, val, row, col, sort)
            old = self.rd._at(self.s, rs, k, row, col, sort)
            tot = tot + self.is_tag(v, new) - self.is_tag(v, old)
        return tot

    def touched(self, v, rs0):
        """indices of v written since rs0, or None"""
        rs = self.s.mem[v.reg]
        if rs.base != rs0.base or rs.upd[:len(rs0.upd)] != rs0.upd:
            return None
        out = []
        for g, val in rs.upd[len(rs0.upd):]:
            pt = point(g)
            if pt is None:
                return None
            i = (pt[1] - v.c0) if v.isrow else (pt[0] - v.r0)
            if i not in out:
                out.append(i)
        return out


def le(a, b, up):
    return a <= b if up else a >= b


def point(g):
    """the cell (row, col) of a guard that names one"""
    parts = list(g[1:]) if isinstance(g, tuple) and g[0] == 'and' else [g]
    row = col = None
    for c in parts:
        if not isinstance(c, tuple) or c[0] != 'eq':
            return None
        for at in (Ra, Ca):
            if at in T.free_atoms(c[1]):
                q, m = T.lin_coef_poly(c[1], at)
                if q is None or not q.is_const() or q.const() not in (1, -1) or Ra in T.free_atoms(m) or Ca in T.free_atoms(m):
                    return None
                val = -m if q.const() == 1 else m
                if at is Ra:
                    row = val
                else:
                    col = val
    return None if row is None or col is None else (row, col)


def solver_for(s, rd=None, timeout=TIMEOUT, where=False):
    z = z3.SimpleSolver()
    z.set("timeout", timeout)
    z.set("mbqi", False)
    seen = set()
    for c in s.pc:
        z.add(Z.zcond(c))
        for a in Z.cond_atoms(c):
            if isinstance(a, tuple) or a in seen:
                continue
            seen.add(a)
            Z.zatom(a)
            z.add(*Z._axioms.get(a, ()))
    for f in facts(s, where):
        z.add(f)
    if rd is not None:
        for x in rd.axioms.values():
            z.add(x)
    return z


def prove(s, goal, rd=None, z=None, where=False):
    t0 = time.time()
    z = z or solver_for(s, rd, where=where)
    z.push()
    if rd is not None:
        for x in rd.axioms.values():
            z.add(x)
    z.add(z3.Not(goal))
    r = z.check()
    z.pop()
    Z.STATS["queries"] += 1
    Z.STATS["time"] += time.time() - t0
    return r == z3.unsat


def oblige(X, s, kind, goal, desc, rd=None, where=False):
    if X.dry:
        return True
    t0 = time.time()
    ok = goal is not None and prove(s, goal, rd, where=where)
    X._record(kind, desc, ok, "z3", time.time() - t0,
              None if ok else "goal: %s\npath: %s" % (str(goal)[:1500], " & ".join(T.cshow(c) for c in s.pc)[:3000]))
    return ok


def track(X, c, qvs):
    """declare the vectors of a contract being verified"""
    X.qviews = list(qvs)
    d = dict(c._st.objs.get("$q.bag", {}))
    for v in qvs:
        if v.isvec:
            d[(v.name,)] = (c._st.mem[v.reg], z3.Int("bag!%s" % v.name))
    c._st.objs["$q.bag"] = d


def rearrange(X, s, v, up, key, keep=None):
    """the caller's side: v holds a rearrangement of what it held, ordered"""
    h = X.newid("sorted")
    X.rearranged.add(h)
    q = Q(X, s)
    old = s.mem[v.reg]
    pi = z3.Function("pi_" + h, z3.IntSort(), z3.IntSort())
    i, zi = q.var(v)
    inr = z3.And(Z.zcond(c_ge(i, 0)), Z.zcond(c_lt(i, v.n)))
    rp = z3.Function("rd_" + h, z3.IntSort(), z3.IntSort(), z3.RealSort())
    new = Z.zpoly(T.rd(h, *v.cell(i)), 'r')
    j = T.sym("q!pi")
    src = z3.substitute(q.rd.at(s, v.reg, *v.cell(j - v.first()), rs=old), (Z.zint(j), pi(zi)))
    lo, hi = Z.zint(v.first()), Z.zint(v.first() + v.n)
    add_fact(s, z3.ForAll([zi], z3.Implies(inr, z3.And(new == src, lo <= pi(zi), pi(zi) < hi)), patterns=[new]))
    X._add_update(s, v.reg, v.guard, T.rd(h, R_, C_))
    q = Q(X, s)
    if up is not None:
        add_fact(s, q_ordered_base(q, v, h, up))
    for x in q.rd.axioms.values():
        add_fact(s, x)


def q_ordered_base(q, v, h, up):
    return q.all2(v, T.ZERO, v.n, lambda i, j: le(
        v.K(Z.zpoly(T.rd(h, *v.cell(i)), 'r')), v.K(Z.zpoly(T.rd(h, *v.cell(j)), 'r')), up))


# ------------------------------------------------------------------ invariants
class Pool:
    """the variables a loop can be told with"""

    def __init__(self, X, st, H, delta, sorts):
        self.ints, self.reals = [], []
        seen = set()
        scope = set(st.env.values())
        keys = [(o, ()) for o in st.objs if o in scope]
        for k in keys:
            v = st.objs[k[0]].get(())
            if not isinstance(v, Poly):
                continue
            ch = k in H
            if sorts.get(k) == 'r' or Z.poly_sort(v) == 'r':
                self.reals.append((k[0].split("#")[0], k, ch))
            else:
                v = st.norm(v)
                if not ch:
                    if v in seen or v.is_const() and v.const() == 0:
                        continue
                    seen.add(v)
                self.ints.append((k[0].split("#")[0], k, ch))

    def get(self, k):
        return lambda s: s.objs[k[0]].get(k[1])


def family(sorts=(), best=False, sigma=False):
    """candidate invariants. sorts: views are being ordered"""
    def gen(X, st, pool, it, entry):
        out = []
        I = [("0", lambda s: T.ZERO, False)]
        have = {T.ZERO}
        for nm, k, ch in pool.ints:
            I.append((nm, pool.get(k), ch))
            if not ch:
                have.add(st.norm(st.objs[k[0]][k[1]]))
        for v in X.qviews:
            if v.isvec and st.norm(v.n) not in have and not v.n.is_const():
                have.add(st.norm(v.n))
                I.append(("size", lambda s, v=v: v.n, False))
        Rl = [(nm, pool.get(k)) for nm, k, ch in pool.reals]

        def num(f, s):
            p = f(s)
            return p if isinstance(p, Poly) else None

        def cand(desc, need, f):
            def g(q):
                vals = [num(x, q.s) for x in need]
                if any(x is None for x in vals):
                    return None
                return f(q, *vals)
            out.append((desc, g))
        for a, fa, ca in I:
            for b, fb, cb in I:
                if a == b or not (ca or cb):
                    continue
                for d in (-1, 0, 1):
                    cand("%s%+d <= %s" % (a, d, b), (fa, fb), lambda q, x, y, d=d: c_le(x + d, y))
        J = []
        full = {(nm, "n") for nm, k, ch in pool.ints if not ch for v in X.qviews if v.isvec and st.norm(v.n) == st.norm(st.objs[k[0]][k[1]])}
        for a, fa, ca in I:
            J.append((a, fa))
            if a != "0":
                J.append((a + "+1", lambda s, fa=fa: (lambda p: p + 1 if isinstance(p, Poly) else None)(fa(s))))
            else:
                J.append(("1", lambda s: T.ONE))
        for v in X.qviews:
            if not v.isvec or not getattr(v, "ordering", None):
                continue
            for up in v.ordering:
                o = "up" if up else "down"
                if v.sorting:
                    for b, fb in J:
                        cand("%s ordered %s to %s" % (v.name, o, b), (fb,), lambda q, y, v=v, up=up: q.ordered(v, up, T.ZERO, y))
                        cand("%s ordered %s to %s, against the rest" % (v.name, o, b), (fb,),
                             lambda q, y, v=v, up=up: q.ordered(v, up, T.ZERO, v.n, mid=y))
                        for h, fh, ch in I[1:]:
                            cand("%s ordered %s to %s but for %s" % (v.name, o, b, h), (fb, fh),
                                 lambda q, y, x, v=v, up=up: q.ordered(v, up, T.ZERO, y, but=x))
                for r, fr in Rl:
                    for a, fa in J:
                        for b, fb in J:
                            if a in (b, b + "+1") or b == "0" or a in ("size", "size+1") or b == "size+1" or (a.split("+")[0], "n") in full:
                                continue
                            for less in (True, False):
                                cand("elements %s to %s of %s are %s %s" % (a, b, v.name, "below" if less else "above", r), (fa, fb, fr),
                                     lambda q, x, y, z, v=v, less=less: q.all1(
                                         v, x, y, lambda i: le(q.key(v, i), v.K(q.real(z)), less)))
                                if not v.sorting and a == "0":
                                    cand("elements %s to %s of %s are strictly %s %s" % (a, b, v.name, "below" if less else "above", r), (fa, fb, fr),
                                         lambda q, x, y, z, v=v, less=less: q.all1(
                                             v, x, y, lambda i: (q.key(v, i) < q.real(z)) if less else (q.key(v, i) > q.real(z))))
            for r, fr in Rl:
                for a, fa, ca in I:
                    cand("%s is element %s of %s" % (r, a, v.name), (fa, fr), lambda q, x, z, v=v: q.real(z) == q.x(v, x))
                    if v.key is not None:
                        cand("%s is the size of the element %s of %s" % (r, a, v.name), (fa, fr), lambda q, x, z, v=v: q.real(z) == q.key(v, x))
                        cand("%s is the size of element %s of %s" % (r, a, v.name), (fa, fr), lambda q, x, z, v=v: z3.Or(Z.zcond(c_le(it(q.s), 0)), q.real(z) == q.key(v, x)))
            if v.sorting:
                def kept(q, v=v):
                    e = entry.get(v.name)
                    b = q.bag(v)
                    return None if e is None or b is None else b == e
                cand("%s is a rearrangement" % v.name, (), kept)
                for r, fr in Rl:
                    for a, fa, ca in I:
                        if not ca:
                            continue

                        def kept1(q, x, z, v=v):
                            e = entry.get(v.name)
                            b = q.bag(v)
                            if e is None or b is None:
                                return None
                            return z3.And(Z.zcond(c_and(c_ge(x, 0), c_lt(x, v.n))), b - q.is_tag(v, q.x(v, x)) + q.is_tag(v, q.real(z)) == e)
                        cand("%s is a rearrangement with %s at %s" % (v.name, r, a), (fa, fr), kept1)
        return out
    return gen


def handler(gen):
    def h(X, n, st, cnd, body, inc, is_do):
        if not getattr(X, "qviews", None):
            return None
        from .loops import Loop
        return run(X, Loop(X, n, cnd, body, inc, is_do), st, gen)
    return h


def run(X, lp, st, gen):
    st = st.copy()
    X.tick()
    mark = T.fresh("mark").t[0][0][0][0].id
    X.qcheap += 1
    try:
        H, RH, hs, bases, ends, start = lp.learn(st)
    finally:
        X.qcheap -= 1
    if X.qcheap:
        # only what changes matters here
        s, _, _ = lp.havoc(st, H, RH)
        for o in list(s.objs):
            if o.startswith("slots."):
                s.objs[o] = {}
        for kind, o, e in lp.iterate(s):
            if kind == 'exit':
                yield None, e
            elif kind == 'out':
                yield o, e
        return
    delta = {}
    for key in H:
        obj, path = key
        f = hs.get(key)
        v0 = st.objs[obj].get(path)
        if not isinstance(f, Poly) or not isinstance(v0, (Poly, DPtr)) or isinstance(v0, Poly) and Z.poly_sort(v0) == 'r':
            continue
        d = None
        for e in ends:
            a, b = start.objs[obj].get(path), e.objs.get(obj, {}).get(path)
            if isinstance(a, DPtr) and isinstance(b, DPtr) and a.reg == b.reg:
                a, b = a.off, b.off
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                d = None
                break
            dd = e.norm(b - a)
            if any(x.id > mark for x in T.free_atoms(dd)) or d is not None and dd != d:
                d = None
                break
            d = dd
        if d is not None:
            delta[key] = d
    by_reg = {}
    for v in X.qviews:
        by_reg.setdefault(v.reg, []).append(v)
    for r in RH:
        if r not in by_reg:
            lp.fail("it writes memory the contract does not speak of (%s)" % X.regions[r].label)
    itn = T.fresh("it")
    rd = Reader(X)
    q0 = Q(X, st, rd)
    entry = {v.name: q0.bag(v) for v in X.qviews if v.isvec}
    pool = Pool(X, st, H, delta, lp.sorts)
    cands = gen(X, st, pool, lambda s: s.objs["$q.it"][(lp.line,)], entry)

    def with_it(s, p):
        s.objs["$q.it"] = dict(s.objs.get("$q.it", {}))
        s.objs["$q.it"][(lp.line,)] = p

    def check(s, cs, rd):
        z = None
        out = []
        q = Q(X, s, rd)
        for d, g in cs:
            X.tick()
            f = g(q)
            if f is None:
                continue
            if isinstance(f, bool) or isinstance(f, tuple):
                if X.decide(s, f) is True:
                    out.append((d, g))
                    continue
                if z is None:
                    z = solver_for(s, rd, 1500)
                if f is not False and prove(s, Z.zcond(s.cnorm(f)), rd, z):
                    out.append((d, g))
                continue
            if z is None:
                z = solver_for(s, rd, 1500)
            if prove(s, f, rd, z):
                out.append((d, g))
        return out
    s0 = st.copy()
    with_it(s0, T.ZERO)
    live = check(s0, cands, rd)
    moves = [m for m in ("sigma",) if any(getattr(v, "pairs", False) for v in X.qviews)]

    if moves:
        for v in X.qviews:
            r2 = Reader(X)
            oblige(X, st, "invariant", paired(X, st, X.qstart, v, sigma_of(st), r2, X.qn),
                   "before the loop near line %s the parts of %s are where their keys are" % (lp.line, v.name), r2, True)
        oblige(X, st, "invariant", bijective(X, sigma_of(st), X.qn, Reader(X)), "before the loop near line %s positions are one for one" % lp.line, None, True)

    def head(cs):
        s = st.copy()
        for key in H:
            obj, path = key
            v0 = st.objs[obj].get(path)
            if key in delta:
                s.oset(obj, path, DPtr(v0.reg, v0.off + delta[key] * itn) if isinstance(v0, DPtr) else v0 + delta[key] * itn)
            elif isinstance(v0, Poly):
                s.oset(obj, path, T.fresh("h." + obj.split("#")[0], lp.sorts.get(key, Z.poly_sort(v0))))
            else:
                s.oset(obj, path, UNKNOWN)
        for o in list(s.objs):
            if o.startswith("slots."):
                s.objs[o] = {}
        s.assume(c_ge(itn, 0))
        with_it(s, itn)
        bag = dict(s.objs.get("$q.bag", {}))
        for r in RH:
            b = X.newid("hm")
            for v in by_reg[r]:
                X._add_update(s, r, v.guard, T.rd(b, R_, C_, X.regions[r].sort))
        for r in RH:
            for v in by_reg[r]:
                if v.isvec:
                    bag[(v.name,)] = (s.mem[r], Z.zint(T.fresh("bag")))
        s.objs["$q.bag"] = bag
        if moves:
            move_head(X, st, s, RH)
        r2 = Reader(X)
        q = Q(X, s, r2)
        for d, g in cs:
            f = g(q)
            if f is None:
                continue
            if isinstance(f, (bool, tuple)):
                s.assume(s.cnorm(f))
            else:
                add_fact(s, f)
        for x in r2.axioms.values():
            add_fact(s, x)
        return s

    def once(s):
        a = s.copy()
        nx, other = [], []
        for kind, o, e in lp.iterate(a):
            if kind == 'next':
                with_it(e, itn + 1)
                nx.append(e)
            else:
                other.append((kind, o, e))
        return nx, other
    for rnd in range(40):
        s = head(live)
        X.dry += 1
        try:
            nx, _ = once(s)
            keep = live
            for e in nx:
                if Z.check_sat(list(e.pc))[0] == 'unsat':
                    continue
                keep = check(e, keep, Reader(X))
        finally:
            X.dry -= 1
        if DEBUG:
            print("  [quant] line", lp.line, "round", rnd, len(live), "->", len(keep), "lost:", [d for d, g in live if (d, g) not in keep and ('order' in d or 'rearr' in d)])
        if len(keep) == len(live):
            if DEBUG == 2:
                print('     live', [d for d, g in live])
            break
        live = keep
    else:
        lp.fail("the invariants do not settle")
    s = head(live)
    nx, other = once(s)
    if not X.dry:
        for d, g in live:
            X._record("invariant", "loop near line %s: %s" % (lp.line, d), True, "z3", 0)
        for e in nx:
            for key, d in delta.items():
                v0, v1 = st.objs[key[0]].get(key[1]), e.objs[key[0]].get(key[1])
                if isinstance(v0, DPtr):
                    ok = isinstance(v1, DPtr) and v1.reg == v0.reg
                    X.oblige(e, "loop", c_eq(v1.off, v0.off + d * (itn + 1)) if ok else False, "%s advances evenly" % key[0].split("#")[0])
                else:
                    X.oblige(e, "loop", c_eq(v1, v0 + d * (itn + 1)) if isinstance(v1, Poly) else False, "%s advances evenly" % key[0].split("#")[0])
            for r in RH:
                # nothing outside the tracked range is written
                a, b = T.sym("q!r"), T.sym("q!c")
                rr = Reader(X)
                ins = z3.Or([Z.zcond(e.cnorm(T.csubst(v.guard, {Ra: a, Ca: b}))) for v in by_reg[r]])
                oblige(X, e, "frame", z3.Or(ins, rr.at(e, r, a, b) == rr.at(st, r, a, b)),
                       "the loop near line %s writes %s only inside the operand" % (lp.line, X.regions[r].label), rr)
            if moves:
                move_check(X, st, s, e, RH, lp)
        terminates(X, lp, pool, s, nx)
        for r in st.mem:
            if r not in RH:
                for kind, o, e in [('next', None, e) for e in nx]:
                    if e.mem.get(r) is not st.mem[r] and (e.mem[r].base != st.mem[r].base or e.mem[r].upd != st.mem[r].upd):
                        X._record("loop", "the loop near line %s leaves %s alone" % (lp.line, X.regions[r].label), False, "normaliser", 0)
        for e in nx:
            # only the variables accounted for change
            for obj, d0 in s.objs.items():
                d1 = e.objs.get(obj)
                if d1 is d0 or d1 is None or obj.startswith("slots.") or obj.startswith("$q."):
                    continue
                for p in set(d0) | set(d1):
                    if (obj, p) in H or isinstance(p, tuple) and p and p[-1] == '$reg':
                        continue
                    a, b = d0.get(p, UNINIT), d1.get(p, UNINIT)
                    from .loops import same
                    if not same(a, b, e):
                        X._record("loop", "the loop near line %s leaves %s alone" % (lp.line, obj), False, "normaliser", 0)
    for kind, o, e in other:
        yield (None if kind == 'exit' else o), e


def terminates(X, lp, pool, s, nx):
    """an integer expression that falls with every iteration and is bounded"""
    t0 = time.time()
    ints = [(nm, pool.get(k)) for nm, k, ch in pool.ints] + [("0", lambda s: T.ZERO)]
    ints += [("size", lambda s, v=v: v.n) for v in X.qviews if v.isvec]
    nx = [e for e in nx if Z.check_sat(list(e.pc))[0] != 'unsat']
    zs = {}
    for a, fa in ints:
        for b, fb in ints:
            x, y = fa(s), fb(s)
            if a == b or not isinstance(x, Poly) or not isinstance(y, Poly):
                continue
            ok = True
            for e in nx:
                x2, y2 = fa(e), fb(e)
                if not isinstance(x2, Poly) or not isinstance(y2, Poly):
                    ok = False
                    break
                goal = c_and(c_lt(x2 - y2, x - y), c_ge(x - y, -1))
                if X.decide(e, goal) is True:
                    continue
                if id(e) not in zs:
                    zs[id(e)] = solver_for(e, None, 1000)
                if goal is False or not prove(e, Z.zcond(e.cnorm(goal)), None, zs[id(e)]):
                    ok = False
                    break
            if ok:
                X._record("termination", "%s - %s falls in the loop near line %s" % (a, b, lp.line), True, "z3", time.time() - t0)
                return
    X._record("termination", "the loop near line %s ends" % lp.line, False, "z3", time.time() - t0)


# ------------------------------------------------------------------ companions
# Vectors and matrices that are rearranged together: at every moment there is a
# one to one map sigma of positions such that position i of each of them holds
# what position sigma(i) held at the start.
def sigma_of(s):
    return s.objs.get("$q.sigma", {}).get(("f",), lambda z: z)


def slot(v, i, r):
    """cell of companion v at position i, r counting along it"""
    if v.pairs == "elem":
        return v.cell(i)
    if v.pairs == "col":
        return v.r0 + r, v.c0 + i
    return v.r0 + i, v.c0 + r


def extent(v):
    return None if v.pairs == "elem" else v.rows if v.pairs == "col" else v.cols


def paired(X, s, st0, v, sg, rd, n):
    """v(i) in s equals v(sigma(i)) in st0 for all positions"""
    rd.n += 2
    i, r = T.sym("q!%d" % (rd.n - 1)), T.sym("q!%d" % rd.n)
    zi, zr = Z.zint(i), Z.zint(r)
    rd.extra = (c_ge(i, 0), c_lt(i, n)) + ((c_ge(r, 0), c_lt(r, extent(v))) if extent(v) is not None else ())
    now = rd.at(s, v.reg, *slot(v, i, r))
    rd.extra = ()
    j = T.sym("q!src")
    was = z3.substitute(rd.at(st0, v.reg, *slot(v, j, r)), (Z.zint(j), sg(zi)))
    g = [zi >= 0, zi < Z.zint(n)]
    if extent(v) is None:
        return z3.ForAll([zi], z3.Implies(z3.And(g), now == was))
    g += [zr >= 0, zr < Z.zint(extent(v))]
    return z3.ForAll([zi, zr], z3.Implies(z3.And(g), now == was))


def bijective(X, sg, n, rd):
    rd.n += 2
    a, b = z3.Int("q!%d" % (rd.n - 1)), z3.Int("q!%d" % rd.n)
    N = Z.zint(n)
    ra = z3.And(a >= 0, a < N)
    return z3.And(z3.ForAll([a], z3.Implies(ra, z3.And(sg(a) >= 0, sg(a) < N))),
                  z3.ForAll([a, b], z3.Implies(z3.And(ra, b >= 0, b < N, a != b), sg(a) != sg(b))))


def move_head(X, st, s, RH):
    f = z3.Function("sigma_" + X.newid("s"), z3.IntSort(), z3.IntSort())
    s.objs["$q.sigma"] = {("f",): lambda z: f(z)}
    rd = Reader(X)
    n = X.qn
    st0 = X.qstart
    for v in X.qviews:
        if v.pairs:
            add_fact(s, paired(X, s, st0, v, lambda z: f(z), rd, n), True)
    add_fact(s, bijective(X, f, n, rd), True)
    for x in rd.axioms.values():
        add_fact(s, x)


def moved_sigma(X, s, e):
    """the map after the writes of one iteration: the positions written in the
    keys change places"""
    key = next(v for v in X.qviews if v.pairs == "elem" and v.ordering)
    q = Q(X, e)
    pts = q.touched(key, s.mem[key.reg])
    sg = sigma_of(s)
    if pts is None:
        return None
    if not pts:
        return sg
    if len(pts) != 2:
        return None
    a, b = Z.zint(pts[0]), Z.zint(pts[1])
    return lambda z: z3.If(z == a, sg(b), z3.If(z == b, sg(a), sg(z)))


def move_check(X, st, s, e, RH, lp):
    sg = moved_sigma(X, s, e)
    for v in X.qviews:
        if v.pairs:
            rd = Reader(X)
            oblige(X, e, "invariant", paired(X, e, X.qstart, v, sg, rd, X.qn) if sg else None,
                   "loop near line %s: the parts of %s move with their keys" % (lp.line, v.name), rd, True)
    rd = Reader(X)
    oblige(X, e, "invariant", bijective(X, sg, X.qn, rd) if sg else None,
           "loop near line %s: the positions are exchanged one for one" % lp.line, rd, True)


def check_together(X, comp, e):
    qk, up, qs = comp
    q = Q(X, e)
    oblige(X, e, "postcondition", q.ordered(qk, up, T.ZERO, qk.n), "%s is ordered" % qk.name, q.rd)
    sg = sigma_of(e)
    for v in qs:
        rd = Reader(X)
        oblige(X, e, "postcondition", paired(X, e, X.qstart, v, sg, rd, X.qn),
               "the parts of %s are where their keys went" % v.name, rd, True)
    rd = Reader(X)
    oblige(X, e, "postcondition", bijective(X, sg, X.qn, rd), "%s holds a rearrangement of its elements" % qk.name, rd, True)
