"""Loops whose summary is declared with the contract: after k iterations the
memory is what it was with the declared effect of the first k, everything else
that changes counts iterations or holds anything.  The declaration is an
invariant: it is assumed at an arbitrary iteration and must hold for the next."""
from . import term as T
from .term import *
from . import symex as S
from .symex import DPtr, OPtr, UNKNOWN, RState
from . import solver as Z
from .compare import Comparer


def sweeps(effects, blocks=False):
    """effects(c, ks, n) declares c.write(...) for the first ks[-1] of the n
    iterations of a loop; the loops around it are in iterations ks[:-1].
    c.phase is 'start' before the first iteration, 'at' for an arbitrary one and
    'next' for the one after it: contents that are told step by step (a function
    of the number of the iteration with an equation for the next) are unfolded
    there. blocks: the loop moves through a matrix, any number of rows at a time;
    ks[-1] is where it has come to"""
    def handler(X, n, st, cnd, body, inc, is_do):
        from .loops import Loop
        from .contract import SpecCtx
        if is_do or cnd is None:
            return None
        return (run_blocks if blocks else run)(X, Loop(X, n, cnd, body, inc, is_do), st, cnd, effects, SpecCtx)
    return handler


def run(X, lp, st, cnd, effects, SpecCtx):
    st = st.copy()
    mark = age(T.fresh("mark"))
    X.sweepk = X.sweepk + (T.fresh("it"),)
    try:
        H, RH, hs, bases, ends, start = lp.learn(st)
        delta = {}
        for key in H:
            obj, path = key
            f = hs.get(key)
            if not isinstance(f, Poly):
                continue
            ds = {e.norm(e.objs[obj][path] - f) if isinstance(e.objs.get(obj, {}).get(path), Poly) else None for e in ends}
            d = ds.pop() if len(ds) == 1 else None
            if d is not None and not any(age(A(a)) >= mark for a in T.free_atoms(d)):
                delta[key] = d
        # the number of iterations, from the comparisons that control the loop
        totals = controls(X, lp, st, cnd)
        total = next((t for t in totals if all(t is u or X.decide(st, c_le(t, u)) for u in totals)), None)
        if total is None:
            lp.fail("which of the loop conditions ends it")

        def at(k):
            s = st.copy()
            for key in H:
                obj, path = key
                v0 = st.objs[obj].get(path)
                if key in delta:
                    s.oset(obj, path, v0 + delta[key] * k)
                elif isinstance(v0, Poly):
                    s.oset(obj, path, T.fresh("h." + obj.split("#")[0], lp.sorts.get(key, Z.poly_sort(v0))))
                else:
                    s.oset(obj, path, UNKNOWN)
            for o in s.objs:
                if o.startswith("slots."):
                    s.objs[o] = {}
            s.assume(c_and(c_ge(k, 0), c_le(k, total)))
            return s

        def want(k, s, phase):
            """the declared memory after k iterations"""
            s0 = st.copy()
            s0.pc = s.pc
            s0.sub = s.sub
            c = SpecCtx(X, s0, 'apply', {})
            c.phase = 'start' if X.decide(s0, c_eq(k, 0)) else phase
            effects(c, X.sweepk[:-1] + (k,), total)
            for v, g, val in c.effects:
                if s0.cnorm(g) is not False:
                    X._add_update(s0, v.reg, s0.cnorm(g), s0.norm(val))
            s.pc, s.sub = s0.pc, s0.sub
            s.snaps = dict(s0.snaps)
            return s0.mem
        if not X.decide(st, c_ge(total, 0)):
            none = st.copy()
            none.assume(c_lt(total, 0))
            for b, s2 in X.cond(cnd, none):
                if b:
                    lp.fail("the number of iterations may be negative")
                yield None, s2
            if not Z.feasible(st.pc, st.cnorm(c_ge(total, 0))):
                return
            st.assume(c_ge(total, 0))
        X.oblige(st, "loop", c_ge(total, 0), "the loop runs a number of times")
        # nothing has happened before the first iteration
        s0 = st.copy()
        m0 = want(T.ZERO, s0, 'start')
        for r in st.mem:
            Comparer(X).regions(s0, r, st.mem[r], m0[r], "loop", "before the first iteration of the loop near line %s" % lp.line)
        k = X.sweepk[-1]
        s = at(k)
        s.mem = dict(want(k, s, 'at'))
        first = s.copy()
        for kind, o, e in lp.iterate(s):
            if kind == 'exit':
                continue
            if kind == 'out':
                yield o, e
                continue
            for key in delta:
                obj, path = key
                X.oblige(e, "loop", c_eq(e.objs[obj][path], first.objs[obj][path] + delta[key]) if Z.poly_sort(delta[key]) == 'i'
                         else c_req(e.objs[obj][path], first.objs[obj][path] + delta[key]), "%s advances in every iteration" % obj.split("#")[0])
            X.oblige(e, "loop", c_le(k + 1, total), "the loop stops at its end")
            for e1, m1 in forks(X, e, lambda s: want(k + 1, s, 'next')):
                for r in st.mem:
                    Comparer(X).regions(e1, r, e1.mem[r], m1[r], "loop", "one more iteration of the loop near line %s" % lp.line)
        e = at(total)
        e.mem = dict(want(total, e, 'at'))
        for b, s2 in X.cond(cnd, e):
            if not b:
                yield None, s2
    finally:
        X.sweepk = X.sweepk[:-1]


def controls(X, lp, st, cnd):
    """the differences that are positive as long as the loop runs"""
    out, todo = [], [cnd]
    while todo:
        e = todo.pop()
        while e["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            e = e["inner"][0]
        if e["kind"] == "BinaryOperator" and e["opcode"] == "&&":
            todo += e["inner"]
            continue
        if e["kind"] != "BinaryOperator" or e["opcode"] not in ("<", "!=", ">", ">=", "<="):
            lp.fail("loop condition")
        lo, hi = [S_[0] for S_ in (list(X.eval(x, st.copy())) for x in e["inner"])]
        if e["opcode"] in (">", ">="):
            lo, hi = hi, lo
        out.append(st.norm(hi[0] - lo[0] + (1 if e["opcode"] in (">=", "<=") else 0)))
    return out


def minus(e, a, b):
    """how far a value has moved, None when it has not moved by an amount"""
    if isinstance(a, DPtr) and isinstance(b, DPtr) and a.reg == b.reg:
        a, b = a.off, b.off
    if isinstance(a, Poly) and isinstance(b, Poly) and Z.poly_sort(a) == 'i' and Z.poly_sort(b) == 'i':
        return e.norm(a - b)
    return None


def plus(a, d):
    return DPtr(a.reg, a.off + d) if isinstance(a, DPtr) else a + d


def run_blocks(X, lp, st, cnd, effects, SpecCtx):
    """the variables move by the same amount in every iteration: how far they move
    in the first one is tried, and proved for an arbitrary one"""
    from .loops import same
    st = st.copy()
    p = T.fresh("at")
    X.sweepk = X.sweepk + (p,)
    try:
        def want(k, s, phase):
            s0 = st.copy()
            s0.pc = s.pc
            s0.sub = s.sub
            c = SpecCtx(X, s0, 'apply', {})
            c.phase = 'start' if X.decide(s0, c_eq(k, 0)) else phase
            effects(c, X.sweepk[:-1] + (k,), None)
            for f in c.claims:
                if phase == 'at':
                    s0.assume(f)
                else:
                    X.oblige(s0, "loop", f, "what is claimed of every iteration")
            for v, g, val in c.effects:
                if s0.cnorm(g) is not False:
                    X._add_update(s0, v.reg, s0.cnorm(g), val if val is S.UNINIT else s0.norm(val))
            s.pc, s.sub = s0.pc, s0.sub
            s.snaps = dict(s0.snaps)
            return s0.mem

        # nothing has happened before the first iteration
        s0 = st.copy()
        m0 = want(T.ZERO, s0, 'start')
        for r in st.mem:
            Comparer(X).regions(s0, r, st.mem[r], m0[r], "loop", "before the first iteration of the loop near line %s" % lp.line)

        def dry(s):
            X.dry += 1
            try:
                return lp.once_dry(s)
            finally:
                X.dry -= 1

        def changed(a, ends):
            out = set()
            for e in ends:
                for o, d in a.objs.items():
                    d2 = e.objs.get(o)
                    if d2 is d or d2 is None or o.startswith("slots."):
                        continue
                    for q in set(d) | set(d2):
                        if not same(d.get(q, S.UNINIT), d2.get(q, S.UNINIT), e):
                            out.add((o, q))
            return out
        go = s0.copy()
        first = dry(go)
        if not first:
            for kind, o, e in lp.iterate(st.copy()):
                if kind == 'out':
                    yield o, e
                elif kind == 'next':
                    lp.fail("it may not end at once")
                else:
                    yield None, e
            return
        H = changed(go, first)
        delta = {}
        for o, q in H:
            ds = {minus(e, e.objs[o].get(q), go.objs[o].get(q)) for e in first}
            d = ds.pop() if len(ds) == 1 else None
            if d is not None and d.t != ():
                delta[(o, q)] = d
        # how far the loop goes in one iteration
        tot = controls(X, lp, st, cnd)
        steps = {minus(e, t, controls(X, lp, e, cnd)[n]) for e in first for n, t in enumerate(tot)}
        step = steps.pop() if len(steps) == 1 else None
        if step is None or not (step.is_const() and step.const() > 0 or len(step.t) == 1 and len(step.t[0][0]) == 1 and step.t[0][0][0][1] == 1 and step.t[0][1] == 1):
            lp.fail("how far it goes in one iteration")
        if step.is_const():
            per = {k: d * K(1) if step.const() == 1 else None for k, d in delta.items()}
        else:
            a = step.t[0][0][0][0]
            per = {k: T.subst(d, {a: T.ONE}) for k, d in delta.items()}
            per = {k: c if st.norm(c * step - delta[k]).t == () else None for k, c in per.items()}
        delta = {k: d for k, d in delta.items() if per[k] is not None}
        X.oblige(st, "loop", c_or(c_le(tot[0], 0), c_gt(step, 0)), "the loop moves on")

        def at(k, bound=True):
            s = st.copy()
            for o, q in H:
                v0 = st.objs.get(o, {}).get(q)
                if (o, q) in delta:
                    s.oset(o, q, plus(v0, per[(o, q)] * k))
                elif isinstance(v0, Poly):
                    s.oset(o, q, T.fresh("h." + o.split("#")[0], Z.poly_sort(v0)))
                elif o in s.objs:
                    s.oset(o, q, UNKNOWN)
            for o in s.objs:
                if o.startswith("slots."):
                    s.objs[o] = {}
            s.assume(c_ge(k, 0))
            for t in tot:
                s.assume(c_or(c_eq(k, 0), c_le(k, t + step - 1)))
            return s
        for _ in range(6):
            s = at(p)
            s.mem = dict(want(p, s, 'at'))
            a = s.copy()
            ends = dry(s)
            H2 = H | changed(a, ends)
            bad = {k for k in delta for e in ends if not plain_eq(e, e.objs[k[0]].get(k[1]), plus(a.objs[k[0]].get(k[1]), delta[k]))}
            if H2 == H and not bad:
                break
            H = H2
            delta = {k: d for k, d in delta.items() if k not in bad}
        else:
            lp.fail("the set of changed variables does not stabilise")
        s = at(p)
        s.mem = dict(want(p, s, 'at'))
        a = s.copy()
        for kind, o, e in lp.iterate(s):
            if kind == 'exit':
                continue
            if kind == 'out':
                yield o, e
                continue
            for k in delta:
                m = minus(e, e.objs[k[0]][k[1]], a.objs[k[0]][k[1]])
                X.oblige(e, "loop", c_eq(m, delta[k]) if m is not None else False, "%s advances in every iteration" % k[0].split("#")[0])
            for e1, m1 in forks(X, e, lambda s: want(p + step, s, 'next')):
                for r in st.mem:
                    Comparer(X).regions(e1, r, e1.mem[r], m1[r], "loop", "one more iteration of the loop near line %s" % lp.line)
        e = at(p)
        e.mem = dict(want(p, e, 'at'))
        for b, s2 in X.cond(cnd, e):
            if not b:
                yield None, s2
    finally:
        X.sweepk = X.sweepk[:-1]


def plain_eq(e, a, b):
    m = minus(e, a, b)
    return m is not None and m.t == ()


def forks(X, e, f):
    """f of every state e splits into by what f has to know"""
    from .contract import Fork
    try:
        s = e.copy()
        m = f(s)
    except Fork as fk:
        for b in (fk.c, c_not(fk.c)):
            s = e.copy()
            if Z.feasible(s.pc, s.cnorm(b)):
                s.assume(b)
                yield from forks(X, s, f)
        return
    yield s, m


def age(p):
    """when a symbol was made"""
    a = next(iter(p.atoms()))
    if a.kind != 'sym' or "!" not in a.args[0]:
        return -1
    return int(a.args[0].split("!")[1])

