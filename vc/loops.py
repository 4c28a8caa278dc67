"""Loop rule.  The body is first run on a generic state to learn what it
changes; closed forms (affine counters, prefix-sum accumulators, swept memory
ranges) are proposed from that run; they are then *checked*: the closed form is
assumed at an arbitrary iteration, the body is executed again with obligations
recorded, and the closed form must hold for the next iteration."""
import itertools
import os
from fractions import Fraction
from . import term as T
from .term import *
from . import symex as S
from .symex import (Flags, DPtr, OPtr, FPtr, Vec, NULL, UNINIT, UNKNOWN, RState, R_, C_, Ra, Ca,
                    Unsupported, NeedInvariant, Budget)
from . import solver as Z
from . import frontend as F
from .compare import Comparer, zero

UNROLL = 70
DEBUG = bool(os.environ.get("VC_DEBUG"))


def dbg(*a):
    if DEBUG:
        print("   [loop]", *a)


def run_loop(X, n, st, cnd, body, inc, is_do):
    # the loop may have been moved to a helper that runs in place
    man = next((X.invariants[f] for f in reversed(X.func_stack) if f in X.invariants), None) if X.invariants else None
    if man is not None:
        h = man(X, n, st, cnd, body, inc, is_do)
        if h is not None:
            yield from h
            return
    conc = try_concrete(X, st, cnd, is_do)
    if conc:
        yield from unroll(X, st, cnd, body, inc, is_do, 0)
        return
    lp = Loop(X, n, cnd, body, inc, is_do)
    yield from lp.run(st)


def try_concrete(X, st, cnd, is_do):
    """is the controlling comparison between constants?"""
    if cnd is None:
        return X.bounded
    if X.bounded:
        return True
    parts, todo = [], [cnd]
    while todo:
        e = todo.pop()
        while e["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            e = e["inner"][0]
        if e["kind"] == "BinaryOperator" and e["opcode"] == "&&":
            todo += e["inner"]
        elif e["kind"] == "BinaryOperator" and e["opcode"] in ("<", ">", "<=", ">=", "!="):
            parts.append(e)
    return any(_const_diff(X, st, e) for e in parts)


def _const_diff(X, st, e):
    X.dry += 1
    try:
        s = st.copy()
        vals = []
        for a, s1 in X.eval(e["inner"][0], s):
            for b, s2 in X.eval(e["inner"][1], s1):
                vals.append((s2.norm(a) if isinstance(a, Poly) else a, s2.norm(b) if isinstance(b, Poly) else b))
        if len(vals) != 1 or not all(isinstance(v, Poly) for v in vals[0]):
            return False
        d = vals[0][0] - vals[0][1]
        return d.is_const() and abs(d.const()) <= UNROLL and Z.poly_sort(d) == 'i' and not any(
            a.kind == 'rd' for v in vals[0] for a in v.atoms())
    except (Unsupported, S.NullDeref):
        return False
    finally:
        X.dry -= 1


def unroll(X, st, cnd, body, inc, is_do, depth):
    if depth > UNROLL:
        raise Unsupported("loop with constant bounds runs more than %d times" % UNROLL)

    def after(s):
        if inc is not None:
            for _, s2 in X.evalx(inc, s):
                yield s2
        else:
            yield s

    def do_body(s):
        for o, s1 in X.exec(body, s):
            if o is None or o == ('continue',):
                for s2 in after(s1):
                    if is_do:
                        for b, s3 in X.cond(cnd, s2):
                            if b:
                                yield from unroll(X, s3, cnd, body, inc, is_do, depth + 1)
                            else:
                                yield None, s3
                    else:
                        yield from unroll(X, s2, cnd, body, inc, is_do, depth + 1)
            elif o == ('break',):
                yield None, s1
            else:
                yield o, s1
    if is_do:
        yield from do_body(st)
        return
    if cnd is None:
        yield from do_body(st)
        return
    for b, s in X.cond(cnd, st):
        if not b:
            yield None, s
        else:
            yield from do_body(s)


class Loop:
    def __init__(self, X, n, cnd, body, inc, is_do):
        self.X, self.n, self.cnd, self.body, self.inc, self.is_do = X, n, cnd, body, inc, is_do
        self.line = F.line_of(n)

    def fail(self, why):
        raise NeedInvariant("no inductive summary for the loop near line %s of %s: %s" % (
            self.line, self.X.func_stack[-1] if self.X.func_stack else "?", why))

    # ---------------------------------------------------------- one iteration
    def iterate(self, st):
        """(kind, outcome, state): kind in next/exit/out"""
        X = self.X
        if self.is_do:
            for o, s in X.exec(self.body, st):
                if o is None or o == ('continue',):
                    if self.cnd is None:
                        yield 'next', None, s
                        continue
                    for b, s2 in X.cond(self.cnd, s):
                        yield ('next' if b else 'exit'), None, s2
                elif o == ('break',):
                    yield 'exit', None, s
                else:
                    yield 'out', o, s
            return

        def body(s):
            for o, s1 in X.exec(self.body, s):
                if o is None or o == ('continue',):
                    if self.inc is not None:
                        for _, s2 in X.evalx(self.inc, s1):
                            yield 'next', None, s2
                    else:
                        yield 'next', None, s1
                elif o == ('break',):
                    yield 'exit', None, s1
                else:
                    yield 'out', o, s1
        if self.cnd is None:
            yield from body(st)
            return
        for b, s in X.cond(self.cnd, st):
            if not b:
                yield 'exit', None, s
            else:
                yield from body(s)

    def havoc(self, st, H, RH):
        s = st.copy()
        hs = {}
        for (obj, path) in H:
            v = st.objs[obj].get(path, UNINIT)
            nm = "h." + obj.split("#")[0].replace("p.", "") + ("." + ".".join(map(str, path)) if path else "")
            if (obj, path) in self.walk:
                # a pointer that walks along the columns: its coordinate is the
                # number of steps taken
                f = T.fresh(nm + ".n")
                d = self.walk[(obj, path)] * f
                s.oset(obj, path, DPtr(v.reg, v.off + d) if isinstance(v, DPtr) else v + d)
                hs[(obj, path)] = f
            elif isinstance(v, DPtr):
                f = T.fresh(nm)
                s.oset(obj, path, DPtr(v.reg, f))
                hs[(obj, path)] = f
            elif isinstance(v, Poly):
                f = T.fresh(nm, self.sorts.get((obj, path), Z.poly_sort(v)))
                s.oset(obj, path, f)
                hs[(obj, path)] = f
            elif isinstance(v, Vec):
                fs = [T.fresh(nm, 'r') for _ in v.l]
                s.oset(obj, path, Vec(fs))
                hs[(obj, path)] = fs
            else:
                s.oset(obj, path, UNKNOWN)
                hs[(obj, path)] = None
        bases = {}
        for r in RH:
            b = self.X.newid("hm")
            s.mem[r] = RState(b, ())
            bases[r] = b
        return s, hs, bases

    def learn(self, st):
        X = self.X
        H, RH = set(), set()
        self.sorts = {}
        self.walk = {}
        nowalk = set()
        keys0 = {o: set(d) for o, d in st.objs.items()}
        facts = []
        for rnd in range(12):
            s, hs, bases = self.havoc(st, H, RH)
            for f in self.facts_for(st, hs):
                s.assume(f)
            for f in self.lockstep(hs):
                if Z.feasible(s.pc, s.cnorm(f)):
                    s.assume(f)
            start = s.copy()
            X.dry += 1
            dn = X.dropneg
            X.dropneg = True
            try:
                ends = self.once_dry(s)
                if not ends:
                    X.dropneg = False
                    ends = self.once_dry(start.copy())
            finally:
                X.dry -= 1
                X.dropneg = dn
            H2, RH2 = set(H), set(RH)
            for e in ends:
                for obj, d in start.objs.items():
                    d2 = e.objs.get(obj)
                    if d2 is d or d2 is None or obj.startswith("slots.") or obj.startswith("$q."):
                        continue
                    for p in set(d) | set(d2):
                        a, b = d.get(p, UNINIT), d2.get(p, UNINIT)
                        if isinstance(p, tuple) and p and p[-1] == '$reg':
                            continue
                        if not same(a, b, e):
                            H2.add((obj, p))
                            if isinstance(b, Poly) and Z.poly_sort(b) == 'r':
                                self.sorts[(obj, p)] = 'r'
                for r, rs in start.mem.items():
                    r2 = e.mem.get(r)
                    if r2 is not None and r2 is not rs and (r2.base != rs.base or r2.upd != rs.upd):
                        RH2.add(r)
            walk = self.walks(st, start, ends, H2, nowalk)
            if rnd == 0:
                self.two_steps(st, ends, 1 if walk else 2)
            if H2 == H and RH2 == RH and walk == self.walk:
                self.deltas = [self.delta_of(e, hs) for e in ends]
                return H, RH, hs, bases, ends, start
            H, RH = H2, RH2
            self.walk = walk
            self.last_ends, self.last_hs = ends, hs
        self.fail("the set of changed variables does not stabilise")

    def two_steps(self, st, ends, need):
        """counters that move by a constant in each of the first two
        iterations (guess only)"""
        self.steps = {}
        X = self.X

        def ints(a, b):
            out = {}
            for obj, d in a.objs.items():
                d2 = b.objs.get(obj)
                if d2 is d or d2 is None:
                    continue
                for p, v in d.items():
                    w = d2.get(p)
                    if isinstance(v, Poly) and isinstance(w, Poly) and Z.poly_sort(v) == 'i' and Z.poly_sort(w) == 'i':
                        q = b.norm(w - v)
                        if q.is_const() and q.const() != 0:
                            out[(obj, p)] = q.const()
            return out
        if not ends or len(ends) > 12:
            return
        first = [ints(st, e) for e in ends]
        keys = set(first[0])
        for f in first[1:]:
            keys = {k for k in keys if f.get(k) == first[0][k]}
        if len(keys) < need:
            return
        X.dry += 1
        dn = X.dropneg
        X.dropneg = True
        try:
            good = None
            for e in ends[:3]:
                for e2 in self.once_dry(e.copy())[:12]:
                    f = ints(e, e2)
                    g = {k for k in keys if f.get(k) == first[0][k]}
                    good = g if good is None else good & g
        except (Unsupported, NeedInvariant):
            return
        finally:
            X.dry -= 1
            X.dropneg = dn
        for k in good or ():
            self.steps[k] = (st.objs[k[0]][k[1]], first[0][k])

    def walks(self, st, start, ends, H, nowalk):
        """pointers that move across columns by the same amount on every path:
        {key: amount}"""
        out = {}
        lds = set()
        for r in st.mem:
            ld = st.norm(self.X.regions[r].ld) if self.X.regions[r].ld is not None else None
            if ld is not None and len(ld.t) == 1 and len(ld.t[0][0]) == 1 and ld.t[0][0][0][1] == 1:
                lds.add(ld.t[0][0][0][0])
        names = cond_vars(self.cnd) if self.cnd is not None else set()
        tested = {st.env.get(d) for d in names}
        for k in H:
            v0 = st.objs[k[0]].get(k[1])
            if k in nowalk:
                continue
            if isinstance(v0, Poly) and Z.poly_sort(v0) == 'i' and k[0] not in tested:
                # an index that advances by a leading dimension
                d0 = None
                for e in ends:
                    a, b = start.objs[k[0]].get(k[1]), e.objs.get(k[0], {}).get(k[1])
                    if not isinstance(a, Poly) or not isinstance(b, Poly) or Z.poly_sort(b) != 'i':
                        d0 = None
                        break
                    d = e.norm(b - a)
                    if d0 is not None and d != d0:
                        d0 = None
                        break
                    d0 = d
                if k in self.walk:
                    if d0 is None or d0 != self.walk[k]:
                        nowalk.add(k)
                    else:
                        out[k] = d0
                elif d0 is not None and not d0.is_const() and T.free_atoms(d0) & lds:
                    out[k] = d0
                continue
            if not isinstance(v0, DPtr):
                continue
            r = self.X.regions[v0.reg]
            if r.ld is None:
                continue
            ld = st.norm(r.ld)
            if len(ld.t) != 1 or len(ld.t[0][0]) != 1 or ld.t[0][0][0][1] != 1:
                continue
            la = ld.t[0][0][0][0]
            d0 = None
            for e in ends:
                a, b = start.objs[k[0]].get(k[1]), e.objs.get(k[0], {}).get(k[1])
                if not isinstance(a, DPtr) or not isinstance(b, DPtr) or a.reg != b.reg or a.reg != v0.reg:
                    d0 = None
                    break
                d = e.norm(b.off - a.off)
                if d0 is not None and d != d0:
                    d0 = None
                    break
                d0 = d
            if k in self.walk:
                if d0 is None or d0 != self.walk[k]:
                    nowalk.add(k)
                else:
                    out[k] = d0
                continue
            if d0 is not None and la in T.free_atoms(d0):
                out[k] = d0
        return out

    def lockstep(self, hs):
        out = []
        lead = None
        for k in sorted(self.walk, key=str):
            if hs.get(k) is None:
                continue
            if lead is None:
                lead = hs[k]
            else:
                out.append(c_eq(hs[k], lead))
        for k in sorted(getattr(self, "steps", {}), key=str):
            f = hs.get(k)
            if not isinstance(f, Poly):
                continue
            v0, d = self.steps[k]
            if lead is None:
                if d in (1, -1):
                    lead = (f - v0) * d
                continue
            out.append(c_eq(f, v0 + lead * d))
        return out

    def once_dry(self, s):
        ends = []
        for kind, o, e in self.iterate(s):
            if kind == 'next':
                ends.append(e)
            if len(ends) > 200:
                self.fail("too many paths through the body")
        return ends

    def delta_of(self, e, hs):
        return None

    def facts_for(self, st, hs):
        """monotonicity of counters seen in the previous round (guess only)"""
        ends = getattr(self, "last_ends", None)
        if not ends:
            return []
        old = self.last_hs
        out = []
        for k, f in hs.items():
            if not isinstance(f, Poly):
                continue
            v0 = st.objs[k[0]].get(k[1])
            if isinstance(v0, DPtr):
                v0 = v0.off
            if not isinstance(v0, Poly) or Z.poly_sort(v0) == 'r':
                continue
            if k in self.walk:
                out.append(c_ge(f, 0))
                continue
            prev = old.get(k)
            if prev is None:
                # was constant at v0 in the last round: compare against it
                prev = v0
            ds = set()
            for e in ends:
                v = e.objs.get(k[0], {}).get(k[1])
                if isinstance(v, DPtr):
                    v = v.off
                if not isinstance(v, Poly):
                    ds.add(None)
                    continue
                d = e.norm(v - prev)
                if d.is_const():
                    ds.add(1 if d.const() > 0 else (-1 if d.const() < 0 else 0))
                else:
                    if X_decide(self.X, e, c_ge(d, 0)):
                        ds.add(1)
                    elif X_decide(self.X, e, c_le(d, 0)):
                        ds.add(-1)
                    else:
                        ds.add(None)
            if ds <= {0, 1}:
                out.append(c_ge(f, v0))
            elif ds <= {0, -1}:
                out.append(c_le(f, v0))
        return [c for c in out if c is not True and c is not False]

    # ---------------------------------------------------------- inference
    def infer(self, st, H, RH, hs, bases, ends):
        X = self.X
        self.closed = {}       # key -> function P -> value   (or UNKNOWN)
        hsyms = {}
        for k, f in hs.items():
            if isinstance(f, Poly):
                hsyms[f.t[0][0][0][0]] = k
            elif isinstance(f, list):
                for i, x in enumerate(f):
                    hsyms[x.t[0][0][0][0]] = (k, i)

        def offv(v):
            return v.off if isinstance(v, DPtr) else v

        init = {k: st.objs[k[0]].get(k[1], UNINIT) for k in H}
        news = {k: [e.objs.get(k[0], {}).get(k[1], UNINIT) for e in ends] for k in H}
        for k in self.walk:
            init[k] = T.ZERO
            news[k] = [hs[k] + 1 for _ in ends]
        # split the loop on nothing: every end state contributes
        if not ends:
            # the body never reaches the next iteration: loop runs at most once
            self.once = True
            return
        self.once = False
        havocbases = set(bases.values())

        def is_inv(p):
            """independent of anything the loop changes"""
            for a in T.free_atoms(p):
                if a in hsyms:
                    return False
                if a.kind == 'rd' and a.args[0] in havocbases:
                    return False
                if a.kind == 'sym' and a not in self.entry_syms and '!' in a.args[0] and a not in hsyms:
                    return False
                if a.kind == 'rd' and a.args[0] in self.newsnaps:
                    return False
            return True

        # 1. affine integer variables
        affine = {}
        for k in H:
            v0 = init[k]
            f = hs[k]
            if not isinstance(f, Poly) or not isinstance(offv(v0), Poly):
                continue
            if Z.poly_sort(f) == 'r':
                continue
            if isinstance(v0, DPtr) and not all(isinstance(v, DPtr) and v.reg == v0.reg for v in news[k]):
                continue
            if not all(isinstance(offv(v), Poly) for v in news[k]):
                continue
            ds = [e.norm(offv(v) - f) for v, e in zip(news[k], ends)]
            d0 = ds[0]
            if all(d == d0 for d in ds) and is_inv(d0):
                affine[k] = d0
        self.param = None
        self.clamp = self.find_clamp(st, affine, hs, hsyms, is_inv)
        if self.clamp is not None:
            # a counter with a step that is not a constant: the parameter is the
            # counter, held back at the bound of the loop condition
            k, B = self.clamp
            self.tparam = False
            self.progkey = k
            self.P = hs[k]
            self.P0 = offv(init[k])
            ends2 = []
            self.nextP = []
            src = []
            for n, e in enumerate(ends):
                v = e.norm(offv(news[k][n]))
                for b, e2 in X.branch(e.copy(), c_le(v, B)):
                    ends2.append(e2)
                    src.append(n)
                    self.nextP.append(v if b else B)
            ends = ends2
            news = {q: [vs[n] for n in src] for q, vs in news.items()}
            self._setclosed(k, init[k], lambda p: p)
            for q in affine:
                if q != k:
                    if affine[q].t == ():
                        self._setclosed(q, init[q], lambda p, v0=offv(init[q]): v0)
                    else:
                        self.closed[q] = UNKNOWN
        nonaffine = [k for k in H if k not in affine and isinstance(hs[k], Poly) and Z.poly_sort(hs[k]) == 'i'
                     and isinstance(offv(init[k]), Poly)]
        P = None
        use_t = any(d.is_const() and d.const() != 0 for d in affine.values()) or not nonaffine
        if not use_t and affine and any(d.t for d in affine.values()):
            use_t = False
        if self.clamp is not None:
            pass
        elif use_t:
            self.P = T.fresh("t")
            self.P0 = T.ZERO
            self.nextP = [self.P + 1 for _ in ends]
            for k, d in affine.items():
                self._setclosed(k, init[k], lambda p, v0=offv(init[k]), d=d: v0 + d * p)
            self.tparam = True
            # canonical counter: if some variable is exactly v0 + t or v0 - t nothing else needed
        else:
            # progress variable: prefer the one in the loop condition
            cand = nonaffine + [k for k in affine if affine[k].t]
            prog = self.pick_progress(cand, st)
            if prog is None:
                self.fail("no progress variable among %s" % [k for k in cand])
            self.P = hs[prog]
            self.P0 = offv(init[prog])
            self.nextP = [e.norm(offv(v)) for v, e in zip(news[prog], ends)]
            self._setclosed(prog, init[prog], lambda p: p)
            self.tparam = False
            self.progkey = prog
            for k in list(nonaffine) + list(affine):
                if k == prog:
                    continue
                ok = None
                for cc in (1, -1):
                    if all(e.norm(offv(v) - hs[k] - (np - self.P) * cc).t == () for v, e, np in zip(news[k], ends, self.nextP)
                           if isinstance(offv(v), Poly)):
                        ok = K(cc)
                        break
                if ok is None:
                    # multiple of progress by a loop invariant factor
                    f = None
                    good = True
                    for v, e, np in zip(news[k], ends, self.nextP):
                        if not isinstance(offv(v), Poly):
                            good = False
                            break
                        num = e.norm(offv(v) - hs[k])
                        den = e.norm(np - self.P)
                        q = poly_div(num, den)
                        if q is None or not is_inv(q) or (f is not None and f != q):
                            good = False
                            break
                        f = q
                    if good and f is not None:
                        ok = f
                if ok is not None:
                    self._setclosed(k, init[k], lambda p, v0=offv(init[k]), c=ok, p0=self.P0: v0 + c * (p - p0))
        P = self.P

        # substitution of closed forms for havoc symbols
        def cl_subst():
            mp = {}
            for k, fn in self.closed.items():
                if fn is UNKNOWN:
                    continue
                f = hs[k]
                v = fn(P)
                if isinstance(f, Poly):
                    v = offv(v)
                    a = f.t[0][0][0][0]
                    if A(a) != v:
                        mp[a] = v
                elif isinstance(f, list):
                    for x, y in zip(f, v.l):
                        mp[x.t[0][0][0][0]] = y
            return mp

        # 2. real (and remaining) scalars
        rest = [k for k in H if k not in self.closed]
        progress = True
        while rest and progress:
            progress = False
            mp = cl_subst()
            for k in list(rest):
                f = hs[k]
                v0 = init[k]
                if isinstance(f, list):
                    r = []
                    for i, x in enumerate(f):
                        vs = [(e.norm(v.l[i]) if isinstance(v, Vec) else None) for v, e in zip(news[k], ends)]
                        r.append(self.accum(x, v0.l[i], vs, ends, mp, hsyms, havocbases, is_inv))
                    if all(q is not None for q in r):
                        self.closed[k] = lambda p, r=r: Vec([q(p) for q in r])
                        rest.remove(k)
                        progress = True
                elif isinstance(f, Poly) and isinstance(v0, Poly):
                    vs = [(e.norm(v) if isinstance(v, Poly) else None) for v, e in zip(news[k], ends)]
                    q = self.accum(f, v0, vs, ends, mp, hsyms, havocbases, is_inv)
                    if q is not None:
                        self.closed[k] = q
                        rest.remove(k)
                        progress = True
        for k in rest:
            self.closed[k] = UNKNOWN
        self.free, self.rels, self.signs = [], [], []
        if self.tparam and self.clamp is None:
            self.conserved(rest, hs, init, news, ends, cl_subst(), hsyms, havocbases)
        dbg("closed", {k: (fn(P) if fn is not UNKNOWN else '?') for k, fn in self.closed.items()})

        # 3. memory
        self.mclosed = {}
        self.malts = {}
        self.baseof = {b: r for r, b in bases.items()}
        mp = cl_subst()
        self.mp = mp
        if RH:
            ends = [map_state(e, mp, P) for e in ends]
            self.nextP = [T.subst(np, mp) for np in self.nextP]
        for k, d in self.walk.items():
            fn = self.closed[k]
            if fn is not UNKNOWN:
                v0 = st.objs[k[0]][k[1]]
                self.closed[k] = (
                    (lambda p, v0=v0, d=d, fn=fn: DPtr(v0.reg, v0.off + d * fn(p))) if isinstance(v0, DPtr) else
                    (lambda p, v0=v0, d=d, fn=fn: v0 + d * fn(p)))
        for r in RH:
            self.mclosed[r] = self.infer_region(st, r, bases[r], ends, mp, hsyms, havocbases)

    def conserved(self, rest, hs, init, news, ends, mp, hsyms, havocbases):
        """real variables without a closed form of their own, when a product of
        them has one (a scaled sum of squares, say)"""
        ks = [k for k in rest if isinstance(hs[k], Poly) and Z.poly_sort(hs[k]) == 'r' and isinstance(init[k], Poly)
              and all(isinstance(v, Poly) for v in news[k])]
        if not 1 <= len(ks) <= 3:
            return
        ends = [map_state(e, mp, self.P) for e in ends]
        news = {k: [T.subst(e.norm(v), mp) for v, e in zip(news[k], ends)] for k in ks}
        # which of them stay nonnegative
        signs = [k for k in ks if Z.entails((), c_rle(-init[k], 0))]
        while signs:
            good = []
            for k in signs:
                for v, e in zip(news[k], ends):
                    s = e.copy()
                    for q in signs:
                        s.assume(c_rle(-hs[q], 0))
                    if not Z.entails(s.pc, c_rle(-s.norm(v), 0)):
                        break
                else:
                    good.append(k)
            if good == signs:
                break
            signs = good
        rels, tied = [], set()
        n = len(ks)
        exps = [x for x in itertools.product(range(3), repeat=n) if 2 <= sum(x) <= 4]
        for x in sorted(exps, key=sum):
            def mono(vals, x=x):
                r = T.ONE
                for v, q in zip(vals, x):
                    if q:
                        r = r * T.ppow(v, q)
                return r
            if any(q and k in tied for k, q in zip(ks, x)):
                continue
            m0 = mono([hs[k] for k in ks])
            ds = []
            for i, e in enumerate(ends):
                ds.append(e.norm(mono([e.norm(news[k][i]) for k in ks]) - m0))
            for D in sorted(set(ds), key=lambda d: -len(d.t)):
                if any((a in hsyms and A(a) != self.P) or (a.kind == 'rd' and a.args[0] in havocbases) for a in T.free_atoms(D)):
                    continue
                if D.t == () and len(ends) > 1 and not all(d.t == () for d in ds):
                    continue
                ok = True
                for d, e in zip(ds, ends):
                    if d == D:
                        continue
                    s = e.copy()
                    for q in signs:
                        s.assume(c_rle(-hs[q], 0))
                    if not zero(s, d - D)[0]:
                        ok = False
                        break
                if not ok:
                    continue
                G = self.antidiff([D], ends[:1], T.ZERO)
                if G is None:
                    continue
                rels.append((mono, G, mono([init[k] for k in ks])))
                tied |= {k for k, q in zip(ks, x) if q}
                break
        if not rels:
            return
        self.free = ks
        self.rels = rels
        self.signs = signs
        dbg("conserved", ks, [str(r[1](self.P)) for r in rels], signs)

    def find_clamp(self, st, affine, hs, hsyms, is_inv):
        """(counter, bound) when the loop is `for (; v < bound; v += step)` with
        a step that is not a constant"""
        if self.is_do or self.cnd is None:
            return None
        ks = [k for k, d in affine.items() if d.t and not d.is_const() and not isinstance(st.objs[k[0]].get(k[1]), DPtr)]
        for k in ks:
            f = hs[k]
            sp = st.copy()
            for q, x in hs.items():
                if isinstance(x, Poly) and not isinstance(st.objs[q[0]].get(q[1]), DPtr):
                    sp.oset(q[0], q[1], x)
            try:
                c = self.pure_cond(sp)
            except Unsupported:
                continue
            if c is None or c[0] != 'le':
                continue
            n, rest = T.lin_coef(c[1], f.t[0][0][0][0])
            if n == 1 and is_inv(rest):
                return k, -rest + 1
        return None

    def _setclosed(self, k, v0, fn):
        if isinstance(v0, DPtr):
            self.closed[k] = lambda p, reg=v0.reg, fn=fn: DPtr(reg, fn(p))
        else:
            self.closed[k] = fn

    def pick_progress(self, cand, st):
        names = cond_vars(self.cnd) if self.cnd is not None else set()
        best = None
        for k in cand:
            obj, path = k
            hit = any(st.env.get(d) == obj for d in names)
            sc = (2 if hit else 0) + (1 if not path else 0)
            if best is None or sc > best[0]:
                best = (sc, k)
        return best[1] if best else None

    def accum(self, f, v0, vs, ends, mp, hsyms, havocbases, is_inv):
        """closed form of an accumulator, or None"""
        P, P0 = self.P, self.P0
        if any(v is None for v in vs):
            return None
        fa = f.t[0][0][0][0]
        deltas = []
        for v, e in zip(vs, ends):
            d = T.subst(e.norm(T.subst(v - f, mp)), mp)
            deltas.append(d)
        for d in deltas:
            for a in T.free_atoms(d):
                if a in hsyms and A(a) != P:
                    return None
                if a.kind == 'rd' and a.args[0] in havocbases:
                    return None
        return self.antidiff(deltas, ends, v0)

    def antidiff(self, deltas, ends, v0):
        P, P0 = self.P, self.P0
        pa = P.t[0][0][0][0]
        if self.tparam:
            d0 = deltas[0]
            if any(d != d0 for d in deltas[1:]):
                return None
            if any(self.local_sym(a) for a in T.free_atoms(d0)):
                return None
            return lambda p, d0=d0: v0 + T.merge_strides(T.mkS(d0, P, p))
        # telescoping: delta = h(P') - h(P)
        for d, np, e in zip(deltas, self.nextP, ends):
            h = None
            for h in (telescope(d, pa, np, e), telescope(expand_const_rows(d, pa, np), pa, np, e)):
                if h is not None:
                    break
            if h is None:
                continue
            if any(self.local_sym(a) for a in T.free_atoms(h)):
                continue
            return lambda p, h=h: v0 + T.subst(h, {pa: p}) - T.subst(h, {pa: P0})
        return None

    def local_sym(self, a):
        return a.kind == 'sym' and '!' in a.args[0] and a not in self.entry_syms and A(a) != self.P

    def infer_region(self, st, r, base, ends, mp, hsyms, havocbases):
        X = self.X
        if r in X.scratch:
            # work space: what a loop leaves there is nobody's business
            return [lambda p: (True, UNINIT)]
        P = self.P
        pa = P.t[0][0][0][0]
        sort = X.regions[r].sort
        oldatom = T.mk_atom('rd', (base, R_, C_), sort)
        variants = []
        for e, np in zip(ends, self.nextP):
            ups = []
            for g, v in e.mem[r].upd:
                g2 = e.cnorm(T.csubst(g, mp)) if g is not True else g
                if v is UNINIT:
                    ups.append((g2, UNINIT))
                    continue
                v2 = e.norm(T.subst(v, mp))
                # what the update sees below it in this iteration is the
                # iteration's starting content
                ups.append((tighten(g2), v2))
            ups = flatten_old(X, e, ups, base, sort)
            ups = coalesce(X, e, ups)
            variants.append((e, np, ups))
        # all paths must agree once coalesced
        if len(variants) > 1:
            variants = self.unify(variants, base)
        alts, ngood = [], getattr(self, "ngood", 0) if len(variants) > 1 else len(variants)
        for i, (e, np, ups) in enumerate(variants):
            if i >= ngood and len(alts) >= 8:
                break
            if "~" + r in st.mem:
                # what the loop has written is part of the solution
                self.solution = X.try_read(st, "~" + r, R_, C_)
                try:
                    cl = self.region_closed(X, st, r, base, e, np, ups, hsyms, havocbases, sort)
                finally:
                    self.solution = None
                if cl is not None:
                    alts.append(cl)
            cl = self.region_closed(X, st, r, base, e, np, ups, hsyms, havocbases, sort)
            if cl is not None:
                if i < ngood and not alts:
                    return cl
                alts.append(cl)
        if alts:
            if len(alts) > 1:
                self.malts[r] = alts
            return alts[0]
        dbg("region variants", r, [[(T.cshow(g), str(v)) for g, v in u] for _, _, u in variants])
        self.fail("contents of %s: %s" % (X.regions[r].label,
                  "; ".join("[%s] := %s" % (T.cshow(g)[:120], str(v)[:120]) for g, v in variants[0][2])))

    def unify(self, variants, base):
        """order the candidate descriptions of one iteration: those that fit
        every path through the body first"""
        n = max(len(u) for _, _, u in variants)
        cands = []
        full = [v for v in variants if len(v[2]) == n]
        combos = []
        if 1 < len(full) <= 8:
            combos = [(a, b) for i, a in enumerate(full) for b in full[i + 1:]]
            if len(full) > 2:
                combos.append(tuple(full))
        for fs in combos:
            ups = []
            for col in zip(*[v[2] for v in fs]):
                gs = []
                for g, _ in col:
                    for c in (g[1:] if isinstance(g, tuple) and g[0] == 'and' else [g]):
                        if c not in gs:
                            gs.append(c)
                ups.append((c_and(*gs), col[0][1]))
            cands.append((fs[0][0], fs[0][1], ups))
        cands += sorted(variants, key=lambda v: -len(v[2]))
        seen, good, rest = set(), [], []
        for e, np, ups in cands:
            key = tuple(ups)
            if key in seen:
                continue
            seen.add(key)
            (good if all(self.fits(ups, e2, u2, base) for e2, _, u2 in variants) else rest).append((e, np, ups))
        self.ngood = len(good)
        dbg("unify", len(variants), "good", len(good), [[T.cshow(g)+" := "+str(v) for g,v in c[2]] for c in good+rest])
        return good + rest

    def idle(self, e, g, v, base):
        """on the path of e, the update g := v leaves the contents alone"""
        if v is UNINIT:
            return False
        s = self.solved(e).copy()
        for c in (g[1:] if isinstance(g, tuple) and g[0] == 'and' else [g]):
            if c is not True:
                s.assume(c)
        d = s.norm(v - T.rd(base, R_, C_, Z.poly_sort(v)))
        return d.t == () or zero(s, d)[0]

    def fits(self, ups, e, mine, base):
        if list(ups) == list(mine):
            return True
        used = set()
        for g, v in ups:
            hit = False
            for i, (g2, v2) in enumerate(mine):
                if i in used:
                    continue
                if (v is UNINIT) != (v2 is UNINIT):
                    continue
                if v is not UNINIT and v != v2 and e.norm(v - v2).t != ():
                    m = {}
                    for c in (g2[1:] if isinstance(g2, tuple) and g2[0] == 'and' else [g2]):
                        if isinstance(c, tuple) and c[0] == 'eq':
                            for coord in (Ra, Ca):
                                k, r = T.lin_coef(c[1], coord)
                                if coord not in m and k in (1, -1) and not {Ra, Ca} & set(T.free_atoms(r)):
                                    m[coord] = r * (-k)
                                    break
                    d = self.solved(e).norm(T.subst(v - v2, m))
                    if d.t != () and not (X_entails_pc(e, g, g2) and zero(self.solved(e).copy(), d)[0]):
                        continue
                if X_entails_pc(e, g, g2) and X_entails_pc(e, g2, g):
                    used.add(i)
                    hit = True
                    break
            if not hit:
                g3 = e.cnorm(g)
                if g3 is not False and Z.feasible(e.pc, g3) and not self.idle(e, g, v, base):
                    return False
        return all(i in used or self._empty(e, g2) for i, (g2, _) in enumerate(mine))

    def solved(self, e):
        """e with equations for the loop parameter used as rewrites too"""
        s = getattr(e, "_solved", None)
        if s is None:
            s = e.copy()
            pc = s.pc
            s.pc, s.sub, s.nosolve = (), {}, ()
            for c in pc:
                s.assume(c)
            self._keep = getattr(self, "_keep", {})
            self._keep[id(e)] = s
        return s

    def _empty(self, e, g):
        g = e.cnorm(g)
        return g is False or (g is not True and not Z.feasible(e.pc, g))

    def region_closed(self, X, st, r, base, e, np, ups, hsyms, havocbases, sort):
        """list of functions P -> (guard, value)"""
        P, P0 = self.P, self.P0
        pa = P.t[0][0][0][0]
        out = []
        used = [False] * len(ups)
        olda = T.mk_atom('rd', (base, R_, C_), sort)
        OLD = T.rd('$old', R_, C_, sort)

        def toold(v):
            if v is UNINIT:
                return v

            def entry(a, bound):
                if a.args[0] == base and not bound and (len(ups) == 1 or (a.args[1] == R_ and a.args[2] == C_)):
                    return T.rd('$old', a.args[1], a.args[2], sort)
                # another array the loop changes, or cells of this one under a
                # sum: guess the entry content
                r2 = self.baseof[a.args[0]]
                q = None if bound else X.try_read(st, r2, a.args[1], a.args[2])
                if q is None or q is UNINIT:
                    q = T.rd(X.snapshot(st, r2), a.args[1], a.args[2], X.regions[r2].sort)
                return q
            return T.rebase(v, lambda a: a.args[0] in havocbases or a.args[0] == base, entry)

        groups = {}
        for i, (g, v) in enumerate(ups):
            cs = list(g[1:]) if isinstance(g, tuple) and g[0] == 'and' else [g]
            v = self.own_cell(v, cs, base, olda)
            eqs = [c for c in cs if c[0] == 'eq' and pa in T.cond_free(c)]
            if eqs:
                c = eqs[0]
                k, rest = T.lin_coef(c[1], pa)
                if k is None or k == 0:
                    dbg("eq guard not linear in the loop parameter", T.cshow(c))
                    return None
                sol = rest * (Fraction(-1) / k)          # P = sol(R,C)
                others = [x for x in cs if x is not c]
                if v is UNINIT:
                    return None
                v2 = T.merge_strides(T.subst(v, {pa: sol}))
                og = c_and(*[T.csubst(x, {pa: sol}) for x in others])
                # which coordinate moves
                key = None
                pos = None
                for coord in (Ra, Ca):
                    kk, rr = T.lin_coef(c[1], coord)
                    if kk in (1, -1):
                        # coord = a + s*P
                        s = Fraction(-k) / kk
                        other = rest - A(coord) * kk
                        off = other * (Fraction(-1) / kk)
                        pos = (coord, s, off)
                        break
                if pos is None:
                    dbg("eq guard without unit coordinate", T.cshow(c))
                    return None
                groups.setdefault((pos[0], pos[1], v2, og), []).append((i, pos[2]))
                continue
            if not isinstance(g, tuple) or pa not in T.cond_free(g):
                # same cells in every iteration
                if v is UNINIT:
                    return None
                diff = v - A(olda)
                hasold = any(a.kind == 'rd' and a.args[0] in havocbases for a in T.free_atoms(diff))
                if not hasold:
                    q = self.antidiff([e.norm(diff)], [e], T.ZERO) if self.tparam else self._anti1(e.norm(diff), np, e)
                    if q is None:
                        dbg("no antidifference for", diff)
                        return None
                    out.append((i, lambda p, g=g, q=q: (g, OLD + q(p))))
                    continue
                if not any(a.kind == 'rd' and a.args[0] in havocbases for a in T.free_atoms(v)) and pa not in T.free_atoms(v):
                    cnd = (lambda p, g=g: c_and(g, c_gt(p, P0)))
                    out.append((i, lambda p, cnd=cnd, v=v: (cnd(p), v)))
                    continue
                dbg("same-cell update not an accumulation", g, v)
                return None
            # parameter dependent range
            q = self.sweep(e, g, v, np)
            if q is None:
                q = self.triangular(e, g, v, np, olda, OLD, havocbases)
            if q is None:
                dbg("range guard", T.cshow(g), v)
                return None
            if isinstance(q, tuple):
                out.append((i, lambda p, q=q[1]: [(a, toold(b)) for a, b in q(p)]))
            else:
                out.append((i, lambda p, q=q: (q(p)[0], toold(q(p)[1]))))
        for (coord, s, v2, og), members in groups.items():
            cnt = len(members)
            if abs(s) != cnt:
                dbg("stores do not cover the stride", s, cnt, v2, og, members)
                return None
            offs = [m[1] for m in members]
            base_off = None
            for o in offs:
                ds = [(x - o) for x in offs]
                if all(d.is_const() for d in ds) and sorted(d.const() for d in ds) == list(range(cnt)):
                    base_off = o
                    break
            if base_off is None:
                dbg("store offsets not contiguous", offs)
                return None
            s = int(s)
            vv = toold(v2) if getattr(self, "solution", None) is None else self.solution
            if s > 0:
                fn = (lambda p, coord=coord, b=base_off, s=s, og=og, vv=vv:
                      (c_and(c_ge(A(coord), b + s * P0), c_lt(A(coord), b + s * p), og), vv))
            else:
                fn = (lambda p, coord=coord, b=base_off, s=s, og=og, vv=vv, n=cnt:
                      (c_and(c_ge(A(coord), b + s * (p - 1)), c_lt(A(coord), b + s * P0 + n), og), vv))
            out.append((min(m[0] for m in members), fn))
        out.sort(key=lambda x: x[0])
        return [fn for _, fn in out]

    def own_cell(self, v, cs, base, olda):
        """reads of the cell written, told as such: with the guard R == 0 the
        cell [0, C] is [R, C]"""
        if v is UNINIT:
            return v
        m = {}
        for c in cs:
            if isinstance(c, tuple) and c[0] == 'eq':
                for coord in (Ra, Ca):
                    k, r = T.lin_coef(c[1], coord)
                    if coord not in m and k in (1, -1) and not {Ra, Ca} & set(T.free_atoms(r)):
                        m[coord] = r * (-k)
                        break
        if not m:
            return v
        w = {}
        for a in T.free_atoms(v):
            if a.kind == 'rd' and a.args[0] == base and a is not olda:
                if T.subst(a.args[1] - R_, m).t == () and T.subst(a.args[2] - C_, m).t == ():
                    w[a] = A(olda)
        return T.subst(v, w) if w else v

    def _anti1(self, d, np, e):
        P, P0 = self.P, self.P0
        pa = P.t[0][0][0][0]
        h = telescope(d, pa, np, e)
        if h is None:
            h = telescope(expand_const_rows(d, pa, np), pa, np, e)
        if h is None or any(self.local_sym(a) for a in T.free_atoms(h)):
            return None
        return lambda p: T.subst(h, {pa: p}) - T.subst(h, {pa: P0})

    def sweep(self, e, g, v, np):
        """guard lo(P) <= x < hi(P) with hi(P) = lo(P') (or reversed)"""
        P, P0 = self.P, self.P0
        pa = P.t[0][0][0][0]
        cs = list(g[1:]) if g[0] == 'and' else [g]
        dep = [c for c in cs if pa in T.cond_free(c)]
        ind = [c for c in cs if pa not in T.cond_free(c)]
        if v is not UNINIT and pa in T.free_atoms(v):
            return None
        if any(self.local_sym(a) for c in ind for a in T.cond_free(c)):
            return None
        for coord in (Ra, Ca):
            los, his = [], []
            for c in cs:
                if c[0] != 'le':
                    continue
                k, rest = T.lin_coef(c[1], coord)
                if k == -1:
                    los.append((rest, c))          # rest <= coord
                elif k == 1:
                    his.append((-rest + 1, c))     # coord < 1 - rest
            for lo in los:
                for hi in his:
                    r = self.sweep1(e, cs, dep, coord, lo, hi, v, np)
                    if r is not None:
                        return r
        return None

    def sweep1(self, e, cs, dep, coord, lo, hi, v, np):
        P, P0 = self.P, self.P0
        pa = P.t[0][0][0][0]
        if any(c is not lo[1] and c is not hi[1] for c in dep):
            return None
        others = [c for c in cs if c is not lo[1] and c is not hi[1]]
        L, H = lo[0], hi[0]
        Ln = e.norm(T.subst(L, {pa: np}))
        Hn = e.norm(T.subst(H, {pa: np}))
        og = c_and(*others)
        if pa in T.free_atoms(L) and not any(self.local_sym(a) for a in T.free_atoms(L)):
            if e.norm(H - Ln).t == () or X_entails(self.X, e, c_eq(H, Ln)):
                return lambda p: (c_and(c_ge(A(coord), T.subst(L, {pa: P0})),
                                        c_lt(A(coord), T.subst(L, {pa: p})), og), v)
        if pa in T.free_atoms(H) and not any(self.local_sym(a) for a in T.free_atoms(H)):
            if e.norm(L - Hn).t == () or X_entails(self.X, e, c_eq(L, Hn)):
                return lambda p: (c_and(c_ge(A(coord), T.subst(H, {pa: p})),
                                        c_lt(A(coord), T.subst(H, {pa: P0})), og), v)
        return None

    def triangular(self, e, g, v, np, olda, OLD, havocbases):
        """accumulation over a range with one end moving by one per iteration"""
        if not self.tparam:
            return None
        P, P0 = self.P, self.P0
        pa = P.t[0][0][0][0]
        cs = list(g[1:]) if g[0] == 'and' else [g]
        dep = [c for c in cs if pa in T.cond_free(c)]
        ind = c_and(*[c for c in cs if pa not in T.cond_free(c)])
        if len(dep) != 1 or dep[0][0] != 'le' or v is UNINIT:
            return None
        k, rest = T.lin_coef(dep[0][1], pa)
        if not k:
            return None
        diff = v - A(olda)
        if any(a.kind == 'rd' and a.args[0] in havocbases for a in T.free_atoms(diff)):
            return None
        if any(self.local_sym(a) for a in T.free_atoms(diff)):
            return None
        # k*P + rest <= 0
        G = lambda p: T.merge_strides(T.mkS(diff, P, p))
        if k == 1:
            # iterations P <= -rest contribute: up to min(p, 1-rest)
            top = -rest + 1
            return ('multi', lambda p: [
                (c_and(ind, c_le(p, top), c_gt(p, P0)), OLD + G(p) - G(P0)),
                (c_and(ind, c_gt(p, top), c_gt(top, P0)), OLD + G(top) - G(P0))])
        if k == -1:
            # iterations P >= rest contribute
            bot = rest
            return ('multi', lambda p: [
                (c_and(ind, c_le(bot, P0), c_gt(p, P0)), OLD + G(p) - G(P0)),
                (c_and(ind, c_gt(bot, P0), c_lt(bot, p)), OLD + G(p) - G(bot))])
        return None

    # ---------------------------------------------------------- driver
    def run(self, st):
        X = self.X
        self.entry_syms = set()
        for o, d in st.objs.items():
            for v in d.values():
                collect_syms(v, self.entry_syms)
        for c in st.pc:
            self.entry_syms |= {a for a in T.cond_free(c) if a.kind == 'sym'}
        for r, rs in st.mem.items():
            for g, v in rs.upd:
                self.entry_syms |= {a for a in T.cond_free(g)} if isinstance(g, tuple) else set()
                if isinstance(v, Poly):
                    self.entry_syms |= {a for a in T.free_atoms(v) if a.kind == 'sym'}
        self.newsnaps = set()
        H, RH, hs, bases, ends, start = self.learn(st)
        for e in ends:
            for nm in e.snaps:
                if nm not in st.snaps:
                    self.newsnaps.add(nm)
        dbg("line", self.line, "changes", sorted(H), sorted(RH), "paths", len(ends))
        if not ends:
            # body never comes back to the head: at most one iteration
            for kind, o, s in self.iterate(st):
                if kind == 'exit':
                    yield None, s
                elif kind == 'out':
                    yield o, s
            return
        for k in H:
            if isinstance(hs.get(k), Poly):
                pass
        self.infer(st, H, RH, hs, bases, ends)
        if self.clamp is not None:
            k, B = self.clamp
            go = None
            for b, s in X.branch(st, c_lt(self.P0, B)):
                if b:
                    go = s
                else:
                    yield None, s           # never entered
            if go is None:
                return
            st = go
        if getattr(self, "malts", None):
            self.choose(st, H, RH, hs)
        P = self.P
        for k in self.signs:
            X.oblige(st, "loop", c_rle(-st.objs[k[0]][k[1]], 0), "accumulator starts nonnegative")
        sI = st.copy()
        self.set_state(sI, H, RH, P, st)
        inv = self.invariant_conds(st, H, hs)
        for c in inv(P):
            sI.assume(c)
        # loop-carried bound invariants found by Houdini
        cands = self.candidates(st, sI, H, inv)
        for c in cands:
            sI.assume(T.csubst(c, {}))
        if not X.dry:
            X.npaths += 1
        skip = X.dry and not self.leaves_early() and self.cnd is not None and not self.is_do
        for kind, o, s in (self.exits(sI.copy()) if skip else self.iterate(sI.copy())):
            if kind == 'next':
                self.check_next(s, st, H, RH, cands, inv)
            elif kind == 'exit':
                if not self.exit_equality(s, st, H) and self.exit_split:
                    # never entered / left after some iteration
                    s0 = s.copy()
                    s0.assume(c_eq(self.P, 0))
                    s.assume(c_ge(self.P, 1))
                    self.exit_equality(s, st, H)
                    self.refresh(s0)
                    yield None, s0
                self.refresh(s)
                yield None, s
            else:
                yield o, s
        if self.clamp is not None:
            # left with the counter at or past its bound
            k, B = self.clamp
            s = st.copy()
            self.set_state(s, H, RH, B, st)
            v = T.fresh("past")
            s.oset(k[0], k[1], v)
            s.assume(c_ge(v, B))
            yield None, s

    def refresh(self, s):
        """facts about free accumulators, told with what is known at the exit"""
        if self.free:
            for c in s.pc:
                n = s.cnorm(c)
                if n != c:
                    s.assume(n)

    def leaves_early(self):
        """may the body leave the loop other than by the loop condition?"""
        X = self.X
        k = id(self.n)
        if k not in X.early:
            def scan(n, top):
                if not isinstance(n, dict):
                    return False
                kd = n.get("kind")
                if kd in ("ReturnStmt", "GotoStmt") or (kd == "BreakStmt" and top):
                    return True
                if kd in ("ForStmt", "WhileStmt", "DoStmt", "SwitchStmt"):
                    top = False
                return any(scan(c, top) for c in n.get("inner", []))
            X.early[k] = scan(self.body, True)
        return X.early[k]

    def exits(self, st):
        for b, s in self.X.cond(self.cnd, st):
            if not b:
                yield 'exit', None, s

    def choose(self, st, H, RH, hs):
        """several descriptions of what one iteration writes are in play: keep
        the first that one iteration preserves"""
        X = self.X
        for r, alts in self.malts.items():
            k = (id(self.n), r, len(alts))
            if (X.dry or X.probing) and k in X.chosen:
                # only a guess is needed here
                self.mclosed[r] = alts[X.chosen[k]]
                continue
            for i, cl in enumerate(alts):
                self.mclosed[r] = cl
                if self.probe(st, H, RH, hs):
                    X.chosen[k] = i
                    break
            else:
                self.mclosed[r] = alts[0]

    def probe(self, st, H, RH, hs):
        X = self.X
        saved = (X.obls, X.dry, X.fail_fast, X.npaths)
        X.obls, X.dry, X.fail_fast = [], 0, False
        X.probing += 1
        try:
            sI = st.copy()
            self.set_state(sI, H, RH, self.P, st)
            inv = self.invariant_conds(st, H, hs)
            for c in inv(self.P):
                sI.assume(c)
            cands = self.candidates(st, sI, H, inv)
            for c in cands:
                sI.assume(c)
            for kind, o, s in self.iterate(sI):
                if kind == 'next':
                    n = len(X.obls)
                    self.check_next(s, st, H, RH, cands, inv)
                    if any(not b.ok for b in X.obls[n:]):
                        return False
            return True
        finally:
            X.probing -= 1
            X.obls, X.dry, X.fail_fast, X.npaths = saved

    def exit_equality(self, s, st, H):
        """on leaving, the counter usually sits exactly at its bound"""
        X = self.X
        self.exit_split = False
        if self.cnd is None or not self.tparam:
            return True
        pa = self.P.t[0][0][0][0]
        if pa in s.sub:
            return True
        sp = st.copy()
        try:
            self.set_state(sp, H, [], self.P - (1 if self.is_do else 0), st)
            c = self.pure_cond(sp)
        except Unsupported:
            return True
        if c is None:
            return True
        for x in (c[1:] if c[0] == 'and' else [c]):
            if x[0] != 'le':
                continue
            k, rest = T.lin_coef(x[1], pa)
            if k == 1:
                eq = s.cnorm(c_eq(x[1], 1))
                if eq is not True and eq is not False and X.decide(s, eq) is True:
                    s.assume(eq)
                    return True
                if eq is not True and eq is not False and X.decide(s, c_or(c_eq(self.P, 0), eq)) is True and \
                        X.decide(s, c_eq(self.P, 0)) is None:
                    self.exit_split = True
        return False

    def free_facts(self, vals, p):
        out = [c_rle(-vals[k], 0) for k in self.signs]
        for mono, G, m0 in self.rels:
            out.append(c_req(mono([vals[k] for k in self.free]) - m0 - G(p), 0))
        return out

    def set_state(self, s, H, RH, p, st):
        if getattr(self, "free", None):
            vals = {}
            for k in self.free:
                vals[k] = T.fresh("u." + k[0].split("#")[0], 'r')
                s.oset(k[0], k[1], vals[k])
            for c in self.free_facts(vals, p):
                s.assume(c)
            if p == self.P:
                self.startvals = vals
        for k in H:
            fn = self.closed[k]
            if k in (getattr(self, "free", None) or ()):
                continue
            if fn is UNKNOWN:
                v0 = st.objs[k[0]].get(k[1], UNINIT)
                s.oset(k[0], k[1], UNKNOWN)
            else:
                s.oset(k[0], k[1], fn(p))
        for r in RH:
            rs = st.mem[r]
            s.mem[r] = RState(rs.base, rs.upd + tuple(self.mups(r, p)))

    def mups(self, r, p):
        ups = []
        for fn in self.mclosed[r]:
            q = fn(p)
            if isinstance(q, list):
                ups += q
            else:
                ups.append(q)
        return [(g, v) for g, v in ups if g is not False]

    def invariant_conds(self, st, H, hs):
        P0 = self.P0
        if self.clamp is not None:
            return lambda p: [c_le(P0, p), c_lt(p, self.clamp[1])]
        if self.tparam:
            return lambda p: [c_ge(p, 0)]
        return lambda p: []

    def candidates(self, st, sI, H, inv):
        """simple bound invariants: (P = P0 or the loop condition held before)"""
        X = self.X
        P, P0 = self.P, self.P0
        pa = P.t[0][0][0][0]
        cands = []
        if self.clamp is not None:
            return []
        if self.cnd is not None and not self.is_do and self.tparam:
            # t = 0 or cond(t-1), evaluated on the closed forms
            sp = st.copy()
            prev = P - 1
            try:
                self.set_state(sp, H, [], prev, st)
                c = self.pure_cond(sp)
            except Unsupported:
                c = None
            if c is not None:
                if c[0] == 'le' or c[0] == 'not' or c[0] == 'and':
                    cands.append(c_or(c_eq(P, 0), c))
        elif self.cnd is not None and self.is_do and self.tparam:
            sp = st.copy()
            try:
                # condition was evaluated at the end of the previous iteration
                self.set_state(sp, H, [], P, st)
                c = self.pure_cond(sp)
            except Unsupported:
                c = None
            if c is not None:
                cands.append(c_or(c_eq(P, 0), c))
        if not self.tparam:
            ks = [c_ge(P, P0), c_le(P, P0)]
            sp = st.copy()
            try:
                self.set_state(sp, H, [], P, st)
                c = self.pure_cond(sp)
                if c is not None:
                    for x in ([c] if c[0] != 'and' else list(c[1:])):
                        if x[0] == 'le':
                            ks.append(c_le(x[1] - 1, 0))     # i < n  ->  i <= n
                        if x[0] == 'not' and x[1][0] == 'eq':
                            ks.append(c_le(x[1][1], 0))
                            ks.append(c_ge(x[1][1], 0))
            except Unsupported:
                pass
            cands = [c for c in ks if c is not True and c is not False]
        # initiation
        good = []
        for c in cands:
            if c is True or c is False:
                continue
            if X.decide(st, T.csubst(c, {pa: P0})) is True:
                good.append(c)
        # consecution (Houdini)
        if good and self.quick_inductive(st, sI, H, good, pa):
            return good
        changed = True
        while changed and good:
            changed = False
            s = sI.copy()
            for c in good:
                s.assume(c)
            bad = set()
            X.dry += 1
            try:
                for kind, o, e in self.iterate(s):
                    if kind != 'next':
                        continue
                    np = self.next_param(e)
                    if np is None:
                        continue
                    for c in good:
                        if c not in bad and X.decide(e, T.csubst(c, {pa: np})) is not True:
                            bad.add(c)
            finally:
                X.dry -= 1
            if bad:
                changed = True
                good = [c for c in good if c not in bad]
        dbg("invariants", [T.cshow(c) for c in good])
        return good

    def quick_inductive(self, st, sI, H, good, pa):
        """a counter with a constant step needs no run of the body"""
        X = self.X
        if self.tparam:
            np = self.P + 1
        else:
            ds = {x - self.P for x in self.nextP}
            if len(ds) != 1:
                return False
            d = ds.pop()
            if not d.is_const():
                return False
            np = self.P + d
        s = sI.copy()
        for c in good:
            s.assume(c)
        if self.cnd is not None and not self.is_do:
            c = self.pure_cond(s)
            if c is not None:
                s.assume(c)
        return all(X.decide(s, T.csubst(c, {pa: np})) is True for c in good)

    def pure_cond(self, st):
        X = self.X
        X.dry += 1
        try:
            parts = []
            todo = [self.cnd]
            while todo:
                c = todo.pop()
                while c["kind"] in ("ParenExpr",) or (c["kind"] == "ImplicitCastExpr" and c["castKind"] in ("IntegralToBoolean",)):
                    c = c["inner"][0]
                if c["kind"] == "BinaryOperator" and c["opcode"] == "&&":
                    todo += c["inner"]
                    continue
                vals = list(X.evalx(c, st.copy()))
                if len(vals) != 1:
                    continue
                v = X.truth(vals[0][0])
                if v is True or v is False:
                    continue
                if any(a.kind == 'rd' for a in T.cond_free(v)):
                    continue
                parts.append(v)
            r = c_and(*parts)
            return None if r is True or r is False else r
        finally:
            X.dry -= 1

    def next_param(self, e):
        if self.tparam:
            return self.P + 1
        k = self.progkey
        v = e.objs.get(k[0], {}).get(k[1])
        if isinstance(v, DPtr):
            v = v.off
        return v if isinstance(v, Poly) else None

    def check_next(self, s, st, H, RH, cands, inv, np=None):
        X = self.X
        if X.dry:
            return
        if self.clamp is not None and np is None:
            k, B = self.clamp
            v = s.norm(self.next_param(s))
            X.oblige(s, "termination", c_gt(v, self.P), "the counter of the loop near line %s advances" % self.line)
            s.assume(c_gt(v, self.P))
            for b, s2 in X.branch(s, c_le(v, B)):
                self.check_next(s2, st, H - {k}, RH, cands, inv, v if b else B)
            return
        if np is None:
            np = self.next_param(s)
        line = X.curline
        X.curline = self.line
        if self.free:
            vals = {k: s.objs[k[0]].get(k[1], UNINIT) for k in self.free}
            for k in self.signs:
                X.oblige(s, "loop", c_rle(-s.norm(vals[k]), 0), "accumulator stays nonnegative")
            for mono, G, m0 in self.rels:
                # the relation holds at the start of the iteration
                got = mono([vals[k] for k in self.free]) - mono([self.startvals[k] for k in self.free])
                Comparer(X).values(s, s.norm(got), G(np) - G(self.P), "loop",
                                   "relation between the accumulators is preserved by one iteration")
        for k in H:
            fn = self.closed[k]
            if fn is UNKNOWN:
                continue
            want = fn(np)
            got = s.objs.get(k[0], {}).get(k[1], UNINIT)
            nm = k[0].split("#")[0].replace("p.", "") + "".join("." + str(x) for x in k[1])
            Comparer(X).values(s, got, want, "loop", "loop summary of %s is preserved by one iteration" % nm)
        for r in RH:
            rs = st.mem[r]
            want = RState(rs.base, rs.upd + tuple(self.mups(r, np)))
            Comparer(X).regions(s, r, s.mem[r], want, "loop", "loop summary of the contents of %s is preserved by one iteration" % X.regions[r].label)
        pa = self.P.t[0][0][0][0]
        for c in cands:
            X.oblige(s, "loop", T.csubst(c, {pa: np}), "loop bound invariant is preserved")
        # nothing else changed
        X.curline = line


# -------------------------------------------------------------------- helpers
def map_state(e, mp, P):
    """the same state told in terms of the loop parameter"""
    s = e.copy()
    pc = s.pc
    s.pc, s.sub = (), {}
    s.nosolve = (P.t[0][0][0][0],)
    for c in pc:
        s.assume(T.csubst(c, mp) if c is not False else c)
    return s


def same(a, b, e):
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a == b or e.norm(a - b).t == ()
    if isinstance(a, DPtr) and isinstance(b, DPtr):
        return a.reg == b.reg and (a.off == b.off or e.norm(a.off - b.off).t == ())
    return a == b


def X_decide(X, st, c):
    return X.decide(st, c) is True


def X_entails(X, st, c):
    return X.decide(st, c) is True


def collect_syms(v, out):
    if isinstance(v, Poly):
        out |= {a for a in T.free_atoms(v) if a.kind == 'sym'}
    elif isinstance(v, DPtr):
        out |= {a for a in T.free_atoms(v.off) if a.kind == 'sym'}
    elif isinstance(v, Vec):
        for x in v.l:
            collect_syms(x, out)


def cond_vars(e):
    """declaration ids mentioned in an expression"""
    out = set()
    if isinstance(e, dict):
        if e.get("kind") == "DeclRefExpr":
            out.add(e["referencedDecl"]["id"])
        for c in e.get("inner", []):
            out |= cond_vars(c)
    return out


def poly_div(num, den):
    """exact quotient num/den of polynomials, or None"""
    if not num.t:
        return T.ZERO
    if not den.t:
        return None
    if den.is_const():
        return num * (Fraction(1) / den.const())
    # try monomial-wise with the leading monomial of den
    q = T.ZERO
    rem = num
    dm, dc = den.t[-1]
    for _ in range(20):
        if not rem.t:
            return q
        hit = None
        for m, c in rem.t:
            md = dict(m)
            ok = True
            for a, e in dm:
                if md.get(a, 0) < e:
                    ok = False
                    break
            if ok:
                for a, e in dm:
                    md[a] -= e
                    if md[a] == 0:
                        del md[a]
                hit = Poly(((tuple(sorted(md.items(), key=lambda ae: ae[0].id)), T._num(Fraction(c) / dc)),))
                break
        if hit is None:
            return None
        q = q + hit
        rem = rem - hit * den
    return None


def telescope(d, pa, np, e):
    """h with d = h(P') - h(P), or None"""
    if not d.t:
        return T.ZERO
    h = T.ZERO
    items = list(d.t)
    used = [False] * len(items)
    for i, (m, c) in enumerate(items):
        if used[i]:
            continue
        p = Poly(((m, c),))
        q = e.norm(T.subst(p, {pa: np}))
        if q == p:
            continue
        neg = -q
        if len(neg.t) != 1:
            continue
        for j, (m2, c2) in enumerate(items):
            if j != i and not used[j] and (m2, c2) == neg.t[0]:
                used[i] = used[j] = True
                h = h - p
                break
    if all(used):
        return h
    # polynomial remainder in P: linear terms  c*(P'-P)
    rest = Poly(tuple(it for it, u in zip(items, used) if not u))
    dp = e.norm(np - A(pa))
    q = poly_div(rest, dp)
    if q is not None and pa not in T.free_atoms(q):
        return h + q * A(pa)
    return None


def expand_const_rows(d, pa, np):
    return d


def flatten_old(X, e, ups, base, sort):
    """rewrite '$old' references of updates within one iteration to the
    iteration-start base when nothing earlier in the list can overlap"""
    out = []
    for i, (g, v) in enumerate(ups):
        if v is not UNINIT and S._mentions_old(v):
            m = {}
            for a in T.free_atoms(v):
                if a.kind == 'rd' and a.args[0] == '$old':
                    # does an earlier update cover it?
                    val = None
                    conflict = False
                    for j in range(i - 1, -1, -1):
                        gj = T.csubst(out[j][0], {Ra: a.args[1], Ca: a.args[2]})
                        pc = e.pc
                        both = e.cnorm(c_and(g, gj))
                        if both is False or not Z.feasible(pc, both):
                            continue
                        if X_entails_pc(e, g, gj) and out[j][1] is not UNINIT:
                            val = T.subst(out[j][1], {Ra: a.args[1], Ca: a.args[2]})
                        else:
                            conflict = True
                        break
                    if conflict:
                        raise NeedInvariant("overlapping updates within one iteration")
                    m[a] = val if val is not None else T.rd(base, a.args[1], a.args[2], sort)
            v = T.subst(v, m)
        out.append((g, v))
    # later updates shadow earlier ones with an implied guard
    res = []
    for i, (g, v) in enumerate(out):
        shadow = False
        for j in range(i + 1, len(out)):
            if out[j][0] == g or X_entails_pc(e, g, out[j][0]):
                shadow = True
                break
        if not shadow:
            res.append((g, v))
    return res


def tighten(g):
    """p <= 0 and -p <= 0  is  p == 0"""
    if not isinstance(g, tuple) or g[0] != 'and':
        return g
    les = [c for c in g[1:] if c[0] == 'le']
    out = []
    for c in g[1:]:
        if c[0] == 'le' and ('le', -c[1]) in les:
            c = c_eq(c[1], 0)
        if c not in out:
            out.append(c)
    return c_and(*out)


def X_entails_pc(e, g, h):
    if h is True:
        return True
    h = e.cnorm(h)
    g = e.cnorm(g)
    if g == h:
        return True
    if g is False:
        return True
    return Z.entails(e.pc + ((g,) if g is not True else ()), h)


def _bounds(g):
    """split a guard into per-coordinate lo/hi/eq and the rest"""
    cs = list(g[1:]) if isinstance(g, tuple) and g[0] == 'and' else ([g] if isinstance(g, tuple) else [])
    lo, hi, eq, rest = {}, {}, {}, []
    for c in cs:
        done = False
        for coord in (Ra, Ca):
            if coord not in T.cond_free(c):
                continue
            k, r = T.lin_coef(c[1], coord) if c[0] in ('le', 'eq') else (None, None)
            if k is None or (Ra in T.free_atoms(r) or Ca in T.free_atoms(r)):
                continue
            if c[0] == 'eq' and k in (1, -1):
                if coord in eq:
                    continue
                eq[coord] = r * (-k)
                done = True
                break
            if c[0] == 'le' and k == -1 and coord not in lo:
                lo[coord] = r
                done = True
                break
            if c[0] == 'le' and k == 1 and coord not in hi:
                hi[coord] = -r + 1
                done = True
                break
        if not done:
            rest.append(c)
    return lo, hi, eq, rest


def _mkguard(lo, hi, eq, rest):
    cs = []
    for coord in (Ra, Ca):
        if coord in eq:
            cs.append(c_eq(A(coord), eq[coord]))
        if coord in lo:
            cs.append(c_ge(A(coord), lo[coord]))
        if coord in hi:
            cs.append(c_lt(A(coord), hi[coord]))
    return c_and(*(cs + rest))


def coalesce(X, e, ups):
    """join a range update with an adjacent cell or range holding the same
    function of the cell"""
    ups = list(ups)
    changed = True
    while changed:
        changed = False
        for i in range(len(ups)):
            for j in range(len(ups)):
                if i == j:
                    continue
                r = _join(X, e, ups[i], ups[j])
                if r is not None:
                    a, b = min(i, j), max(i, j)
                    ups[a] = r
                    del ups[b]
                    changed = True
                    break
            if changed:
                break
    return ups


def _join(X, e, u, w):
    (g1, v1), (g2, v2) = u, w
    if v1 is UNINIT or v2 is UNINIT or g1 is True or g2 is True:
        return None
    lo1, hi1, eq1, rest1 = _bounds(g1)
    lo2, hi2, eq2, rest2 = _bounds(g2)
    for coord, other in ((Ra, Ca), (Ca, Ra)):
        if coord not in lo1 or coord not in hi1 or coord in eq1:
            continue
        # other coordinate must be described identically
        if (lo1.get(other), hi1.get(other), eq1.get(other)) != (lo2.get(other), hi2.get(other), eq2.get(other)):
            continue
        if rest1 != rest2:
            continue
        om = {other: eq1[other]} if other in eq1 else {}
        if coord in eq2 and coord not in lo2 and coord not in hi2:
            p = eq2[coord]
            l2, h2 = p, p + 1
            vv = T.subst(T.subst(v1, {coord: p}), om)
            v2 = T.subst(T.subst(v2, {coord: p}), om)
            if e.norm(vv - v2).t != ():
                if e.norm(T.merge_strides(vv) - T.merge_strides(v2)).t != ():
                    continue
        elif coord in lo2 and coord in hi2:
            l2, h2 = lo2[coord], hi2[coord]
            if e.norm(T.subst(v1 - v2, om)).t != ():
                continue
        else:
            continue
        # emptiness of the first range must not matter: require lo1 <= hi1
        if e.norm(hi1[coord] - l2).t == () or X.decide(e, c_eq(hi1[coord], l2)) is True:
            if X.decide(e, c_le(lo1[coord], hi1[coord])) is True and X.decide(e, c_le(l2, h2)) is True:
                lo = dict(lo1)
                hi = dict(hi1)
                hi[coord] = e.norm(h2)
                return (_mkguard(lo, hi, eq1, rest1), v1)
        if e.norm(h2 - lo1[coord]).t == () or X.decide(e, c_eq(h2, lo1[coord])) is True:
            if X.decide(e, c_le(lo1[coord], hi1[coord])) is True and X.decide(e, c_le(l2, h2)) is True:
                lo = dict(lo1)
                hi = dict(hi1)
                lo[coord] = e.norm(l2)
                return (_mkguard(lo, hi, eq1, rest1), v1)
    if v1 == v2 and not (eq1 or eq2):
        # two parts that fit together into one
        a1, a2 = [list(g[1:]) if g[0] == 'and' else [g] for g in (g1, g2)]
        cut = [c for c in a1 if c_not(c) in a2]
        if len(cut) == 1:
            c = cut[0]
            cs = [x for x in a1 if x != c] + [x for x in a2 if x not in a1 and x != c_not(c)]
            g = tighten(c_and(*cs))
            if all(X_entails_pc(e, x, y) for x, y in ((g1, g), (g2, g), (c_and(g, c), g1), (c_and(g, c_not(c)), g2))):
                keep = list(g[1:]) if g[0] == 'and' else [g]
                for x in list(keep):
                    r = [y for y in keep if y is not x]
                    if r and X_entails_pc(e, c_and(*r), x):
                        keep = r
                return (c_and(*keep), v1)
    return None
