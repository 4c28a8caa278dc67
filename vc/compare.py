"""Equality obligations: polynomial identity modulo the path condition."""
import os
import time
from fractions import Fraction
from . import term as T
from .term import *
from . import solver as Z
from . import symex as S

DEBUG = bool(os.environ.get("VC_DEBUG"))


def unfold_sums(p):
    """sums over the same body whose ends differ by a small constant"""
    for _ in range(50):
        groups = {}
        for m, c in p.t:
            for a, e in m:
                if a.kind == 'S':
                    groups.setdefault((a.args[0], a.args[1]), set()).add(a)
        mp = {}
        for key, atoms in groups.items():
            if len(atoms) < 2:
                continue
            atoms = sorted(atoms, key=lambda a: a.id)
            refs = []
            for a in atoms:
                for ref in refs:
                    d = a.args[2] - ref.args[2]
                    if d.is_const() and isinstance(d.const(), int) and abs(d.const()) <= 16:
                        break
                else:
                    refs.append(a)
                    continue
                k = d.const()
                v = A(ref)
                if k > 0:
                    for q in range(k):
                        v = v + T.body_at(ref, ref.args[2] + q)
                else:
                    for q in range(k, 0):
                        v = v - T.body_at(ref, ref.args[2] + q)
                mp[a] = v
        if not mp:
            return p
        p = T.subst(p, mp)
    return p


def normalise(st, d):
    for _ in range(4):
        n = unfold_sums(T.merge_strides(st.norm(d)))
        if n == d:
            return n
        d = n
    return d


def _args(a):
    if a.kind == 'rd':
        return [a.args[1], a.args[2]]
    if a.kind == 'S':
        return [a.args[2]]
    if a.kind == 'uf':
        return [x for x in a.args[1:] if isinstance(x, Poly)]
    if a.kind in ('abs', 'sqrt', 'inv', 'sign'):
        return [a.args[0]]
    if a.kind in ('max', 'min'):
        return list(a.args)
    return []


def _head(a):
    if a.kind == 'rd':
        return ('rd', a.args[0])
    if a.kind == 'S':
        return ('S', a.args[0], a.args[1])
    if a.kind == 'uf':
        return ('uf', a.args[0], len(a.args))
    return (a.kind,)


def equal_polys(st, a, b, depth=0):
    d = normalise(st, a - b)
    if not d.t:
        return True
    if all(x.sort == 'i' for x in d.atoms()):
        return Z.entails(st.pc, c_eq(d, 0))
    z, _ = zero(st, d, depth + 1)
    return z


def zero(st, d, depth=0):
    """(proved, backend)"""
    d = normalise(st, d)
    if not d.t:
        return True, "normaliser"
    if depth > 3:
        return False, None
    # unify atoms with provably equal arguments
    for _ in range(30):
        heads = {}
        for a in d.atoms():
            if a.kind in ('rd', 'S', 'uf', 'abs', 'sqrt', 'inv', 'max', 'min'):
                heads.setdefault(_head(a), []).append(a)
        mp = None
        for h, ats in heads.items():
            if len(ats) < 2:
                continue
            ats = sorted(ats, key=lambda a: a.id)
            for i in range(len(ats)):
                for j in range(i + 1, len(ats)):
                    x, y = _args(ats[i]), _args(ats[j])
                    if all(_eq(st, p, q, depth) for p, q in zip(x, y)):
                        mp = {ats[j]: A(ats[i])}
                        break
                if mp:
                    break
            if mp:
                break
        if mp is None:
            break
        d = normalise(st, _top_subst(d, mp))
        if not d.t:
            return True, "normaliser+z3"
    # empty sums
    mp = {}
    for a in d.atoms():
        if a.kind == 'S':
            for k in range(4):
                if Z.entails(st.pc, c_eq(a.args[2], k)):
                    mp[a] = T.ZERO
                    for q in range(k):
                        mp[a] = mp[a] + T.body_at(a, K(q))
                    break
    if mp:
        d = normalise(st, _top_subst(d, mp))
        if not d.t:
            return True, "normaliser+z3"
    # small differences between sum ends that only the path condition knows
    d2 = _pc_unfold(st, d)
    if d2 is not None:
        d2 = normalise(st, d2)
        if not d2.t:
            return True, "normaliser+z3"
        return zero(st, d2, depth + 1)
    # congruence inside sum bodies / atoms that differ syntactically
    d3 = _unify_bodies(st, d, depth)
    if d3 is not None:
        d3 = normalise(st, d3)
        if not d3.t:
            return True, "normaliser+z3"
        return zero(st, d3, depth + 1)
    # clear denominators
    for a in d.atoms():
        if a.kind == 'inv':
            q = _clear(d, a)
            if q is not None:
                q = normalise(st, q)
                if not q.t:
                    return True, "normaliser"
                r = zero(st, q, depth + 1)
                if r[0]:
                    return r
    c = c_req(d, 0) if Z.poly_sort(d) == 'r' else c_eq(d, 0)
    if c is False:
        # is the path itself infeasible?
        if Z.check_sat(list(st.pc))[0] == 'unsat':
            return True, "z3"
        return False, None
    if Z.entails(st.pc, c, timeout=3000):
        return True, "z3"
    if Z.check_sat(list(st.pc))[0] == 'unsat':
        return True, "z3"
    return False, None


def _clear(d, a):
    """multiply by the argument of one inverse atom"""
    den = a.args[0]
    out = T.ZERO
    for m, c in d.t:
        md = dict(m)
        e = md.pop(a, 0)
        p = Poly(((tuple(sorted(md.items(), key=lambda ae: ae[0].id)), c),))
        if e == 0:
            out = out + p * den
        elif e == 1:
            out = out + p
        else:
            out = out + p * A(a, e - 1)
    return out


def _top_subst(d, mp):
    """replace atoms at monomial level only"""
    out = T.ZERO
    for m, c in d.t:
        t = K(c)
        for a, e in m:
            t = t * (T.ppow(mp[a], e) if a in mp else A(a, e))
        out = out + t
    return out


def _eq(st, p, q, depth):
    if p == q:
        return True
    d = st.norm(p - q)
    if not d.t:
        return True
    if d.is_const():
        return False
    if Z.poly_sort(d) == 'i':
        return Z.entails(st.pc, c_eq(d, 0))
    return zero(st, d, depth + 1)[0]


def _pc_unfold(st, d):
    groups = {}
    for a in d.atoms():
        if a.kind == 'S':
            groups.setdefault((a.args[0], a.args[1]), []).append(a)
    for key, ats in groups.items():
        ats = sorted(ats, key=lambda a: a.id)
        for i in range(len(ats)):
            for j in range(i + 1, len(ats)):
                diff = st.norm(ats[j].args[2] - ats[i].args[2])
                for k in (1, 2, 3, -1, -2, -3, 4, -4):
                    if Z.entails(st.pc, c_eq(diff, k)):
                        v = A(ats[i])
                        if k > 0:
                            for q in range(k):
                                v = v + T.body_at(ats[i], ats[i].args[2] + q)
                        else:
                            for q in range(k, 0):
                                v = v - T.body_at(ats[i], ats[i].args[2] + q)
                        return _top_subst(d, {ats[j]: v})
    return None


def _unify_bodies(st, d, depth):
    """sum atoms whose bodies are equal under the path condition"""
    ats = sorted([a for a in d.atoms() if a.kind == 'S'], key=lambda a: a.id)
    for i in range(len(ats)):
        for j in range(i + 1, len(ats)):
            a, b = ats[i], ats[j]
            if a.args[0] == b.args[0] or a.args[1] != b.args[1]:
                continue
            if T._skel_body(a.args[0]) != T._skel_body(b.args[0]):
                continue
            if equal_polys(st, a.args[0], b.args[0], depth + 1):
                nb = A(T.mk_atom('S', (a.args[0], a.args[1], b.args[2]), 'r'))
                return _top_subst(d, {b: nb})
    return None


class Comparer:
    def __init__(self, X):
        self.X = X

    def values(self, st, got, want, kind, desc):
        X = self.X
        if X.dry:
            return
        t0 = time.time()
        if isinstance(got, S.DPtr) and isinstance(want, S.DPtr):
            ok = got.reg == want.reg
            if ok:
                X.oblige(st, kind, c_eq(got.off, want.off), desc)
            else:
                X._record(kind, desc, False, None, 0.0, "pointers into different operands")
            return
        if isinstance(got, S.Vec) and isinstance(want, S.Vec):
            for i, (g, w) in enumerate(zip(got.l, want.l)):
                self.values(st, g, w, kind, desc + " (lane %d)" % i)
            return
        if isinstance(got, Poly) and isinstance(want, Poly):
            for d, s in X.resolve_snaps(st.copy(), got - want):
                if d is S.UNINIT:
                    X._record(kind, desc, False, None, 0, "uninitialised value")
                    continue
                ok, be = zero(s, d)
                X._record(kind, desc, ok, be or "none", time.time() - t0,
                          None if ok else self.explain(s, got, want, d))
                t0 = time.time()
            return
        ok = got == want
        X._record(kind, desc, ok, "normaliser", time.time() - t0,
                  None if ok else "got %r, expected %r" % (got, want))

    def explain(self, s, got, want, d):
        txt = "got   : %s\nwanted: %s\ndifference after normalisation: %s\npath: %s" % (
            T.show(s.norm(got))[:1500] if isinstance(got, Poly) else got,
            T.show(s.norm(want))[:1500] if isinstance(want, Poly) else want,
            T.show(normalise(s, d))[:1500],
            " & ".join(T.cshow(c) for c in s.pc)[:3000])
        try:
            r, m = Z.check_sat(list(s.pc), want_model=True)
            if m is not None:
                txt += "\nmodel of the path: " + ", ".join("%s=%s" % (x.name(), m[x]) for x in m.decls() if x.arity() == 0)[:1500]
        except Exception:       # noqa
            pass
        return txt

    def regions(self, st, r, got, want, kind, desc):
        X = self.X
        if X.dry:
            return
        reg = X.regions[r]
        if got.base == want.base and got.upd == want.upd:
            X._record(kind, desc, True, "normaliser", 0.0)
            return
        s0 = st.copy()
        row = T.fresh("r*")
        col = T.fresh("c*")
        if reg.rows is not None:
            s0.assume(c_ge(row, 0))
            s0.assume(c_lt(row, reg.rows))
        if reg.cols is not None:
            s0.assume(c_ge(col, 0))
            s0.assume(c_lt(col, reg.cols))
        n = 0
        t0 = time.time()
        for w, s1 in X._read(s0, want, len(want.upd), row, col, reg.sort):
            for g, s2 in X._read(s1, got, len(got.upd), row, col, reg.sort):
                n += 1
                if w is S.UNINIT:
                    # no claim about this cell
                    continue
                if g is S.UNINIT:
                    X._record(kind, desc, False, None, 0, "cell left uninitialised")
                    continue
                for d, s3 in X.resolve_snaps(s2, g - w):
                    ok, be = zero(s3, d)
                    X._record(kind, desc, ok, be or "none", time.time() - t0,
                              None if ok else "cell (r*, c*)\n" + self.explain(s3, g, w, d))
                    t0 = time.time()
        if n == 0:
            # no cell exists (empty operand): trivially equal
            X._record(kind, desc, True, "z3", time.time() - t0)
