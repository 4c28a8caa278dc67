"""Translation of conditions to z3 and the entailment cache."""
import time
from fractions import Fraction
import z3
from .term import *
from . import term as T

STATS = {"queries": 0, "time": 0.0, "unknown": 0}
_zcache = {}
_zatom = {}
_axioms = {}      # z3 term id -> list of axioms for atom
TIMEOUT = 4000
FIRST = 300


def zatom(a):
    r = _zatom.get(a)
    if r is not None:
        return r
    ax = []
    k, ar = a.kind, a.args
    if k == 'sym' or k == 'bv':
        nm = ar[0] if k == 'sym' else '#bv%d' % ar[0]
        r = z3.Int(nm) if a.sort == 'i' else z3.Real(nm)
    elif k == 'rd':
        f = z3.Function('rd_%s' % (ar[0],), z3.IntSort(), z3.IntSort(),
                        z3.IntSort() if a.sort == 'i' else z3.RealSort())
        r = f(zint(ar[1]), zint(ar[2]))
    elif k == 'div':
        p, d = zint(ar[0]), zint(ar[1])
        q = z3.Int('div!%d' % a.id)
        r = q
        ax = [z3.Implies(d > 0, z3.And(q * d <= p, p < q * d + d))]
    elif k == 'S':
        r = z3.Real('S!%d' % a.id)
        if all(c > 0 and all(e % 2 == 0 or x.kind in ('abs', 'sqrt') for x, e in m) for m, c in ar[0].t):
            ax = [z3.Implies(zint(ar[2]) >= 0, r >= 0)]       # a sum of squares
    elif k == 'abs':
        p = zreal(ar[0])
        r = z3.Real('abs!%d' % a.id)
        ax = [z3.If(p >= 0, r == p, r == -p)]
    elif k == 'sqrt':
        p = zreal(ar[0])
        r = z3.Real('sqrt!%d' % a.id)
        ax = [r >= 0, z3.Implies(p >= 0, r * r == p)]
    elif k == 'max':
        p, q = zreal(ar[0]), zreal(ar[1])
        r = z3.Real('max!%d' % a.id)
        ax = [r == z3.If(p >= q, p, q)]
    elif k == 'min':
        p, q = zreal(ar[0]), zreal(ar[1])
        r = z3.Real('min!%d' % a.id)
        ax = [r == z3.If(p <= q, p, q)]
    elif k == 'inv':
        p = zreal(ar[0])
        r = z3.Real('inv!%d' % a.id)
        ax = [z3.Implies(p != 0, r * p == 1)]
    elif k == 'ite':
        r = z3.If(zcond(ar[0]), zpoly(ar[1], a.sort), zpoly(ar[2], a.sort))
    elif k == 'ind':
        r = z3.If(zcond(ar[0]), z3.IntVal(1), z3.IntVal(0))
    elif k == 'sign':
        p = zreal(ar[0])
        r = z3.Real('sign!%d' % a.id)
        ax = [z3.Or(r == 1, r == -1)]
    elif k == 'uf':
        args = [x for x in ar[1:]]
        zs = []
        sorts = []
        for x in args:
            z = zpoly_auto(x)
            zs.append(z)
            sorts.append(z.sort())
        out = z3.IntSort() if a.sort == 'i' else z3.RealSort()
        if zs:
            f = z3.Function('uf_%s' % ar[0], *(sorts + [out]))
            r = f(*zs)
        else:
            r = z3.Const('uf_%s' % ar[0], out)
        if ar[0] == 'trunc':
            v = zreal(ar[1])
            ax = [z3.Implies(v >= 0, z3.And(z3.ToReal(r) <= v, v < z3.ToReal(r) + 1)),
                  z3.Implies(v <= 0, z3.And(z3.ToReal(r) >= v, v > z3.ToReal(r) - 1))]
    else:
        r = z3.Real('at!%d' % a.id) if a.sort != 'i' else z3.Int('at!%d' % a.id)
    _zatom[a] = r
    if ax:
        _axioms[a] = ax
    return r


def poly_sort(p):
    for a in p.atoms():
        if a.sort != 'i':
            return 'r'
    for m, c in p.t:
        if isinstance(c, Fraction):
            return 'r'
    return 'i'


def zpoly_auto(p):
    return zreal(p) if poly_sort(p) == 'r' else zint(p)


def zpoly(p, sort):
    return zint(p) if sort == 'i' else zreal(p)


def zint(p):
    key = (p, 'i')
    r = _zcache.get(key)
    if r is None:
        # clear fractions
        den = 1
        for m, c in p.t:
            if isinstance(c, Fraction):
                den = den * c.denominator // _gcd(den, c.denominator)
        if den != 1:
            # an index known to be integral: exact quotient (floor is exact there)
            r = zint(p * den) / z3.IntVal(den)
        else:
            r = z3.IntVal(0)
            first = True
            for m, c in p.t:
                t = _zmono(m, c, True)
                r = t if first else r + t
                first = False
        _zcache[key] = r
    return r


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _zmono(m, c, isint):
    t = None
    for a, e in m:
        z = zatom(a)
        if not isint and a.sort == 'i':
            z = z3.ToReal(z)
        if e < 0:
            ia = T.mk_atom('inv', (A(a),), 'r')
            z = zatom(ia)
            e = -e
        for _ in range(e):
            t = z if t is None else t * z
    if isint:
        k = z3.IntVal(int(c))
    else:
        c = Fraction(c)
        k = z3.RealVal(c)
    if t is None:
        return k
    if c == 1:
        return t
    return k * t


def zreal(p):
    key = (p, 'r')
    r = _zcache.get(key)
    if r is None:
        r = z3.RealVal(0)
        first = True
        for m, c in p.t:
            t = _zmono(m, c, False)
            r = t if first else r + t
            first = False
        _zcache[key] = r
    return r


def zcond(c):
    if c is True:
        return z3.BoolVal(True)
    if c is False:
        return z3.BoolVal(False)
    r = _zcache.get(c)
    if r is not None:
        return r
    k = c[0]
    if k in ('le', 'eq'):
        p = c[1]
        den = 1
        for m, cc in p.t:
            if isinstance(cc, Fraction):
                den = den * cc.denominator // _gcd(den, cc.denominator)
        if poly_sort(p * den) == 'r':
            z = zreal(p)
        else:
            z = zint(p * den)
        r = z <= 0 if k == 'le' else z == 0
    elif k == 'rle':
        r = zreal(c[1]) <= 0
    elif k == 'rlt':
        r = zreal(c[1]) < 0
    elif k == 'req':
        r = zreal(c[1]) == 0
    elif k == 'bit':
        r = z3.Bool('bit_%s_%s' % (c[1], c[2]))
    elif k == 'bvar':
        r = z3.Bool('bvar_%s' % c[1])
    elif k == 'not':
        r = z3.Not(zcond(c[1]))
    elif k == 'and':
        r = z3.And([zcond(x) for x in c[1:]])
    elif k == 'or':
        r = z3.Or([zcond(x) for x in c[1:]])
    else:
        raise ValueError(c)
    _zcache[c] = r
    return r


_cfree = {}


_neg = {}


def neg_atoms(p):
    """inverses standing for negative powers, at any depth"""
    r = _neg.get(p)
    if r is None:
        s = set()
        for m, _ in p.t:
            for a, e in m:
                if e < 0:
                    s.add(T.mk_atom('inv', (A(a),), 'r'))
                for x in a.args:
                    if isinstance(x, Poly):
                        s |= neg_atoms(x)
        r = _neg[p] = frozenset(s)
    return r


def cond_atoms(c):
    r = _cfree.get(c)
    if r is None:
        if isinstance(c, bool):
            r = frozenset()
        elif c[0] in ('bit', 'bvar'):
            r = frozenset([c])
        elif c[0] in ('le', 'eq', 'rle', 'rlt', 'req'):
            s = set(neg_atoms(c[1]))
            for a in T.free_atoms(c[1]):
                s.add(a)
                if a.kind == 'ite' or a.kind == 'ind':
                    s |= cond_atoms(a.args[0])
            r = frozenset(s)
        else:
            s = set()
            for x in c[1:]:
                s |= cond_atoms(x)
            r = frozenset(s)
        _cfree[c] = r
    return r


def _keyatoms(c):
    # atoms used for relevance: base symbols, flag bits and reads
    return cond_atoms(c)


def slice_pc(pc, c):
    want = set(_keyatoms(c))
    rest = list(pc)
    out = []
    changed = True
    while changed and rest:
        changed = False
        nrest = []
        for p in rest:
            k = _keyatoms(p)
            if k & want:
                out.append(p)
                want |= k
                changed = True
            else:
                nrest.append(p)
        rest = nrest
    return out


_ecache = {}


class Result:
    def __init__(self, status, model=None):
        self.status = status
        self.model = model


def check_sat(conds, timeout=None, want_model=False):
    """conds: list of conditions; returns 'sat','unsat','unknown'"""
    for c in conds:
        if c is False:
            return ('unsat', None)
    conds = [c for c in conds if c is not True]
    key = frozenset(conds)
    r = _ecache.get(key)
    if r is not None and not (want_model and r[0] == 'sat'):
        return r
    t0 = time.time()
    zs = [zcond(c) for c in conds]
    seen = set()
    for c in conds:
        for a in cond_atoms(c):
            if isinstance(a, tuple):
                continue
            if a in seen:
                continue
            seen.add(a)
            zatom(a)
            zs.extend(_axioms.get(a, ()))
    r = None
    for k in (0, 1):
        # the plain SMT core answers nearly every query at once; the full solver takes the rest
        s = z3.SimpleSolver() if k == 0 else z3.Solver()
        s.set("timeout", min(FIRST, timeout or TIMEOUT) if k == 0 else (timeout or TIMEOUT))
        ctx, sp = s.ctx.ref(), s.solver
        for x in zs:
            z3.Z3_solver_assert(ctx, sp, x.as_ast())
        r = s.check()
        if str(r) != 'unknown':
            break
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    res = str(r)
    m = None
    if res == 'sat' and want_model:
        m = s.model()
    if res == 'unknown':
        STATS["unknown"] += 1
    out = (res, m)
    _ecache[key] = (res, None)
    return out


def entails(pc, c, timeout=None):
    """True if pc |= c (proved), False otherwise"""
    if c is True:
        return True
    if c is False:
        return check_sat(list(pc), timeout)[0] == 'unsat'
    if c in pc:
        return True
    n = c_not(c)
    sl = slice_pc(pc, n)
    return check_sat(sl + [n], timeout)[0] == 'unsat'


def feasible(pc, c):
    if c is False:
        return False
    if c is True:
        return True
    if c_not(c) in pc:
        return False
    sl = slice_pc(pc, c)
    return check_sat(sl + [c])[0] != 'unsat'
