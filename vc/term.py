"""Terms: polynomials over interned atoms (integers and reals share one class).

An atom is an interned (kind, args) pair.  A polynomial is a mapping from
monomials (sorted tuples of (atom, exponent)) to rational coefficients.
Conditions are small tuples over polynomials.
"""
from fractions import Fraction

_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("kind", "args", "id", "sort", "_free")

    def __repr__(self):
        return show_atom(self)

    def __reduce__(self):
        return (mk_atom, (self.kind, self.args, self.sort))


def mk_atom(kind, args, sort):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.sort = sort
        a.id = len(_atom_list)
        a._free = None
        _atoms[key] = a
        _atom_list.append(a)
    return a


def _num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        # t: tuple of (mono, coef) sorted by mono key
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.t)
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            return self.t == K(o).t
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and not self.t[0][0])

    def const(self):
        return self.t[0][1] if self.t else 0

    def const_part(self):
        for m, c in self.t:
            if not m:
                return c
        return 0

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = K(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t:
            n = d.get(m, 0) + c
            if n == 0:
                del d[m]
            else:
                d[m] = _num(n)
        return _mk(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly(tuple((m, -c) for m, c in self.t))

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = K(o)
        return self + (-o)

    def __rsub__(self, o):
        return K(o) - self

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return Poly(tuple((m, _num(c * o)) for m, c in self.t))
        if self.is_const():
            return o * self.const() if self.t else ZERO
        if o.is_const():
            return self * o.const() if o.t else ZERO
        d = {}
        extra = None
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m, special = _mmul(m1, m2)
                c = c1 * c2
                if special:
                    p = _special(m) * c
                    extra = p if extra is None else extra + p
                    continue
                n = d.get(m, 0) + c
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = _num(n)
        r = _mk(d)
        return r if extra is None else r + extra

    __rmul__ = __mul__

    def __repr__(self):
        return show(self)

    def atoms(self):
        s = set()
        for m, c in self.t:
            for a, e in m:
                s.add(a)
        return s

    def __reduce__(self):
        return (_from_items, (self.t,))


def _from_items(t):
    # re-sort under this process' atom ids
    return _mk({tuple(sorted(m, key=lambda ae: ae[0].id)): c for m, c in t})


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def _mk(d):
    if not d:
        return ZERO
    if len(d) == 1:
        return Poly(tuple(d.items()))
    return Poly(tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))))


def _mmul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = {}
    for a, e in m1:
        d[a] = e
    special = False
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            d[a] = n
            if a.kind == 'sqrt' and n >= 2:
                special = True
            elif a.kind == 'sign' and n >= 2:
                special = True
            elif a.kind == 'abs' and n >= 2:
                special = True
            elif a.kind == 'ind' and n >= 2:
                special = True
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), special


def _special(m):
    r = ONE
    for a, e in m:
        if a.kind == 'sqrt' and e >= 2:
            x = a.args[0]
            for _ in range(e // 2):
                r = r * x
            if e % 2:
                r = r * A(a)
        elif a.kind == 'abs' and e >= 2:
            x = a.args[0]
            for _ in range(e // 2):
                r = r * x * x
            if e % 2:
                r = r * A(a)
        elif a.kind == 'sign' and e >= 2:
            if e % 2:
                r = r * A(a)
        elif a.kind == 'ind':
            r = r * A(a)
        else:
            r = r * Poly((((((a, e),)), 1),))
    return r


ZERO = Poly(())
ONE = Poly((((), 1),))


def K(c):
    if isinstance(c, Poly):
        return c
    if c == 0:
        return ZERO
    if c == 1:
        return ONE
    if isinstance(c, float):
        c = Fraction(c)
    return Poly((((), _num(c)),))


def A(a, e=1):
    return Poly((((((a, e),)), 1),))


def sym(name, sort='i'):
    return A(mk_atom('sym', (name,), sort))


_fresh = {}


def fresh(name, sort='i'):
    n = _fresh.get(name, 0) + 1
    _fresh[name] = n
    return sym("%s!%d" % (name, n), sort)


def reset_fresh():
    _fresh.clear()


def rd(base, row, col, sort='r'):
    """content of memory base at (row, col)"""
    return A(mk_atom('rd', (base, row, col), sort))


def uf(name, args, sort='r'):
    return A(mk_atom('uf', (name,) + tuple(args), sort))


def idiv(p, k):
    """floor division of an integer polynomial by a positive constant or poly"""
    k = K(k)
    if p.is_const() and k.is_const():
        return K(p.const() // k.const())
    if k.is_const():
        kc = k.const()
        if kc == 1:
            return p
        # split out multiples of k
        q = {}
        r = {}
        for m, c in p.t:
            if isinstance(c, int):
                a, b = divmod(c, kc)
                if a:
                    q[m] = a
                if b:
                    r[m] = b
            else:
                r[m] = c
        rp = _mk(r)
        qp = _mk(q)
        if rp.is_const():
            return qp + (rp.const() // kc)
        return qp + A(mk_atom('div', (rp, k), 'i'))
    return A(mk_atom('div', (p, k), 'i'))


def imod(p, k):
    k = K(k)
    return p - k * idiv(p, k)


def mk_inv(p):
    """1/p for a real polynomial"""
    if p.is_const():
        if p.const() == 0:
            return A(mk_atom('inv', (p,), 'r'))
        return K(Fraction(1) / p.const())
    if len(p.t) == 1:
        m, c = p.t[0]
        if all(a.kind not in ('sqrt', 'abs', 'sign', 'ind') for a, e in m):
            if any(a.kind == 'inv' and e > 0 for a, e in m):
                # the inverse of an inverse
                r = K(_num(Fraction(1) / c))
                for a, e in m:
                    r = r * (ppow(a.args[0], e) if a.kind == 'inv' and e > 0 else A(a, -e))
                return r
            return Poly(((tuple((a, -e) for a, e in m), _num(Fraction(1) / c)),))
    # canonical leading coefficient 1
    lead = p.t[-1][1]
    if lead != 1:
        q = p * (Fraction(1) / lead)
        return A(mk_atom('inv', (q,), 'r')) * (Fraction(1) / lead)
    return A(mk_atom('inv', (p,), 'r'))


def mk_abs(p):
    if p.is_const():
        return K(abs(p.const()))
    # |c*q| = |c| |q|, canonical sign; |product| = product of |.|
    if len(p.t) == 1:
        m, c = p.t[0]
        r = K(abs(c))
        for a, e in m:
            if a.kind in ('abs', 'sqrt'):
                r = r * A(a, e)
            elif e % 2 == 0:
                r = r * A(a, e)
            else:
                r = r * A(mk_atom('abs', (A(a),), 'r'), e)
        return r
    lead = p.t[-1][1]
    if lead < 0:
        p = -p
    return A(mk_atom('abs', (p,), 'r'))


def mk_sqrt(p):
    if p.is_const():
        c = p.const()
        if c in (0, 1):
            return p
    return A(mk_atom('sqrt', (p,), 'r'))


def mk_max(a, b, kind='max'):
    if a.is_const() and b.is_const():
        return K(max(a.const(), b.const()) if kind == 'max' else min(a.const(), b.const()))
    if a == b:
        return a
    if _pkey(b) < _pkey(a):
        a, b = b, a
    return A(mk_atom(kind, (a, b), 'r'))


def _pkey(p):
    return tuple((_mkey(m), c) for m, c in p.t)


# ---------------------------------------------------------------- sums
# S(f, n): the antidifference with S(f,0)=0 of k |-> f(k).  f is a polynomial
# in which the bound index is the atom bv(level).
_bvs = {}


def bv(level):
    if level not in _bvs:
        _bvs[level] = A(mk_atom('bv', (level,), 'i'))
    return _bvs[level]


_lvl_cache = {}


def max_level(p):
    r = _lvl_cache.get(p)
    if r is not None:
        return r
    m = 0
    for a in p.atoms():
        m = max(m, _alevel(a))
    _lvl_cache[p] = m
    return m


def _alevel(a):
    if a.kind == 'bv':
        return a.args[0]
    m = 0
    if a.kind == 'S':
        m = a.args[1]
    for x in a.args:
        if isinstance(x, Poly):
            m = max(m, max_level(x))
        elif isinstance(x, tuple):
            m = max(m, _clevel(x))
    return m


def _clevel(c):
    m = 0
    for x in c:
        if isinstance(x, Poly):
            m = max(m, max_level(x))
        elif isinstance(x, tuple):
            m = max(m, _clevel(x))
    return m


def contains(p, atom):
    return atom in free_atoms(p)


_free_cache = {}


def free_atoms(p):
    """all atoms occurring at any depth in polynomial p"""
    r = _free_cache.get(p)
    if r is None:
        s = set()
        for a in p.atoms():
            s |= atom_free(a)
        r = frozenset(s)
        _free_cache[p] = r
    return r


def atom_free(a):
    if a._free is None:
        s = {a}
        for x in a.args:
            if isinstance(x, Poly):
                s |= free_atoms(x)
            elif isinstance(x, tuple):
                s |= cond_free(x)
        a._free = frozenset(s)
    return a._free


def cond_free(c):
    s = set()
    if isinstance(c, tuple):
        for x in c:
            if isinstance(x, Poly):
                s |= free_atoms(x)
            elif isinstance(x, tuple):
                s |= cond_free(x)
    return s


def mkS(f, var, n):
    """antidifference in var (a Poly consisting of one atom) of f, at n"""
    va = var.t[0][0][0][0]
    res = ZERO
    for m, c in f.t:
        dep = []
        ind = []
        for a, e in m:
            (dep if va in atom_free(a) else ind).append((a, e))
        ip = Poly(((tuple(ind), c),))
        if not dep:
            res = res + ip * n
            continue
        dp = Poly(((tuple(dep), 1),))
        res = res + ip * _mkS1(dp, va, n)
    return res


def lin_coef(p, va):
    """coefficient of atom va if p is linear in it (else None) and the rest"""
    c = 0
    rest = {}
    for m, k in p.t:
        hit = False
        for a, e in m:
            if a is va:
                if len(m) == 1 and e == 1:
                    c = k
                    hit = True
                else:
                    return None, None
            elif va in atom_free(a):
                return None, None
        if not hit:
            rest[m] = k
    return c, _mk(rest)


def lin_coef_poly(p, va):
    """p = q*va + r with r free of va (va to degree one only)"""
    q = {}
    r = {}
    for m, k in p.t:
        hit = None
        for a, e in m:
            if a is va:
                if e != 1:
                    return None, None
                hit = a
            elif va in atom_free(a):
                return None, None
        if hit is not None:
            q[tuple(x for x in m if x[0] is not va)] = k
        else:
            r[m] = k
    return _mk(q), _mk(r)


def _skel(a):
    """a string that does not depend on additive offsets in indices"""
    if a.kind == 'rd':
        return 'rd:%s' % (a.args[0],)
    return a.kind + ':' + str(a.args[0] if a.args and isinstance(a.args[0], str) else '')


def _index_polys(a):
    if a.kind == 'rd':
        return [a.args[1], a.args[2]]
    if a.kind == 'uf':
        return list(a.args[1:])
    if a.kind in ('abs', 'sqrt', 'inv', 'sign'):
        r = []
        for b in sorted(a.args[0].atoms(), key=lambda x: (_skel(x), x.id)):
            r += _index_polys(b)
        return r
    if a.kind == 'S':
        r = [a.args[2]]
        for b in sorted(a.args[0].atoms(), key=lambda x: (_skel(x), x.id)):
            r += _index_polys(b)
        return r
    if a.kind in ('max', 'min'):
        r = []
        for q in a.args:
            for b in sorted(q.atoms(), key=lambda x: (_skel(x), x.id)):
                r += _index_polys(b)
        return r
    return []


def _mkS1(dp, va, n):
    m = dp.t[0][0]
    # polynomial body in the variable itself: leave as is (rare)
    pivot = None
    for a, e in sorted(m, key=lambda ae: (_skel(ae[0]), ae[0].id)):
        for ip in _index_polys(a):
            c, rest = lin_coef(ip, va)
            if c:
                pivot = (c, rest)
                break
        if pivot:
            break
    shift = ZERO
    if pivot is not None:
        c, rest = pivot
        if c < 0:
            # reflect: g(k) = f(-k);  sum_{k<n} f(k) = -(S_g shifted)
            # sum_{k=0}^{n-1} f(k) = sum_{j=-(n-1)}^{0} g(j) = S_g(1) - S_g(1-n)
            g = subst(dp, {va: -A(va)})
            return _mkS1(g, va, ONE) - _mkS1(g, va, ONE - n)
        # rest = c*q + r
        q = {}
        for mm, k in rest.t:
            if isinstance(k, int) and isinstance(c, int):
                d = k // c
            elif c == 1 or (Fraction(k) / c).denominator == 1:
                d = _num(Fraction(k) / c)
            else:
                d = 0
            if d:
                q[mm] = d
        shift = _mk(q)
        if shift.t:
            dp = subst(dp, {va: A(va) - shift})
            return mkS(dp, A(va), n + shift) - mkS(dp, A(va), shift)
    lvl = max_level(subst(dp, {va: ZERO})) + 1
    body = subst(dp, {va: bv(lvl)})
    return _satom(body, lvl, n)


def _satom(body, lvl, n):
    if n.is_const() and n.const() == 0:
        return ZERO
    if n.is_const() and isinstance(n.const(), int) and -4 <= n.const() <= 8:
        k = n.const()
        r = ZERO
        va = bv(lvl).t[0][0][0][0]
        if k > 0:
            for j in range(k):
                r = r + subst(body, {va: K(j)})
        else:
            for j in range(k, 0):
                r = r - subst(body, {va: K(j)})
        return r
    return A(mk_atom('S', (body, lvl, n), 'r'))


def body_at(atom, n):
    body, lvl, _ = atom.args
    va = bv(lvl).t[0][0][0][0]
    return subst(body, {va: n})


# ---------------------------------------------------------------- subst
def subst(p, mp, _cache=None):
    """mp: Atom -> Poly"""
    if not mp:
        return p
    if _cache is None:
        _cache = {}
    keys = set(mp)
    return _subst(p, mp, keys, _cache)


def _subst(p, mp, keys, cache):
    r = cache.get(p)
    if r is not None:
        return r
    if not (free_atoms(p) & keys):
        cache[p] = p
        return p
    res = {}
    acc = None
    for m, c in p.t:
        touched = False
        for a, e in m:
            if atom_free(a) & keys:
                touched = True
                break
        if not touched:
            n = res.get(m, 0) + c
            if n == 0:
                res.pop(m, None)
            else:
                res[m] = n
            continue
        term = K(c)
        keep = []
        for a, e in m:
            if not (atom_free(a) & keys):
                keep.append((a, e))
                continue
            q = _subst_atom(a, mp, keys, cache)
            term = term * ppow(q, e)
        if keep:
            term = term * Poly(((tuple(keep), 1),))
        acc = term if acc is None else acc + term
    r = _mk(res)
    if acc is not None:
        r = r + acc
    cache[p] = r
    return r


def ppow(q, e):
    if e == 1:
        return q
    if e > 0:
        r = q
        for _ in range(e - 1):
            r = r * q
        return r
    i = mk_inv(q)
    r = i
    for _ in range(-e - 1):
        r = r * i
    return r


def _subst_atom(a, mp, keys, cache):
    if a in mp:
        return mp[a]
    k = a.kind
    ar = a.args

    def S(x):
        return _subst(x, mp, keys, cache)
    if k == 'rd':
        return rd(ar[0], S(ar[1]), S(ar[2]), a.sort)
    if k == 'div':
        return idiv(S(ar[0]), S(ar[1]))
    if k == 'inv':
        return mk_inv(S(ar[0]))
    if k == 'abs':
        return mk_abs(S(ar[0]))
    if k == 'sqrt':
        return mk_sqrt(S(ar[0]))
    if k in ('max', 'min'):
        return mk_max(S(ar[0]), S(ar[1]), k)
    if k == 'S':
        body, lvl, n = ar
        b2 = S(body)
        n2 = S(n)
        if b2 == body:
            return _satom(body, lvl, n2)
        va = bv(lvl).t[0][0][0][0]
        # avoid capture: substituted terms may contain bv(lvl)
        tmp = mk_atom('sym', ('__bvtmp%d' % (len(_atom_list)),), 'i')
        b3 = subst(body, {va: A(tmp)})
        b3 = _subst(b3, mp, keys, {})
        return mkS(b3, A(tmp), n2)
    if k == 'uf':
        return A(mk_atom('uf', (ar[0],) + tuple(S(x) if isinstance(x, Poly) else x for x in ar[1:]), a.sort))
    if k == 'ite':
        return mk_ite(csubst_raw(ar[0], mp), S(ar[1]), S(ar[2]), a.sort)
    if k == 'sign':
        return A(mk_atom('sign', (S(ar[0]),), 'r'))
    if k == 'ind':
        return mk_ind(csubst_raw(ar[0], mp))
    return A(mk_atom(k, tuple(S(x) if isinstance(x, Poly) else x for x in ar), a.sort))


def rebase(p, want, f, bound=()):
    """replace every read a with want(a) by f(a, under_a_sum), also inside sums"""
    if not any(a.kind == 'rd' and want(a) for a in free_atoms(p)):
        return p
    r = K(0)
    for m, c in p.t:
        t = K(c)
        for a, e in m:
            if any(b.kind == 'rd' and want(b) for b in atom_free(a)):
                t = t * ppow(_rebase_atom(a, want, f, bound), e)
            else:
                t = t * Poly((((( a, e),), 1),))
        r = r + t
    return r


def _rebase_atom(a, want, f, bound):
    k, ar = a.kind, a.args

    def S(x):
        return rebase(x, want, f, bound) if isinstance(x, Poly) else x
    if k == 'rd':
        b = rd(ar[0], S(ar[1]), S(ar[2]), a.sort)
        if not want(a):
            return b
        fr = free_atoms(ar[1]) | free_atoms(ar[2])
        return f(b.t[0][0][0][0], any(x in fr for x in bound))
    if k == 'S':
        body, lvl, n = ar
        tmp = mk_atom('sym', ('__bvtmp%d' % (len(_atom_list)),), 'i')
        b3 = subst(body, {bv(lvl).t[0][0][0][0]: A(tmp)})
        return mkS(rebase(b3, want, f, bound + (tmp,)), A(tmp), S(n))
    if k in ('ite', 'ind'):
        mp = {b: f(b, any(x in free_atoms(b.args[1]) | free_atoms(b.args[2]) for x in bound))
              for b in atom_free(a) if b.kind == 'rd' and want(b)}
        return _subst_atom(a, mp, set(mp), {})
    mk = {'inv': mk_inv, 'abs': mk_abs, 'sqrt': mk_sqrt}.get(k)
    if mk:
        return mk(S(ar[0]))
    if k in ('max', 'min'):
        return mk_max(S(ar[0]), S(ar[1]), k)
    if k == 'div':
        return idiv(S(ar[0]), S(ar[1]))
    return A(mk_atom(k, tuple(S(x) for x in ar), a.sort))


def mk_ite(c, a, b, sort='r'):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return A(mk_atom('ite', (c, a, b), sort))


def mk_ind(c):
    if c is True:
        return ONE
    if c is False:
        return ZERO
    return A(mk_atom('ind', (c,), 'i'))


# ---------------------------------------------------------------- conditions
# True/False or tuples: ('le',p) p<=0 int; ('eq',p) int; ('rle',p) ('rlt',p)
# ('req',p) real; ('bit',name,k); ('not',c) ('and',..) ('or',..)
def c_le(a, b):
    p = K(a) - K(b)
    if p.is_const():
        return p.const() <= 0
    return ('le', p)


def c_lt(a, b):
    return c_le(K(a) + 1, b)


def c_ge(a, b):
    return c_le(b, a)


def c_gt(a, b):
    return c_lt(b, a)


def c_eq(a, b):
    p = K(a) - K(b)
    if p.is_const():
        return p.const() == 0
    if p.t[-1][1] < 0:
        p = -p
    return ('eq', p)


def c_req(a, b):
    p = K(a) - K(b)
    if p.is_const():
        return p.const() == 0
    if p.t[-1][1] < 0:
        p = -p
    return ('req', p)


def c_rle(a, b):
    p = K(a) - K(b)
    if p.is_const():
        return p.const() <= 0
    return ('rle', p)


def c_rlt(a, b):
    p = K(a) - K(b)
    if p.is_const():
        return p.const() < 0
    return ('rlt', p)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'not':
        return c[1]
    if k == 'le':
        return ('le', -c[1] + 1)
    if k == 'rle':
        return ('rlt', -c[1])
    if k == 'rlt':
        return ('rle', -c[1])
    return ('not', c)


def c_and(*cs):
    r = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == 'and':
            r += [x for x in c[1:] if x not in r]
        elif c not in r:
            r.append(c)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return ('and',) + tuple(r)


def c_or(*cs):
    r = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c[0] == 'or':
            r += [x for x in c[1:] if x not in r]
        elif c not in r:
            r.append(c)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return ('or',) + tuple(r)


def csubst_raw(c, mp):
    if isinstance(c, bool):
        return c
    k = c[0]
    if k in ('le', 'eq', 'rle', 'rlt', 'req'):
        p = subst(c[1], mp)
        if p.is_const():
            v = p.const()
            return {'le': v <= 0, 'eq': v == 0, 'rle': v <= 0, 'rlt': v < 0, 'req': v == 0}[k]
        return (k, p)
    if k == 'not':
        return c_not(csubst_raw(c[1], mp))
    if k == 'and':
        return c_and(*[csubst_raw(x, mp) for x in c[1:]])
    if k == 'or':
        return c_or(*[csubst_raw(x, mp) for x in c[1:]])
    return c


csubst = csubst_raw


# ---------------------------------------------------------------- printing
def show_atom(a):
    k, ar = a.kind, a.args
    if k == 'sym':
        return ar[0]
    if k == 'rd':
        return "%s[%s,%s]" % (ar[0], show(ar[1]), show(ar[2]))
    if k == 'bv':
        return "#%d" % ar[0]
    if k == 'S':
        return "S{#%d: %s}(%s)" % (ar[1], show(ar[0]), show(ar[2]))
    if k == 'div':
        return "(%s)/%s" % (show(ar[0]), show(ar[1]))
    if k == 'ite':
        return "ite(%s, %s, %s)" % (cshow(ar[0]), show(ar[1]), show(ar[2]))
    return "%s(%s)" % (k, ", ".join(show(x) if isinstance(x, Poly) else
                                     (cshow(x) if isinstance(x, tuple) else str(x)) for x in ar))


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        s = "*".join(show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out)


def cshow(c):
    if isinstance(c, bool):
        return str(c)
    k = c[0]
    if k == 'le':
        return "%s <= 0" % show(c[1])
    if k in ('eq', 'req'):
        return "%s == 0" % show(c[1])
    if k == 'rle':
        return "%s <=. 0" % show(c[1])
    if k == 'rlt':
        return "%s <. 0" % show(c[1])
    if k == 'not':
        return "!(%s)" % cshow(c[1])
    if k in ('and', 'or'):
        return "(" + (" %s " % k).join(cshow(x) for x in c[1:]) + ")"
    return str(c)


# ---------------------------------------------------------------- strided sums
def _pivot(dp, va):
    m = dp.t[0][0]
    for a, e in sorted(m, key=lambda ae: (_skel(ae[0]), ae[0].id)):
        for ip in _index_polys(a):
            c, rest = lin_coef(ip, va)
            if c:
                return c, rest
    return None


def _strided(a):
    """(stride, offset, unit-stride body) of a sum atom whose index advances by
    more than one, or None"""
    r = _strcache.get(a)
    if r is not None:
        return r or None
    body, lvl, n = a.args
    va = bv(lvl).t[0][0][0][0]
    pv = _pivot(body, va)
    res = False
    if pv is not None and isinstance(pv[0], int) and pv[0] > 1:
        s = pv[0]
        j = pv[1].const_part()
        if isinstance(j, int):
            j = j % s
            f = subst(body, {va: (A(va) - j) * Fraction(1, s)})
            res = (s, j, f, lvl)
    _strcache[a] = res
    return res or None


_strcache = {}


def merge_strides(p):
    """combine a full residue set of strided sums into one unit-stride sum"""
    if not any(a.kind == 'S' for a in p.atoms()):
        return p
    for _ in range(200):
        groups = {}
        for m, c in p.t:
            ss = [(a, e) for a, e in m if a.kind == 'S']
            for a, e in ss:
                if e != 1:
                    continue
                st = _strided(a)
                if st is None:
                    continue
                rest = tuple(x for x in m if x[0] is not a)
                groups.setdefault((rest, c, st[0], st[2]), []).append((st[1], a, m))
        done = True
        for (rest, c, s, f), mem in groups.items():
            for j0, a0, m0 in mem:
                n0 = a0.args[2]
                pick = {}
                for j, a, m in mem:
                    d = a.args[2] - n0
                    if d.is_const() and isinstance(d.const(), int) and abs(d.const()) <= 8:
                        if j not in pick or abs(d.const()) < abs(pick[j][2]):
                            pick[j] = (a, m, d.const())
                if len(pick) == s:
                    rp = Poly(((rest, c),))
                    new = ZERO
                    lvl = a0.args[1]
                    va = bv(lvl).t[0][0][0][0]
                    for j, (a, m, d) in pick.items():
                        new = new - Poly(((m, c),))
                        if d > 0:
                            for q in range(d):
                                new = new + rp * body_at(a, n0 + q)
                        elif d < 0:
                            for q in range(d, 0):
                                new = new - rp * body_at(a, n0 + q)
                    new = new + rp * mkS(f, A(va), n0 * s)
                    p = p + new
                    done = False
                    break
            if not done:
                break
        if done:
            return p
    return p


def _skel_body(p):
    out = []
    for m, c in p.t:
        out.append((c, tuple(sorted((_skel(a), e) for a, e in m))))
    return tuple(sorted(out, key=str))
