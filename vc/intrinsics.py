"""Trusted contracts of compiler intrinsics and libm/libc functions."""
from . import term as T
from fractions import Fraction
from .term import *
from . import symex as S

TABLE = {}
TRUSTED = {}


def builtin(*names):
    def w(f):
        for n in names:
            TABLE[n] = f
        return f
    return w


@builtin("fabs", "fabsf", "__builtin_fabs")
def _fabs(X, st, a, e):
    yield T.mk_abs(st.norm(a[0])), st


@builtin("sqrt", "__builtin_sqrt")
def _sqrt(X, st, a, e):
    yield T.mk_sqrt(st.norm(a[0])), st


@builtin("fmax")
def _fmax(X, st, a, e):
    yield T.mk_max(a[0], a[1], 'max'), st


@builtin("fmin")
def _fmin(X, st, a, e):
    yield T.mk_max(a[0], a[1], 'min'), st


@builtin("hypot")
def _hypot(X, st, a, e):
    yield T.mk_sqrt(a[0] * a[0] + a[1] * a[1]), st


@builtin("copysign")
def _copysign(X, st, a, e):
    for b, s in X.branch(st, c_rle(0, a[1])):
        yield (T.mk_abs(a[0]) if b else -T.mk_abs(a[0])), s


@builtin("signbit", "__builtin_signbit")
def _signbit(X, st, a, e):
    yield c_rlt(a[0], 0), st


@builtin("abs", "labs")
def _iabs(X, st, a, e):
    for b, s in X.branch(st, c_ge(a[0], 0)):
        yield (a[0] if b else -a[0]), s


def callee(e):
    c = e["inner"][0]
    while c["kind"] != "DeclRefExpr":
        c = c["inner"][0]
    return c["referencedDecl"]["name"]


@builtin("ceil", "floor")
def _ceil(X, st, a, e):
    # the integer next to the value (not negative values only: that is what the
    # conversion to an unsigned type obliges anyway)
    name = callee(e)
    x = st.norm(a[0])
    v = A(T.mk_atom('uf', (name, x), 'i'))
    if name == "ceil":
        st.assume(c_and(c_rle(x, v), c_rlt(v, x + 1)))
    else:
        st.assume(c_and(c_rle(v, x), c_rlt(x, v + 1)))
    yield v, st


@builtin("pow", "exp", "log", "sin", "cos")
def _pow(X, st, a, e):
    yield T.uf(callee(e), a), st


@builtin("free", "armas_wrelease_")
def _free(X, st, a, e):
    p = a[0]
    if p is not S.NULL:
        # the start of a block, released once
        k = (p.reg if isinstance(p, S.DPtr) else p.obj,)
        X.oblige(st, "release", c_eq(p.off, 0) if isinstance(p, S.DPtr) else p.path == (), "the start of a block is released")
        X.oblige(st, "release", k not in st.objs.get("$freed", {}), "memory is released once")
        if X.trackfree:
            st.objs.setdefault("$freed", {})
            st.oset("$freed", k, T.ONE)
    yield T.ZERO, st


@builtin("__builtin_expect")
def _expect(X, st, a, e):
    yield a[0], st


@builtin("__assert_fail")
def _assertfail(X, st, a, e):
    X.oblige(st, "assert", False, "assertion holds")
    return
    yield


# --------------------------------------------------------------- SIMD
def lanes(X, st, p, n):
    """load n consecutive doubles; yields (list, state).  Lanes outside the
    operand's rows (padding) are unconstrained but must be inside the buffer."""
    def go(i, acc, s):
        if i == n:
            yield acc, s
            return
        for v, s2 in X.load(s, ('m', S.DPtr(p.reg, p.off + i)) if isinstance(p, S.DPtr)
                            else ('o', p.obj, p.path[:-1] + (p.path[-1] + i,))):
            yield from go(i + 1, acc + [v], s2)
    yield from go(0, [], st)


@builtin("_mm256_load_pd", "_mm256_loadu_pd")
def _ld4(X, st, a, e):
    for l, s in lanes(X, st, a[0], 4):
        yield S.Vec(l), s


@builtin("_mm_load_pd", "_mm_loadu_pd")
def _ld2(X, st, a, e):
    for l, s in lanes(X, st, a[0], 2):
        yield S.Vec(l), s


@builtin("_mm256_set1_pd")
def _set1(X, st, a, e):
    yield S.Vec([a[0]] * 4), st


@builtin("_mm256_setzero_pd")
def _setz(X, st, a, e):
    yield S.Vec([T.ZERO] * 4), st


@builtin("_mm_set1_pd")
def _set12(X, st, a, e):
    yield S.Vec([a[0]] * 2), st


@builtin("_mm256_set_pd")
def _set4(X, st, a, e):
    yield S.Vec(list(reversed(a))), st


@builtin("_mm_set_pd")
def _set2(X, st, a, e):
    yield S.Vec([a[1], a[0]]), st


@builtin("_mm_set_sd")
def _setsd(X, st, a, e):
    yield S.Vec([a[0], T.ZERO]), st


@builtin("_mm_max_sd")
def _maxsd(X, st, a, e):
    yield S.Vec([T.mk_max(a[0].l[0], a[1].l[0], 'max')] + list(a[0].l[1:])), st


@builtin("_mm_min_sd")
def _minsd(X, st, a, e):
    yield S.Vec([T.mk_max(a[0].l[0], a[1].l[0], 'min')] + list(a[0].l[1:])), st


@builtin("_mm256_fmadd_pd", "_mm_fmadd_pd")
def _fma(X, st, a, e):
    yield S.Vec([x * y + z for x, y, z in zip(a[0].l, a[1].l, a[2].l)]), st


@builtin("_mm256_fmsub_pd")
def _fms(X, st, a, e):
    yield S.Vec([x * y - z for x, y, z in zip(a[0].l, a[1].l, a[2].l)]), st


@builtin("_mm256_fnmadd_pd")
def _fnma(X, st, a, e):
    yield S.Vec([z - x * y for x, y, z in zip(a[0].l, a[1].l, a[2].l)]), st


@builtin("_mm256_mul_pd", "_mm_mul_pd")
def _vmul(X, st, a, e):
    yield S.Vec([x * y for x, y in zip(a[0].l, a[1].l)]), st


@builtin("_mm256_add_pd", "_mm_add_pd")
def _vadd(X, st, a, e):
    yield S.Vec([x + y for x, y in zip(a[0].l, a[1].l)]), st


@builtin("_mm256_sub_pd", "_mm_sub_pd")
def _vsub(X, st, a, e):
    yield S.Vec([x - y for x, y in zip(a[0].l, a[1].l)]), st


@builtin("_mm256_hadd_pd")
def _hadd(X, st, a, e):
    x, y = a[0].l, a[1].l
    yield S.Vec([x[0] + x[1], y[0] + y[1], x[2] + x[3], y[2] + y[3]]), st


@builtin("_mm256_permute2f128_pd")
def _perm2(X, st, a, e):
    x, y = a[0].l, a[1].l
    c = a[2].const()
    parts = [x[0:2], x[2:4], y[0:2], y[2:4]]
    lo = (T.ZERO, T.ZERO) if c & 8 else parts[c & 3]
    hi = (T.ZERO, T.ZERO) if c & 0x80 else parts[(c >> 4) & 3]
    yield S.Vec(tuple(lo) + tuple(hi)), st


@builtin("_mm256_permute_pd")
def _perm(X, st, a, e):
    x = a[0].l
    c = a[1].const()
    yield S.Vec([x[c & 1], x[(c >> 1) & 1], x[2 + ((c >> 2) & 1)], x[2 + ((c >> 3) & 1)]]), st


@builtin("_mm256_blendv_pd")
def _blend(X, st, a, e):
    # the mask lanes are integer constants reinterpreted: only the sign bit counts
    out = []
    for x, y, m in zip(a[0].l, a[1].l, a[2].l):
        if not (isinstance(m, Poly) and m.is_const()):
            raise S.Unsupported("blend with a symbolic mask")
        c = int(m.const()) & 0xffffffffffffffff
        out.append(y if c >> 63 & 1 else x)
    yield S.Vec(out), st


@builtin("_mm256_sqrt_pd", "_mm_sqrt_pd")
def _vsqrt(X, st, a, e):
    yield S.Vec([T.mk_sqrt(st.norm(x)) for x in a[0].l]), st


@builtin("_mm256_div_pd", "_mm_div_pd")
def _vdiv(X, st, a, e):
    yield S.Vec([x * T.mk_inv(st.norm(y)) for x, y in zip(a[0].l, a[1].l)]), st


@builtin("_mm256_blend_pd", "_mm_blend_pd")
def _blendi(X, st, a, e):
    c = a[2].const()
    yield S.Vec([y if int(c) >> i & 1 else x for i, (x, y) in enumerate(zip(a[0].l, a[1].l))]), st


@builtin("_mm256_max_pd")
def _vmax(X, st, a, e):
    yield S.Vec([T.mk_max(x, y, 'max') for x, y in zip(a[0].l, a[1].l)]), st


@builtin("_mm256_min_pd")
def _vmin(X, st, a, e):
    yield S.Vec([T.mk_max(x, y, 'min') for x, y in zip(a[0].l, a[1].l)]), st


def _count8(X, st, n, es=8):
    n = st.norm(n)
    if es == 1:
        return n
    q = n * Fraction(1, 8)
    if any(isinstance(c, Fraction) for _, c in q.t):
        raise S.Unsupported("byte count %s is not a whole number of elements" % n)
    return q


def _zdim(X, st, p, n, what):
    """bounds of n consecutive elements at p; returns (row, col)"""
    r0, c0 = X.decode(st, p.reg, p.off)
    if X.decide(st, c_le(n, 0)) is True:
        return r0, c0
    s2 = st.copy()
    if X.decide(st, c_gt(n, 0)) is not True:
        s2.assume(c_gt(n, 0))
    X.bounds(s2, p.reg, r0, c0, what)
    X.bounds(s2, p.reg, r0 + n - 1, c0, what)
    return r0, c0


@builtin("memcpy", "memmove")
def _memcpy(X, st, a, e):
    d, s, n = a
    if isinstance(d, S.OPtr) and isinstance(s, S.OPtr):
        for p in list(st.objs.get(s.obj, {})):
            if p[:len(s.path)] == s.path:
                st.oset(d.obj, d.path + p[len(s.path):], st.objs[s.obj][p])
        yield d, st
        return
    if not (isinstance(d, S.DPtr) and isinstance(s, S.DPtr)):
        raise S.Unsupported("memcpy between %r and %r" % (d, s))
    n = _count8(X, st, n)
    X.oblige(st, "bounds", c_ge(n, 0), "memcpy length is not negative")
    dr, dc = _zdim(X, st, d, n, "memcpy destination")
    sr, sc = _zdim(X, st, s, n, "memcpy source")
    g = c_and(c_ge(S.R_, dr), c_lt(S.R_, dr + n), c_eq(S.C_, dc))
    if d.reg == s.reg:
        X.oblige(st, "separation", c_or(c_le(n, 0), c_ne(dc, sc), c_ge(dr, sr + n), c_ge(sr, dr + n)),
                 "memcpy operands do not overlap")
    row, col = S.R_ - dr + sr, sc
    v = X.try_read(st, s.reg, row, col, (g,) if g is not True else ())
    if v is None:
        v = T.rd(X.snapshot(st, s.reg), row, col, X.regions[s.reg].sort)
    if g is not False:
        X._add_update(st, d.reg, g, v)
    yield d, st


@builtin("memset", "__builtin_memset")
def _memset(X, st, a, e):
    d, v, n = a
    v = st.norm(v)
    if v.t:
        raise S.Unsupported("memset with a non-zero byte")
    if isinstance(d, S.OPtr):
        raise S.Unsupported("memset of an object")
    n = _count8(X, st, n, X.regions[d.reg].esize)
    dr, dc = _zdim(X, st, d, n, "memset destination")
    g = c_and(c_ge(S.R_, dr), c_lt(S.R_, dr + n), c_eq(S.C_, dc))
    if g is not False:
        X._add_update(st, d.reg, g, T.ZERO)
    yield d, st


@builtin("calloc")
def _calloc(X, st, a, e):
    """fresh zeroed memory, or null"""
    n, sz = (st.norm(x) for x in a)
    if not sz.is_const():
        raise S.Unsupported("calloc of items of unknown size")
    es = int(sz.const())
    lit = e["inner"][1]
    while lit["kind"] in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
        lit = lit["inner"][0]
    if lit["kind"] == "IntegerLiteral" and n.const() == 1 and es not in (1, 4, 8):
        yield from _newobj(X, st)
        return
    if es not in (1, 4, 8):
        for p, s in _newobj(X, st):
            if p is not S.NULL:
                o = "slots." + p.obj
                s.objs[o] = s.objs.pop(p.obj)
                s.objs["$slots"] = {**s.objs.get("$slots", {}), (o,): n}
                p = S.OPtr(o)
            else:
                s.objs.setdefault("$fail", {})
                s.oset("$fail", ("n",), T.ONE)
            yield p, s
        return
    k = st.objs.setdefault("$heap", {("n",): T.ZERO})[("n",)]
    name = "M.heap%d" % (int(k.const()) + 1)
    X.assumptions.add("calloc returns fresh zeroed memory of the size asked, or null")
    for b, s in X.branch(st, c_lt(T.sym("alloc.rc%d" % int(k.const())), 0)):
        s.oset("$heap", ("n",), k + 1)
        if b:
            yield S.NULL, s
            continue
        X.region(name, ld=None, rows=n, cols=T.ONE, sort='i' if es == 4 else 'r', label=name[2:], esize=es)
        s.mem[name] = S.RState(name, ((True, T.ZERO),))
        s.assume(c_ge(T.sym("addr." + name), 0))
        yield S.DPtr(name, T.ZERO), s


@builtin("malloc")
def _malloc(X, st, a, e):
    yield from _newobj(X, st)


def _newobj(X, st):
    """one structure on the heap"""
    k = st.objs.setdefault("$heap", {("n",): T.ZERO})[("n",)]
    X.assumptions.add("malloc returns fresh memory of the size asked, or null")
    for b, s in X.branch(st, c_lt(T.sym("alloc.rc%d" % int(k.const())), 0)):
        s.oset("$heap", ("n",), k + 1)
        if b:
            yield S.NULL, s
            continue
        o = "heapobj%d" % (int(k.const()) + 1)
        s.objs[o] = {}
        yield S.OPtr(o), s
