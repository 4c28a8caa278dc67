"""Symbolic execution of clang syntax trees with contracts at calls and
inferred-then-checked inductive summaries at loops."""
import os
import sys
import time
from fractions import Fraction
from . import term as T
from .term import *
from . import frontend as F
from . import solver as Z

R_ = T.sym('$R')
C_ = T.sym('$C')
Ra = R_.t[0][0][0][0]
Ca = C_.t[0][0][0][0]


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values
class Flags:
    __slots__ = ("base", "am", "om", "xm")

    def __init__(self, base, am=0xffffffff, om=0, xm=0):
        # value = (((base & am) | om) ^ xm)
        self.base, self.am, self.om, self.xm = base, am, om, xm

    def key(self):
        return (self.base, self.am & ~self.om, self.om, self.xm)

    def __eq__(self, o):
        return isinstance(o, Flags) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def bit(self, k):
        b = 1 << k
        if self.om & b:
            v = True
        elif self.am & b:
            v = ('bit', self.base, k)
        else:
            v = False
        if self.xm & b:
            v = c_not(v)
        return v

    def and_(self, m):
        m &= 0xffffffff
        return Flags(self.base, self.am & m, self.om & m, self.xm & m)

    def or_(self, m):
        m &= 0xffffffff
        return Flags(self.base, self.am & ~m, self.om | m, self.xm & ~m)

    def xor_(self, m):
        return Flags(self.base, self.am, self.om, self.xm ^ (m & 0xffffffff))

    def possible(self):
        return (self.am & ~self.om), (self.om ^ self.xm) & ~(self.am & ~self.om)

    def nonzero(self):
        cs = []
        for k in range(32):
            if (self.am | self.om | self.xm) >> k & 1:
                c = self.bit(k)
                if c is True:
                    return True
                if c is not False:
                    cs.append(c)
        return c_or(*cs)

    def equals(self, m):
        m &= 0xffffffff
        cs = []
        for k in range(32):
            want = bool(m >> k & 1)
            c = self.bit(k)
            if c is True or c is False:
                if c != want:
                    return False
                continue
            cs.append(c if want else c_not(c))
        return c_and(*cs)

    def __repr__(self):
        return "Flags(%s&%x|%x^%x)" % (self.base, self.am, self.om, self.xm)


class DPtr:
    __slots__ = ("reg", "off")

    def __init__(self, reg, off):
        self.reg = reg
        self.off = off

    def __eq__(self, o):
        return isinstance(o, DPtr) and self.reg == o.reg and self.off == o.off

    def __hash__(self):
        return hash((self.reg, self.off))

    def __repr__(self):
        return "&%s[%s]" % (self.reg, self.off)


class OPtr:
    __slots__ = ("obj", "path")

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = path

    def __eq__(self, o):
        return isinstance(o, OPtr) and self.obj == o.obj and self.path == o.path

    def __hash__(self):
        return hash((self.obj, self.path))

    def __repr__(self):
        return "&%s%s" % (self.obj, "".join(".%s" % (p,) for p in self.path))


class _Null:
    def __repr__(self):
        return "NULL"

    def __reduce__(self):
        return "NULL"


NULL = _Null()


class FPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FPtr) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "fn:%s" % self.name


class Vec:
    __slots__ = ("l",)

    def __init__(self, lanes):
        self.l = tuple(lanes)

    def __eq__(self, o):
        return isinstance(o, Vec) and self.l == o.l

    def __hash__(self):
        return hash(self.l)

    def __repr__(self):
        return "Vec%r" % (self.l,)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class _Uninit:
    def __repr__(self):
        return "?"


UNINIT = _Uninit()      # reading it is an error
UNKNOWN = _Uninit()     # value not tracked through a loop


class StructVal:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Region:
    def __init__(self, name, ld=None, rows=None, cols=None, sort='r', label=None, esize=8):
        self.name = name
        self.ld = ld          # Poly (one symbol) or None for a flat array
        self.rows = rows
        self.cols = cols
        self.sort = sort
        self.label = label or name
        self.esize = esize


class RState:
    __slots__ = ("base", "upd")

    def __init__(self, base, upd=()):
        self.base = base
        self.upd = upd


class State:
    __slots__ = ("env", "objs", "mem", "pc", "sub", "snaps", "depth", "trace", "tags", "ghost", "nosolve")

    def __init__(self):
        self.env = {}
        self.objs = {}
        self.mem = {}
        self.pc = ()
        self.sub = {}
        self.snaps = {}
        self.depth = 0
        self.trace = ()
        self.tags = {}
        self.ghost = {}
        self.nosolve = ()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.objs = dict(self.objs)
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.sub = self.sub
        s.snaps = dict(self.snaps)
        s.depth = self.depth
        s.trace = self.trace
        s.tags = self.tags
        s.ghost = dict(self.ghost)
        s.nosolve = self.nosolve
        return s

    # -- objects
    def oget(self, obj, path):
        return self.objs[obj].get(path, UNINIT)

    def oset(self, obj, path, v):
        o = dict(self.objs[obj])
        o[path] = v
        self.objs[obj] = o

    # -- knowledge
    def norm(self, p):
        if self.sub:
            return T.subst(p, self.sub)
        return p

    def cnorm(self, c):
        if self.sub:
            return T.csubst(c, self.sub)
        return c

    def assume(self, c):
        """add a condition (already decided feasible)"""
        c = self.cnorm(c)
        if c is True:
            return
        if c is False:
            self.pc = self.pc + (False,)
            return
        if c[0] == 'and':
            for x in c[1:]:
                self.assume(x)
            return
        if c in self.pc:
            return
        if c[0] == 'not' and c[1][0] == 'and':
            # conjuncts known to hold say nothing
            rest = [x for x in c[1][1:] if x not in self.pc]
            if len(rest) < len(c[1]) - 1:
                self.assume(c_not(c_and(*rest)))
                return
        self.pc = self.pc + (c,)
        if c[0] == 'le' and ('le', -c[1]) in self.pc:
            c = ('eq', c[1])
        if c[0] in ('eq', 'req'):
            self._solve(c)

    def _solve(self, c):
        p = c[1]
        if c[0] == 'req':
            # clear the denominators
            for a, e in [(a, e) for m, k in p.t for a, e in m if e < 0]:
                if any(b is a and f < 0 for m, k in p.t for b, f in m):
                    p = p * A(a)
        best = None
        for m, k in p.t:
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = m[0][0]
            rest = p - A(a) * k
            if a.kind != 'sym' and not (c[0] == 'req' and a.kind == 'rd') and not (
                    a.sort == 'i' and c[0] == 'eq' and (rest.is_const() or (k in (1, -1) and a.kind in ('div', 'mod')))):
                continue
            if a in T.free_atoms(rest):
                continue
            name = a.args[0] if a.kind == 'sym' else ''
            if a is Ra or a is Ca or a in self.nosolve:
                continue
            if c[0] == 'req' and a.sort == 'i':
                continue
            # prefer ghosts (names with !), then unit coefficients
            pref = 0
            if '!' in name:
                pref += 4
            if name.startswith('t!'):
                pref += 4
            if k in (1, -1):
                pref += 2
            if k not in (1, -1) and not name.startswith('t!'):
                continue
            if a.kind == 'rd':
                pref -= 1
            if name.startswith('$'):
                pref -= 1
            if best is None or pref > best[0]:
                best = (pref, a, k, rest)
        if best is None:
            return
        _, a, k, rest = best
        val = rest * (Fraction(-1) / k)
        mp = {a: val}
        ns = {}
        for x, v in self.sub.items():
            ns[x] = T.subst(v, mp)
        ns[a] = val
        self.sub = ns


# ------------------------------------------------------------------ executor
class Obligation:
    __slots__ = ("kind", "func", "line", "desc", "ok", "backend", "time", "detail")

    def __init__(self, kind, func, line, desc, ok, backend, t, detail=None):
        self.kind, self.func, self.line, self.desc = kind, func, line, desc
        self.ok, self.backend, self.time, self.detail = ok, backend, t, detail

    def asdict(self):
        return {k: getattr(self, k) for k in self.__slots__}


INT_TYPES = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short",
             "char", "signed char", "unsigned char", "long long", "unsigned long long",
             "_Bool", "size_t", "uint64_t", "int64_t", "uint32_t", "int32_t"}
UNSIGNED = {"unsigned int", "unsigned long", "unsigned short", "unsigned long long", "size_t", "uint64_t",
            "uint32_t", "unsigned char"}
REAL_TYPES = {"double", "float", "long double"}


WIDTH = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64}


def int_range(q):
    """smallest and largest value of an integer type"""
    if q == "_Bool":
        return 0, 1
    w = 8 if "char" in q else 16 if "short" in q else 64 if "long" in q or q in ("size_t", "uint64_t", "int64_t") else 32
    if q in UNSIGNED:
        return 0, (1 << w) - 1
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def ctype(t):
    """(class, qualtype) of a clang type dict"""
    q = t.get("desugaredQualType", t["qualType"])
    q0 = q
    for w in ("const ", "volatile ", "register "):
        q = q.replace(w, "")
    q = q.strip()
    if q.endswith("const"):
        q = q[:-5].strip()
    if q.endswith("restrict"):
        q = q[:-8].strip()
    if "vector_size" in q or "__vector" in q or "ext_vector_type" in q:
        if not q.endswith("*"):
            return "vec", q
    if q.endswith("]"):
        return "array", q
    if q.endswith("*") or q.endswith("*const") or "(*)" in q:
        return "ptr", q
    if q in INT_TYPES or q.startswith("enum "):
        return "int", q
    if q in REAL_TYPES:
        return "real", q
    if q == "void":
        return "void", q
    if "(" in q:
        return "func", q
    return "struct", q


class Executor:
    MAXDEPTH = 40

    def __init__(self, tus, contracts=None, opaque=()):
        self.tus = [F.load(t) for t in tus]
        self.contracts = contracts or {}
        self.regions = {}
        self.obls = []
        self.dry = 0
        self.counter = 0
        self.func_stack = []
        self.curline = None
        self.used_contracts = set()
        self.inlined = set()
        self.dropneg = False
        self.externals = set()
        self.deadline = None
        self.invariants = {}
        self.qcheap = 0
        self.rearranged = set()
        self.qviews = []
        self.loop_index = {}
        self.npaths = 0
        self.part = None
        self.assumptions = set()
        self.covers = {}
        self.self_contract = None
        self.hooks = {}
        self.fail_fast = False
        self.noproto = ()
        self.trackfree = False   # the contract tells which memory is released
        self.machine = False     # prove that no integer operation overflows
        self.probing = 0         # inside a trial run of a loop body
        self.early, self.chosen = {}, {}
        self.cur_tu = None
        self.bounded = False
        self.nofail = False
        self.sweepk = ()
        self.havoc_ok = set()
        self.scratch = set()

    # -------------------------------------------------------------- lookup
    def find_func(self, name):
        if self.cur_tu is not None and name in self.cur_tu.funcs:
            return self.cur_tu, self.cur_tu.funcs[name]
        for tu in self.tus:
            if name in tu.funcs:
                return tu, tu.funcs[name]
        if not name.startswith("$"):
            tu = F.where_defined(name)
            if tu is not None:
                return tu, tu.funcs[name]
        return None, None

    def newid(self, p):
        self.counter += 1
        return "%s#%d" % (p, self.counter)

    def region(self, name, **kw):
        r = Region(name, **kw)
        self.regions[name] = r
        return r

    # -------------------------------------------------------------- logic
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def decide(self, st, c):
        c = st.cnorm(c)
        if c is True or c is False:
            return c
        if c in st.pc:
            return True
        if c_not(c) in st.pc:
            return False
        if Z.entails(st.pc, c):
            return True
        if not Z.feasible(st.pc, c):
            return False
        return None

    def branch(self, st, c):
        """yields (bool, state)"""
        self.tick()
        c = st.cnorm(c)
        if c is True or c is False:
            yield c, st
            return
        if c in st.pc:
            yield True, st
            return
        nc = c_not(c)
        if nc in st.pc:
            yield False, st
            return
        t = Z.feasible(st.pc, c)
        f = Z.feasible(st.pc, nc)
        if t and not f:
            st.assume(c)
            yield True, st
        elif f and not t:
            st.assume(nc)
            yield False, st
        elif t and f:
            s2 = st.copy()
            st.assume(c)
            yield True, st
            s2.assume(nc)
            yield False, s2
        # neither: infeasible path

    def oblige(self, st, kind, c, desc):
        if self.dry:
            return
        t0 = time.time()
        c2 = st.cnorm(c)
        if c2 is True:
            ok, be = True, "normaliser"
        else:
            ok, be = False, None
            if isinstance(c2, tuple) and c2[0] == 'req':
                from .compare import zero
                ok, be = zero(st, c2[1])
            if not ok:
                ok, be = Z.entails(st.pc, c2), "z3"
        self._record(kind, desc, ok, be, time.time() - t0,
                     None if ok else self._explain(st, c2))

    def _explain(self, st, c):
        neg = c_not(c)
        try:
            sl = Z.slice_pc(st.pc, neg) if neg is not False else list(st.pc)
            r, m = Z.check_sat([x for x in sl] + [neg], want_model=True)
        except Exception as e:      # noqa
            return "no model (%s)" % e
        s = "goal: %s\npath: %s\nsolver: %s" % (T.cshow(c), " & ".join(T.cshow(x) for x in st.pc), r)
        if m is not None:
            try:
                s += "\nmodel: " + ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)
            except Exception:   # noqa
                pass
        return s

    def _record(self, kind, desc, ok, be, t, detail=None):
        if self.dry:
            return
        f = self.func_stack[-1] if self.func_stack else "?"
        self.obls.append(Obligation(kind, f, self.curline, desc, ok, be, t, detail))
        if not ok and self.fail_fast:
            raise Budget("first failed obligation")

    # -------------------------------------------------------------- memory
    def decode(self, st, reg, off):
        """row and column polynomials of an offset inside region reg"""
        r = self.regions[reg]
        off = st.norm(off)
        if r.ld is None:
            return off, T.ZERO
        ld = st.norm(r.ld)
        if ld.is_const():
            if off.is_const() and ld.const() > 0:
                q, m = divmod(off.const(), ld.const())
                return K(m), K(q)
            if ld.const() == 1:
                return T.ZERO, off      # rows <= ld == 1
            raise Unsupported("offset %s with constant leading dimension" % off)
        if len(ld.t) == 1 and len(ld.t[0][0]) == 1:
            a = ld.t[0][0][0][0]
            q, m = T.lin_coef_poly(off, a)
            if q is None:
                raise Unsupported("offset %s is not linear in the leading dimension %s" % (off, ld))
            return m, q
        raise Unsupported("leading dimension %s" % ld)

    def stride(self, st, reg, step):
        """(drow, dcol) of a stride"""
        return self.decode(st, reg, step)

    def bounds(self, st, reg, row, col, what):
        r = self.regions[reg]
        if self.dry:
            return
        cs = []
        if r.rows is not None:
            cs.append(c_ge(row, 0))
            cs.append(c_lt(row, r.rows))
        if r.cols is not None:
            cs.append(c_ge(col, 0))
            cs.append(c_lt(col, r.cols))
        if cs:
            self.oblige(st, "bounds", c_and(*cs), "%s of %s at (%s, %s) inside its operand" % (
                what, r.label, T.show(row)[:80], T.show(col)[:80]))

    def mread(self, st, reg, row, col):
        """yields (poly, state): content of region at (row,col)"""
        rs = st.mem[reg]
        yield from self._read(st, rs, len(rs.upd), row, col, self.regions[reg].sort)

    def _read(self, st, rs, n, row, col, sort):
        if n == 0:
            if rs.base is None:
                yield UNINIT, st
            else:
                v = T.rd(rs.base, row, col, sort)
                rg = st.objs.get("$range", {}).get((rs.base,))
                if rg is not None:
                    st.assume(c_and(c_ge(v, rg[0]), c_le(v, rg[1])))
                yield v, st
            return
        guard, val = rs.upd[n - 1]
        c = T.csubst(guard, {Ra: row, Ca: col})
        for b, s in self.branch(st, c):
            if b:
                if val is UNINIT:
                    yield UNINIT, s
                    continue
                v = T.subst(val, {Ra: row, Ca: col})
                yield from self._resolve_old(s, rs, n - 1, v, sort)
            else:
                yield from self._read(s, rs, n - 1, row, col, sort)

    def _resolve_old(self, st, rs, n, v, sort):
        old = None
        for a in T.free_atoms(v):
            if a.kind == 'rd' and a.args[0] == '$old' and not _has_bv(a):
                old = a
                break
        if old is None:
            yield v, st
            return
        for ov, s in self._read(st, rs, n, old.args[1], old.args[2], sort):
            if ov is UNINIT:
                yield UNINIT, s
                continue
            yield from self._resolve_old(s, rs, n, T.subst(v, {old: ov}), sort)

    def try_read(self, st, reg, row, col, extra=()):
        """single-valued read or None when it would need a case split"""
        rs = st.mem[reg]
        return self._try(st, rs, len(rs.upd), row, col, self.regions[reg].sort, extra)

    def _try(self, st, rs, n, row, col, sort, extra):
        while n > 0:
            guard, val = rs.upd[n - 1]
            c = st.cnorm(T.csubst(guard, {Ra: row, Ca: col}))
            if c is not True and c is not False:
                pc = st.pc + tuple(extra)
                if Z.entails(pc, c):
                    c = True
                elif not Z.feasible(pc, c):
                    c = False
                else:
                    # both ways the same value?
                    rest = None if val is UNINIT else self._try(st, rs, n - 1, row, col, sort, tuple(extra) + (T.c_not(c),))
                    v = None if rest is None else self._upd_value(st, rs, n, val, row, col, sort, tuple(extra) + (c,))
                    if v is None:
                        return None
                    from .compare import equal_polys
                    for w, x in ((v, T.c_not(c)), (rest, c)):
                        s = st.copy()
                        for y in tuple(extra) + (x,):
                            s.assume(y)
                        if equal_polys(s, v, rest):
                            return w
                    return None
            if c is True:
                return self._upd_value(st, rs, n, val, row, col, sort, extra)
            n -= 1
        if rs.base is None:
            return None
        return T.rd(rs.base, row, col, sort)

    def _upd_value(self, st, rs, n, val, row, col, sort, extra):
        if val is UNINIT:
            return None
        v = T.subst(val, {Ra: row, Ca: col})
        for a in list(T.free_atoms(v)):
            if a.kind == 'rd' and a.args[0] == '$old':
                if _has_bv(a):
                    return None
                o = self._try(st, rs, n - 1, a.args[1], a.args[2], sort, extra)
                if o is None:
                    return None
                v = T.subst(v, {a: o})
        return v

    def snapshot(self, st, reg):
        """a name for the current content of a region"""
        rs = st.mem[reg]
        if not rs.upd and rs.base is not None:
            return rs.base
        nm = self.newid("snap")
        st.snaps[nm] = (rs, self.regions[reg].sort)
        return nm

    def resolve_snaps(self, st, v):
        """yields (value, state) with snapshot reads replaced by contents"""
        hit = None
        for a in T.free_atoms(v):
            if a.kind == 'rd' and a.args[0] in st.snaps and not _has_bv(a):
                # innermost first
                if not any(b is not a and b.kind == 'rd' and b.args[0] in st.snaps
                           for b in T.atom_free(a)):
                    hit = a
                    break
        if hit is None:
            yield v, st
            return
        rs, sort = st.snaps[hit.args[0]]
        for x, s in self._read(st, rs, len(rs.upd), hit.args[1], hit.args[2], sort):
            if x is UNINIT:
                yield UNINIT, s
                continue
            yield from self.resolve_snaps(s, T.subst(v, {hit: x}))

    def mwrite(self, st, reg, row, col, val):
        rs = st.mem[reg]
        g = c_and(c_eq(R_, row), c_eq(C_, col))
        self._add_update(st, reg, g, val)

    def _add_update(self, st, reg, g, val):
        rs = st.mem[reg]
        upd = rs.upd
        # drop directly shadowed identical guard
        while upd and upd[-1][0] == g and (val is UNINIT or not _mentions_old(val)):
            upd = upd[:-1]
        if upd and upd[-1][0] == g and val is not UNINIT and upd[-1][1] is not UNINIT and _mentions_old(val):
            # compose when the only old reference is the same cell
            prev = upd[-1][1]
            o = T.mk_atom('rd', ('$old', R_, C_), self.regions[reg].sort)
            olds = [a for a in T.free_atoms(val) if a.kind == 'rd' and a.args[0] == '$old']
            if olds == [o]:
                val = T.subst(val, {o: prev})
                upd = upd[:-1]
        st.mem[reg] = RState(rs.base, upd + ((g, val),))

    # -------------------------------------------------------------- lvalues
    def load(self, st, loc):
        if loc[0] == 'v':
            yield loc[1], st
        elif loc[0] == 'o':
            v = st.objs.get(loc[1], {}).get(loc[2], None)
            if v is None:
                # aggregate?
                o = st.objs.get(loc[1])
                if o is None:
                    raise Unsupported("dangling object %s" % loc[1])
                n = len(loc[2])
                f = {p[n:]: x for p, x in o.items() if p[:n] == loc[2] and len(p) > n}
                if f:
                    yield StructVal(f), st
                    return
                v = UNINIT
            if v is UNINIT or v is UNKNOWN:
                if not self.dry:
                    self._record("init", "%s read before it is given a value" % (loc[2] or loc[1],), False, "symex", 0.0)
                v = T.fresh("uninit", 'r')
            yield v, st
        elif loc[0] == 'm':
            p = loc[1]
            row, col = self.decode(st, p.reg, p.off)
            self.bounds(st, p.reg, row, col, "read")
            for v, s in self.mread(st, p.reg, row, col):
                if v is UNINIT:
                    if not self.dry:
                        self._record("init", "uninitialised element of %s read" % self.regions[p.reg].label, False, "symex", 0.0)
                    v = T.fresh("uninit", self.regions[p.reg].sort)
                yield v, s
        else:
            raise Unsupported("load %r" % (loc,))

    def store(self, st, loc, v):
        if loc[0] == 'o':
            obj, path = loc[1], loc[2]
            if obj not in st.objs:
                raise Unsupported("store to dead object")
            if obj.startswith("slots.") and path and (path[0], '$sealed') in st.objs[obj]:
                self.oblige(st, "resource", False, "a scheduled task is not changed")
            if isinstance(v, StructVal):
                o = dict(st.objs[obj])
                n = len(path)
                for p in [p for p in o if p[:n] == path]:
                    del o[p]
                for p, x in v.f.items():
                    o[path + p] = x
                st.objs[obj] = o
            else:
                st.oset(obj, path, v)
        elif loc[0] == 'm':
            p = loc[1]
            row, col = self.decode(st, p.reg, p.off)
            if self.regions[p.reg].sort == 'ro':
                self._record("frame", "write to read-only %s" % self.regions[p.reg].label, False, "symex", 0)
            self.bounds(st, p.reg, row, col, "write")
            self.mwrite(st, p.reg, row, col, st.norm(v))
        else:
            raise Unsupported("store %r" % (loc,))

    def deref(self, p):
        if isinstance(p, OPtr):
            return ('o', p.obj, p.path)
        if isinstance(p, DPtr):
            return ('m', p)
        if p is NULL:
            raise NullDeref()
        raise Unsupported("dereference of %r" % (p,))

    def lval(self, e, st):
        """yields (loc, state)"""
        k = e["kind"]
        if k == "ParenExpr":
            yield from self.lval(e["inner"][0], st)
        elif k == "DeclRefExpr":
            d = e["referencedDecl"]
            oid = st.env.get(d["id"])
            if oid is None:
                oid = self.global_obj(d, st)
            if isinstance(oid, tuple):
                yield oid, st
            else:
                yield ('o', oid, ()), st
        elif k == "MemberExpr":
            nm = e.get("name", "")
            if e.get("isArrow"):
                for p, s in self.eval(e["inner"][0], st):
                    loc = self.null_deref(p, s)
                    if loc is None:
                        continue
                    if loc[0] != 'o':
                        raise Unsupported("member of data pointer")
                    yield ('o', loc[1], loc[2] + ((nm,) if nm else ())), s
            else:
                for loc, s in self.lval(e["inner"][0], st):
                    yield ('o', loc[1], loc[2] + ((nm,) if nm else ())), s
        elif k == "UnaryOperator" and e["opcode"] == "*":
            for p, s in self.eval(e["inner"][0], st):
                loc = self.null_deref(p, s)
                if loc is not None:
                    yield loc, s
        elif k == "ArraySubscriptExpr":
            for b, s in self.eval(e["inner"][0], st):
                for i, s2 in self.eval(e["inner"][1], s):
                    if isinstance(i, (DPtr, OPtr)):
                        b, i = i, b
                    if isinstance(b, Vec):
                        i = s2.norm(i)
                        if not i.is_const():
                            raise Unsupported("symbolic lane of a vector")
                        yield ('v', b.l[int(i.const())]), s2
                        continue
                    for j, s3 in self.index_cases(b, i, s2):
                        p = self.padd(b, j, s3)
                        loc = self.null_deref(p, s3)
                        if loc is not None:
                            yield loc, s3
        elif k in ("ImplicitCastExpr", "CStyleCastExpr"):
            yield from self.lval(e["inner"][0], st)
        elif k == "CompoundLiteralExpr":
            oid = self.newid("lit")
            st.objs[oid] = {}
            for s in self.init_obj(st, oid, (), e["type"], e["inner"][0]):
                yield ('o', oid, ()), s
        elif k == "CallExpr":
            # struct returned by value used as lvalue base
            for v, s in self.eval(e, st):
                oid = self.newid("ret")
                s.objs[oid] = {}
                self.store(s, ('o', oid, ()), v)
                yield ('o', oid, ()), s
        else:
            raise Unsupported("lvalue %s" % k)

    def null_deref(self, p, st):
        try:
            return self.deref(p)
        except NullDeref:
            if not self.dry:
                self.oblige(st, "null", False, "pointer is not NULL where it is dereferenced")
            return None

    def index_cases(self, b, i, st):
        """a symbolic index into a small constant table, case by case"""
        if not (isinstance(b, OPtr) and b.path and isinstance(b.path[-1], int) and isinstance(i, Poly)):
            yield i, st
            return
        i = st.norm(i)
        if i.is_const():
            yield i, st
            return
        n = len(b.path) - 1
        ks = sorted({p[n] for p in st.objs.get(b.obj, {}) if len(p) > n and p[:n] == b.path[:-1] and isinstance(p[n], int)})
        if not ks or len(ks) > 16:
            raise Unsupported("symbolic index into local aggregate array")
        ks = [k - b.path[-1] for k in ks]
        self.oblige(st, "bounds", c_and(c_ge(i, ks[0]), c_le(i, ks[-1])), "index into %s inside the table" % b.obj)
        for k in ks:
            s = st.copy()
            s.assume(c_eq(i, k))
            if Z.check_sat(list(s.pc))[0] != 'unsat':
                yield K(k), s

    def padd(self, p, i, st=None):
        if isinstance(i, tuple) or isinstance(i, bool):
            raise Unsupported("pointer plus condition")
        if isinstance(p, DPtr):
            return DPtr(p.reg, p.off + i)
        if isinstance(p, OPtr):
            i2 = st.norm(i) if st else i
            if p.obj.startswith("slots.") and p.path == ():
                # an array of structures
                return OPtr(p.obj, (('#', i2),))
            if not i2.is_const():
                raise Unsupported("symbolic index into local aggregate array")
            c = i2.const()
            if p.path and isinstance(p.path[-1], int):
                return OPtr(p.obj, p.path[:-1] + (p.path[-1] + c,))
            if c == 0:
                return p
            return OPtr(p.obj, p.path + (c,))
        if p is NULL:
            return NULL
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def global_obj(self, d, st):
        """object id of a global variable; constants take their initialiser"""
        gid = d["id"]
        key = "g:" + d["name"]
        if key in st.objs:
            return key
        for tu in self.tus:
            n = tu.globals.get(gid)
            if n is None:
                continue
            kind, q = ctype(n["type"])
            if kind == "array":
                return self.global_array(n, st)
            st.objs[key] = {}
            init = [c for c in n.get("inner", []) if "Attr" not in c["kind"]]
            const = "const" in n["type"]["qualType"]
            if init and const:
                for s in self.init_obj(st, key, (), n["type"], init[0]):
                    pass
            else:
                hook = self.hooks.get("global")
                if hook is None or not hook(self, st, d["name"], key, n):
                    if init and n.get("storageClass") == "static" and False:
                        pass
                    else:
                        raise Unsupported("mutable global %s" % d["name"])
            return key
        # function?
        raise Unsupported("unknown global %s" % d.get("name"))

    def global_array(self, n, st):
        key = "g:" + n["name"]
        if key in st.objs:
            return key
        init = [c for c in n.get("inner", []) if "Attr" not in c["kind"]]
        if not init or "const" not in n["type"]["qualType"]:
            raise Unsupported("mutable global array %s" % n["name"])
        st.objs[key] = {}
        for s in self.init_obj(st, key, (), n["type"], init[0]):
            pass
        return key

    # -------------------------------------------------------------- expressions
    def as_num(self, v, st):
        """conditions to 0/1"""
        if v is True:
            yield T.ONE, st
        elif v is False:
            yield T.ZERO, st
        elif isinstance(v, tuple):
            for b, s in self.branch(st, v):
                yield (T.ONE if b else T.ZERO), s
        else:
            yield v, st

    def eval(self, e, st):
        for v, s in self.evalx(e, st):
            if isinstance(v, (bool, tuple)):
                yield from self.as_num(v, s)
            else:
                yield v, s

    def evalx(self, e, st):
        """yields (value-or-condition, state)"""
        k = e["kind"]
        if k in ("ParenExpr", "ConstantExpr"):
            yield from self.evalx(e["inner"][0], st)
        elif k == "ImplicitCastExpr":
            yield from self.cast(e, st)
        elif k == "CStyleCastExpr":
            yield from self.cast(e, st)
        elif k == "IntegerLiteral":
            yield K(int(e["value"])), st
        elif k == "CharacterLiteral":
            yield K(int(e["value"])), st
        elif k == "FloatingLiteral":
            yield K(Fraction(float(e["value"]))), st
        elif k == "StringLiteral":
            yield Str(e.get("value", "")), st
        elif k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["kind"] == "EnumConstantDecl":
                for tu in self.tus:
                    if d["id"] in tu.enums:
                        yield K(tu.enums[d["id"]]), st
                        return
                for tu in self.tus:
                    if d["name"] in tu.enums:
                        yield K(tu.enums[d["name"]]), st
                        return
                raise Unsupported("enum %s" % d["name"])
            if d["kind"] == "FunctionDecl":
                yield FPtr(F.short(d["name"])), st
                return
            for loc, s in self.lval(e, st):
                yield from self.load(s, loc)
        elif k in ("MemberExpr", "ArraySubscriptExpr"):
            for loc, s in self.lval(e, st):
                yield from self.load(s, loc)
        elif k == "UnaryOperator":
            yield from self.unary(e, st)
        elif k == "BinaryOperator":
            yield from self.binary(e, st)
        elif k == "CompoundAssignOperator":
            yield from self.compound(e, st)
        elif k == "ConditionalOperator":
            for b, s in self.cond(e["inner"][0], st):
                yield from self.evalx(e["inner"][1 if b else 2], s)
        elif k == "CallExpr":
            yield from self.call(e, st)
        elif k == "UnaryExprOrTypeTraitExpr":
            yield self.sizeof(e), st
        elif k == "InitListExpr":
            oid = self.newid("il")
            st.objs[oid] = {}
            for s in self.init_obj(st, oid, (), e["type"], e):
                f = s.objs.pop(oid)
                yield StructVal({p: v for p, v in f.items()}), s
        elif k == "CompoundLiteralExpr":
            for loc, s in self.lval(e, st):
                yield from self.load(s, loc)
        elif k == "StmtExpr":
            # only as assert() uses it: for its effect
            for o, s in self.exec(e["inner"][0], st):
                if o is not None:
                    raise Unsupported("jump out of a statement expression")
                yield T.ZERO, s
        elif k == "PredefinedExpr":
            yield Str("func"), st
        elif k == "ImplicitValueInitExpr":
            kind, q = ctype(e["type"])
            yield (NULL if kind == "ptr" else T.ZERO), st
        elif k == "OffsetOfExpr":
            raise Unsupported("offsetof")
        else:
            raise Unsupported("expression %s" % k)

    def sizeof(self, e):
        t = e.get("argType")
        if t is None:
            t = e["inner"][0]["type"]
        kind, q = ctype(t)
        return K(self.type_size(kind, q))

    def type_size(self, kind, q):
        if kind == "real":
            return {"double": 8, "float": 4, "long double": 16}[q]
        if kind == "int":
            if "char" in q or q == "_Bool":
                return 1
            if "short" in q:
                return 2
            if "long" in q or q in ("size_t", "uint64_t", "int64_t"):
                return 8
            return 4
        if kind == "ptr":
            return 8
        if kind == "array":
            el, n = q.rstrip("]").rsplit("[", 1)
            k2, q2 = ctype({"qualType": el.strip()})
            return int(n) * self.type_size(k2, q2)
        if kind == "vec":
            return 32
        fs = None
        for tu in self.tus:
            fs = F.record_fields(tu, q)
            if fs:
                break
        if fs:
            tot = 0
            al = 1
            for n, t in fs:
                k2, q2 = ctype(t)
                s = self.type_size(k2, q2)
                a = min(s, 8)
                tot = (tot + a - 1) // a * a + s
                al = max(al, a)
            return (tot + al - 1) // al * al
        raise Unsupported("sizeof %s" % q)

    def cast(self, e, st):
        ck = e.get("castKind")
        sub = e["inner"][0]
        if ck == "LValueToRValue":
            for loc, s in self.lval(sub, st):
                yield from self.load(s, loc)
            return
        if ck in ("NoOp", "BitCast", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ToVoid"):
            yield from self.evalx(sub, st)
            return
        if ck == "ArrayToPointerDecay":
            if sub["kind"] == "StringLiteral":
                yield Str(sub.get("value", "")), st
                return
            for loc, s in self.lval(sub, st):
                if loc[0] == 'o':
                    rg = s.objs[loc[1]].get(loc[2] + ('$reg',))
                    if rg is not None:
                        yield rg, s
                        continue
                    yield OPtr(loc[1], loc[2] + (0,)), s
                else:
                    yield loc[1], s
            return
        if ck == "NullToPointer":
            yield NULL, st
            return
        if ck in ("IntegralCast",):
            for v, s in self.evalx(sub, st):
                kt, qt = ctype(e["type"])
                ks, qs = ctype(sub["type"])
                if isinstance(v, Poly) and v.is_const() and v.const() < 0 and qt in WIDTH:
                    yield K(v.const() + (1 << WIDTH[qt])), s
                    continue
                if self.machine and isinstance(v, Poly) and not self.dry:
                    if int_range(qt)[0] > int_range(qs)[0] or int_range(qt)[1] < int_range(qs)[1]:
                        self.fits(s, v, qt, "converted value")
                elif isinstance(v, Poly) and qt in UNSIGNED and qs not in UNSIGNED and not (v.is_const() and v.const() >= 0):
                    if not self.dry and not self.bounded and e.get("type", {}).get("qualType") not in ("_Bool",):
                        self.oblige(s, "conversion", c_ge(v, 0),
                                    "value converted to %s is not negative" % qt)
                yield v, s
            return
        if ck in ("IntegralToFloating", "FloatingCast"):
            for v, s in self.eval(sub, st):
                if isinstance(v, Flags):
                    raise Unsupported("flags to float")
                yield v, s
            return
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            for b, s in self.cond(sub, st):
                yield (T.ONE if b else T.ZERO), s
            return
        if ck == "FloatingToIntegral":
            for v, s in self.eval(sub, st):
                if v.is_const():
                    yield K(int(v.const())), s
                else:
                    # truncation: an uninterpreted integer of the real value
                    if ctype(e["type"])[1] in UNSIGNED and not self.dry and not self.bounded:
                        self.oblige(s, "conversion", c_rle(T.ZERO, v), "a value converted to an unsigned type is not negative")
                    if all(c.denominator == 1 for _, c in v.t) and all(a.sort == 'i' for a in v.atoms()):
                        yield v, s
                    else:
                        t = A(T.mk_atom('uf', ('trunc', v), 'i'))
                        s.assume(c_or(c_rlt(v, T.ZERO), c_and(c_ge(t, 0), c_rle(t, v))))
                        yield t, s
            return
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            for v, s in self.evalx(sub, st):
                if isinstance(v, Poly) and v.is_const() and v.const() == 0:
                    v = NULL
                if ck == "PointerToIntegral" and isinstance(v, DPtr) and ctype(e["type"])[0] == "int":
                    v = T.sym("addr." + v.reg) + v.off * self.regions[v.reg].esize
                yield v, s
            return
        raise Unsupported("cast %s" % ck)

    def truth(self, v):
        """condition for a value being nonzero"""
        if isinstance(v, (bool, tuple)):
            return v
        if isinstance(v, Flags):
            return v.nonzero()
        if isinstance(v, Poly):
            if Z.poly_sort(v) == 'r':
                return c_not(c_req(v, 0))
            return c_not(c_eq(v, 0))
        if v is NULL:
            return False
        if isinstance(v, (DPtr, OPtr, FPtr, Str)):
            return True
        raise Unsupported("truth of %r" % (v,))

    def cond(self, e, st):
        """yields (bool, state)"""
        k = e["kind"]
        if k in ("ParenExpr", "ConstantExpr"):
            yield from self.cond(e["inner"][0], st)
            return
        if k == "BinaryOperator" and e["opcode"] == "&&":
            for b, s in self.cond(e["inner"][0], st):
                if not b:
                    yield False, s
                else:
                    yield from self.cond(e["inner"][1], s)
            return
        if k == "BinaryOperator" and e["opcode"] == "||":
            for b, s in self.cond(e["inner"][0], st):
                if b:
                    yield True, s
                else:
                    yield from self.cond(e["inner"][1], s)
            return
        if k == "UnaryOperator" and e["opcode"] == "!":
            for b, s in self.cond(e["inner"][0], st):
                yield (not b), s
            return
        if k == "ImplicitCastExpr" and e.get("castKind") in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            yield from self.cond(e["inner"][0], st)
            return
        for v, s in self.evalx(e, st):
            yield from self.branch(s, self.truth(v))

    def unary(self, e, st):
        op = e["opcode"]
        sub = e["inner"][0]
        if op == "&":
            x = sub
            while x["kind"] == "ParenExpr":
                x = x["inner"][0]
            if x["kind"] == "ArraySubscriptExpr":
                # the address of an element is not an access to it
                for b, s in self.eval(x["inner"][0], st):
                    for i, s2 in self.eval(x["inner"][1], s):
                        if isinstance(i, (DPtr, OPtr)):
                            b, i = i, b
                        if b is NULL:
                            self.oblige(s2, "null", c_eq(i, 0), "no offset is added to NULL")
                            yield NULL, s2
                            continue
                        for j, s3 in self.index_cases(b, i, s2):
                            yield self.padd(b, j, s3), s3
                return
            for loc, s in self.lval(sub, st):
                if loc[0] == 'o':
                    if sub["kind"] == "DeclRefExpr" and sub["referencedDecl"]["kind"] == "FunctionDecl":
                        yield FPtr(F.short(sub["referencedDecl"]["name"])), s
                    else:
                        yield OPtr(loc[1], loc[2]), s
                else:
                    yield loc[1], s
            return
        if op == "*":
            for loc, s in self.lval(e, st):
                yield from self.load(s, loc)
            return
        if op in ("++", "--"):
            post = e.get("isPostfix", False)
            for loc, s in self.lval(sub, st):
                for v, s2 in self.load(s, loc):
                    d = K(1 if op == "++" else -1)
                    if isinstance(v, (DPtr, OPtr)):
                        n = self.padd(v, d, s2)
                    elif isinstance(v, Poly):
                        n = v + d
                        if self.machine and ctype(e["type"])[0] == "int" and not self.dry:
                            self.fits(s2, n, ctype(e["type"])[1], "result of " + op)
                    else:
                        raise Unsupported("++ on %r" % (v,))
                    self.store(s2, loc, n)
                    yield (v if post else n), s2
            return
        if op == "!":
            for v, s in self.evalx(sub, st):
                yield c_not(self.truth(v)), s
            return
        for v, s in self.eval(sub, st):
            if op == "-":
                if isinstance(v, Vec):
                    yield Vec([-x for x in v.l]), s
                else:
                    yield -v, s
            elif op == "+":
                yield v, s
            elif op == "~":
                if isinstance(v, Poly) and v.is_const():
                    yield K(~v.const()), s
                else:
                    raise Unsupported("~ of symbolic value")
            elif op == "__extension__":
                yield v, s
            else:
                raise Unsupported("unary %s" % op)

    def binary(self, e, st):
        op = e["opcode"]
        l, r = e["inner"]
        if op == ",":
            for _, s in self.evalx(l, st):
                yield from self.evalx(r, s)
            return
        if op in ("&&", "||"):
            for b, s in self.cond(e, st):
                yield b, s
            return
        if op == "=":
            kind, q = ctype(l["type"])
            for v, s in self.eval(r, st):
                for loc, s2 in self.lval(l, s):
                    self.curline = F.line_of(e) or self.curline
                    self.store(s2, loc, v)
                    yield v, s2
            return
        for a, s in self.evalx(l, st):
            for b, s2 in self.evalx(r, s):
                for x, s3 in self.as_num(a, s2) if not isinstance(a, Flags) else [(a, s2)]:
                    for y, s4 in self.as_num(b, s3) if not isinstance(b, Flags) else [(b, s3)]:
                        yield from self.binop(op, x, y, e, s4)

    def compound(self, e, st):
        op = e["opcode"][:-1]
        l, r = e["inner"]
        for b, s in self.eval(r, st):
            for loc, s2 in self.lval(l, s):
                for a, s3 in self.load(s2, loc):
                    for v, s4 in self.binop(op, a, b, e, s3):
                        for v2, s5 in self.as_num(v, s4):
                            self.curline = F.line_of(e) or self.curline
                            self.store(s5, loc, v2)
                            yield v2, s5

    def binop(self, op, a, b, e, st):
        kind, q = ctype(e["type"])
        if isinstance(a, Vec) or isinstance(b, Vec):
            if isinstance(a, Vec) and isinstance(b, Vec):
                f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                     "/": lambda x, y: x * T.mk_inv(y)}.get(op)
                if f:
                    yield Vec([f(x, y) for x, y in zip(a.l, b.l)]), st
                    return
            raise Unsupported("vector op %s" % op)
        # pointers
        if isinstance(a, (DPtr, OPtr, FPtr, _Null, Str)) or isinstance(b, (DPtr, OPtr, FPtr, _Null, Str)):
            yield from self.ptrop(op, a, b, st)
            return
        if isinstance(a, Flags) or isinstance(b, Flags):
            yield from self.flagop(op, a, b, st)
            return
        if op in ("==", "!=", "<", ">", "<=", ">="):
            real = ctype(e["inner"][0]["type"])[0] == "real" or Z.poly_sort(a) == 'r' or Z.poly_sort(b) == 'r'
            if op == "==":
                c = c_req(a, b) if real else c_eq(a, b)
            elif op == "!=":
                c = c_not(c_req(a, b) if real else c_eq(a, b))
            elif op == "<":
                c = c_rlt(a, b) if real else c_lt(a, b)
            elif op == ">":
                c = c_rlt(b, a) if real else c_lt(b, a)
            elif op == "<=":
                c = c_rle(a, b) if real else c_le(a, b)
            else:
                c = c_rle(b, a) if real else c_le(b, a)
            yield c, st
            return
        if self.machine and kind == "int" and op in "+-*" and not self.dry:
            self.fits(st, {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op](), q, "result of %s" % op)
        if op == "+":
            yield a + b, st
        elif op == "-":
            r = a - b
            if self.machine:
                pass
            elif kind == "int" and q in UNSIGNED and not r.is_const() and not self.dry and not self.bounded:
                self.oblige(st, "conversion", c_ge(r, 0), "unsigned difference does not wrap")
            yield r, st
        elif op == "*":
            yield a * b, st
        elif op == "/":
            if kind == "real":
                if b.is_const() and b.const() == 0:
                    yield a * T.mk_inv(b), st
                    return
                yield a * T.mk_inv(st.norm(b)), st
                return
            yield from self.intdiv(a, b, st)
        elif op == "%":
            for q_, s in self.intdiv(a, b, st):
                yield a - q_ * b, s
        elif op == "<<":
            if b.is_const():
                yield a * (1 << b.const()), st
            else:
                raise Unsupported("<< by symbolic amount")
        elif op == ">>":
            if b.is_const():
                for c, s in self.branch(st, c_ge(a, 0)):
                    if not c:
                        raise Unsupported(">> of negative value")
                    yield T.idiv(a, 1 << b.const()), s
            else:
                raise Unsupported(">> by symbolic amount")
        elif op == "&":
            if a.is_const() and b.is_const():
                yield K(a.const() & b.const()), st
                return
            if a.is_const():
                a, b = b, a
            if b.is_const():
                m = b.const()
                if m < 0:
                    m &= 0xffffffffffffffff
                # low mask
                if m & (m + 1) == 0:
                    yield T.imod(a, m + 1), st
                    return
                inv = (~m) & 0xffffffff
                if inv & (inv + 1) == 0:
                    yield a - T.imod(a, inv + 1), st
                    return
            raise Unsupported("& with %s" % b)
        elif op in ("|", "^"):
            if a.is_const() and b.is_const():
                yield K(a.const() | b.const() if op == "|" else a.const() ^ b.const()), st
                return
            raise Unsupported("%s of symbolic integers" % op)
        else:
            raise Unsupported("binary %s" % op)

    def fits(self, st, r, q, what):
        """integer obligation: the value is one of the type's"""
        if r.is_const() and int_range(q)[0] <= r.const() <= int_range(q)[1]:
            return
        lo, hi = int_range(q)
        self.oblige(st, "overflow", c_and(c_ge(r, lo), c_le(r, hi)), "%s fits %s" % (what, q))

    def intdiv(self, a, b, st):
        a = st.norm(a)
        b = st.norm(b)
        if a.is_const() and b.is_const() and b.const() != 0:
            x, y = a.const(), b.const()
            q = abs(x) // abs(y)
            yield K(q if (x < 0) == (y < 0) else -q), st
            return
        if not b.is_const():
            self.oblige(st, "division", c_not(c_eq(b, 0)), "integer divisor is not zero")
        for pa, s in self.branch(st, c_ge(a, 0)):
            for pb, s2 in self.branch(s, c_ge(b, 0)):
                if pa and pb:
                    yield T.idiv(a, b), s2
                elif pb:
                    yield -T.idiv(-a, b), s2
                elif pa:
                    yield -T.idiv(a, -b), s2
                else:
                    yield T.idiv(-a, -b), s2

    def ptrop(self, op, a, b, st):
        if op in ("==", "!="):
            def isnull(x):
                return x is NULL or (isinstance(x, Poly) and x.is_const() and x.const() == 0)
            if isnull(a) or isnull(b):
                r = isnull(a) and isnull(b)
            elif isinstance(a, DPtr) and isinstance(b, DPtr):
                if a.reg == b.reg:
                    c = c_eq(a.off, b.off)
                    yield (c if op == "==" else c_not(c)), st
                    return
                r = False
            else:
                r = a == b
            yield (r if op == "==" else not r), st
            return
        if op == "+":
            if isinstance(b, (DPtr, OPtr)):
                a, b = b, a
            yield self.padd(a, b, st), st
            return
        if op == "-":
            if isinstance(a, DPtr) and isinstance(b, DPtr):
                if a.reg != b.reg:
                    raise Unsupported("difference of unrelated pointers")
                yield a.off - b.off, st
                return
            yield self.padd(a, -b, st), st
            return
        if op in ("<", ">", "<=", ">=") and isinstance(a, DPtr) and isinstance(b, DPtr) and a.reg == b.reg:
            f = {"<": c_lt, ">": c_gt, "<=": c_le, ">=": c_ge}[op]
            yield f(a.off, b.off), st
            return
        raise Unsupported("pointer operation %s on %r, %r" % (op, a, b))

    def flagop(self, op, a, b, st):
        if isinstance(b, Flags) and not isinstance(a, Flags):
            a, b = b, a
        if isinstance(b, Poly) and b.is_const():
            m = b.const()
            if op == "&":
                yield a.and_(m), st
                return
            if op == "|":
                yield a.or_(m), st
                return
            if op == "^":
                yield a.xor_(m), st
                return
            if op == "==":
                yield a.equals(m), st
                return
            if op == "!=":
                yield c_not(a.equals(m)), st
                return
        if isinstance(b, Poly) and op in ("|", "&", "^", "==", "!="):
            raise Unsupported("flags with symbolic value")
        if isinstance(b, Flags) and op in ("==", "!="):
            cs = []
            for k in range(32):
                x, y = a.bit(k), b.bit(k)
                if x == y:
                    continue
                cs.append(c_or(c_and(x, y), c_and(c_not(x), c_not(y))))
            c = c_and(*cs)
            yield (c if op == "==" else c_not(c)), st
            return
        if isinstance(b, Flags) and op in ("|", "&"):
            # decide the bits of b one by one
            mask = (b.am | b.om | b.xm)
            bits = [k for k in range(32) if mask >> k & 1]
            if len(bits) > 12:
                raise Unsupported("flags %s flags" % op)
            yield from self._flagconst(op, a, b, bits, 0, st)
            return
        raise Unsupported("flag operation %s" % op)

    def _flagconst(self, op, a, b, bits, acc, st):
        if not bits:
            yield from self.flagop(op, a, K(acc), st)
            return
        k = bits[0]
        for v, s in self.branch(st, b.bit(k)):
            yield from self._flagconst(op, a, b, bits[1:], acc | ((1 << k) if v else 0), s)

    # -------------------------------------------------------------- calls
    def call(self, e, st):
        callee = e["inner"][0]
        args = e["inner"][1:]
        fn = None
        c = callee
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr", "UnaryOperator"):
            c = c["inner"][0]
        if c["kind"] == "DeclRefExpr" and c["referencedDecl"]["kind"] == "FunctionDecl":
            name = F.short(c["referencedDecl"]["name"])
            yield from self._call_args(name, args, [], st, e)
            return
        for fv, s in self.eval(callee, st):
            if isinstance(fv, FPtr):
                yield from self._call_args(fv.name, args, [], s, e)
            else:
                raise Unsupported("call through %r" % (fv,))

    def _call_args(self, name, args, vals, st, e):
        if len(vals) == len(args):
            yield from self.do_call(name, vals, st, e)
            return
        if name in ("armas_conf_default", ):
            pass
        for v, s in self.eval(args[len(vals)], st):
            yield from self._call_args(name, args, vals + [v], s, e)

    def do_call(self, name, vals, st, e):
        self.tick()
        from . import intrinsics
        if name in intrinsics.TABLE and name not in self.noproto:
            yield from intrinsics.TABLE[name](self, st, vals, e)
            return
        ct = None
        if self.cur_tu is not None:
            name = self.cur_tu.alias.get(name, name)
            ct = self.contracts.get(self.cur_tu.path + ":" + name)
        if ct is None:
            ct = self.contracts.get(name)
        cvals = vals
        if ct is not None and len(ct.params) == len(vals):
            if self.cur_tu is not None and name in self.cur_tu.perm:
                vals = [vals[i] for i in self.cur_tu.perm[name]]
            self.used_contracts.add(ct.key)
            line = self.curline
            self.curline = F.line_of(e) or self.curline
            # contracts speak about operands of non-negative size; anything
            # else is executed from its body
            small = ct.small(self, st, vals)
            if self.dry and small is not True:
                # a guess is being made: it is checked without this later
                if Z.feasible(st.pc, st.cnorm(small)):
                    st.assume(small)
                    small = True
                elif self.dropneg:
                    return
            for ok, s in self.branch(st, small):
                if ok:
                    yield from ct.apply(self, s, vals, e)
                else:
                    tu, fn = self.find_func(name)
                    if fn is None:
                        self._record("precondition", "%s is called with operands of non-negative size" % name, False,
                                     "z3", 0, self._explain(s, False))
                    else:
                        yield from self.inline(name, tu, fn, cvals, s)
            return
        tu, fn = self.find_func(name)
        if fn is None:
            # C++-style function pointer parameter values
            if name.startswith("$fn:"):
                yield T.uf(name[1:], [v for v in vals if isinstance(v, Poly)]), st
                return
            raise Unsupported("no body or contract for %s" % name)
        yield from self.inline(name, tu, fn, vals, st)

    def inline(self, name, tu, fn, vals, st):
        if st.depth > self.MAXDEPTH or self.func_stack.count(name) > 1:
            raise Unsupported("recursion through %s without a contract" % name)
        self.inlined.add(name)
        senv = st.env
        stu = self.cur_tu
        st.env = {}
        st.depth += 1
        before = set(st.objs)
        ps = F.params_of(fn)
        for p, v in zip(ps, vals):
            oid = self.newid("p." + p.get("name", "_"))
            st.objs[oid] = {}
            st.env[p["id"]] = oid
            self.store(st, ('o', oid, ()), v)
        self.cur_tu = tu
        self.func_stack.append(name)
        sline = self.curline
        for o, s in self.exec(F.body_of(fn), st):
            self.func_stack.pop()
            self.cur_tu = stu
            if o is None:
                rv = T.ZERO
            elif o[0] == 'return':
                rv = o[1]
            else:
                raise Unsupported("outcome %r leaves %s" % (o, name))
            s.env = senv
            s.depth -= 1
            keep = _reach(rv, s)
            s.objs = {k: v for k, v in s.objs.items() if k in before or k in keep or k.startswith(("g:", "$", "heapobj"))}
            cl = self.curline
            self.curline = sline
            yield rv, s
            self.curline = cl
            self.func_stack.append(name)
            self.cur_tu = tu
        self.func_stack.pop()
        self.cur_tu = stu
        self.curline = sline

    # -------------------------------------------------------------- statements
    def exec(self, n, st):
        """yields (outcome, state)"""
        k = n["kind"]
        ln = F.line_of(n)
        if ln:
            self.curline = ln
        if k == "CompoundStmt":
            yield from self.exec_list(n.get("inner", []), 0, st)
        elif k == "DeclStmt":
            yield from self.exec_decls(n["inner"], 0, st)
        elif k == "NullStmt":
            yield None, st
        elif k == "ReturnStmt":
            if n.get("inner"):
                for v, s in self.eval(n["inner"][0], st):
                    yield ('return', v), s
            else:
                yield ('return', None), st
        elif k == "IfStmt":
            inner = n["inner"]
            yield from self.merge_outcomes(self._if(inner, st), st) if self.merge_ifs else self._if(inner, st)
        elif k == "ForStmt":
            init, condvar, cnd, inc, body = (n["inner"] + [{}] * 5)[:5]
            if init and init.get("kind"):
                for o, s in self.exec(init, st):
                    yield from self.loop(n, s, cnd if cnd.get("kind") else None, body,
                                         inc if inc.get("kind") else None, False)
            else:
                yield from self.loop(n, st, cnd if cnd.get("kind") else None, body,
                                     inc if inc.get("kind") else None, False)
        elif k == "WhileStmt":
            yield from self.loop(n, st, n["inner"][0], n["inner"][1], None, False)
        elif k == "DoStmt":
            b, c = n["inner"]
            if _const_zero(c):
                for o, s in self.exec(b, st):
                    if o is not None and o[0] in ('break', 'continue'):
                        o = None
                    yield o, s
                return
            yield from self.loop(n, st, c, b, None, True)
        elif k == "SwitchStmt":
            yield from self.switch(n, st)
        elif k in ("CaseStmt", "DefaultStmt"):
            yield from self.exec(n["inner"][-1], st)
        elif k == "BreakStmt":
            yield ('break',), st
        elif k == "ContinueStmt":
            yield ('continue',), st
        elif k == "GotoStmt":
            yield ('goto', n["targetLabelDeclId"]), st
        elif k == "LabelStmt":
            yield from self.exec(n["inner"][0], st)
        elif k in ("AttributedStmt",):
            yield from self.exec(n["inner"][-1], st)
        else:
            # expression statement
            for v, s in self.evalx(n, st):
                yield None, s

    merge_ifs = False

    def _if(self, inner, st):
        for b, s in self.cond(inner[0], st):
            if b:
                yield from self.exec(inner[1], s)
            elif len(inner) > 2:
                yield from self.exec(inner[2], s)
            else:
                yield None, s

    def exec_list(self, stmts, i, st):
        while i < len(stmts):
            s0 = stmts[i]
            outs = None
            gen = self.exec(s0, st)
            first = None
            # avoid deep recursion on the common single-successor case
            results = gen
            nxt = []
            it = iter(results)
            try:
                o, s = next(it)
            except StopIteration:
                return
            try:
                o2, s2 = next(it)
            except StopIteration:
                # single result
                if o is None:
                    i += 1
                    st = s
                    continue
                if o[0] == 'goto':
                    j = _find_label(stmts, o[1])
                    if j is not None:
                        if j <= i:
                            raise Unsupported("backward goto")
                        i = j
                        st = s
                        continue
                yield o, s
                return
            # several successors
            def allres():
                yield o, s
                yield o2, s2
                yield from it
            for oo, ss in allres():
                if oo is None:
                    yield from self.exec_list(stmts, i + 1, ss)
                elif oo[0] == 'goto':
                    j = _find_label(stmts, oo[1])
                    if j is None:
                        yield oo, ss
                    elif j <= i:
                        raise Unsupported("backward goto")
                    else:
                        yield from self.exec_list(stmts, j, ss)
                else:
                    yield oo, ss
            return
        yield None, st

    def exec_decls(self, ds, i, st):
        if i == len(ds):
            yield None, st
            return
        d = ds[i]
        if d["kind"] != "VarDecl":
            yield from self.exec_decls(ds, i + 1, st)
            return
        oid = self.newid(d["name"])
        st.objs[oid] = {}
        st.env[d["id"]] = oid
        init = [c for c in d.get("inner", []) if "Attr" not in c["kind"]]
        kind, q = ctype(d["type"])
        if kind == "array" and _elem_kind(q) in ("real", "int"):
            # scalar array: a flat region
            dims = [int(x) for x in q[q.index("["):].replace("]", " ").replace("[", " ").split()] if q.count("[]") == 0 else [None]
            n = 1
            for x in dims:
                n = n * x if x is not None else 0
            rn = self.newid("arr." + d["name"])
            self.region(rn, ld=None, rows=K(n), cols=K(1), sort='r' if _elem_kind(q) == 'real' else 'i', label=d["name"])
            st.mem[rn] = RState(None, ())
            st.objs[oid] = {('$reg',): DPtr(rn, T.ZERO)}
            if init:
                for s in self.init_array(st, rn, init[0]):
                    yield from self.exec_decls(ds, i + 1, s)
                return
            yield from self.exec_decls(ds, i + 1, st)
            return
        if init:
            for s in self.init_obj(st, oid, (), d["type"], init[0]):
                yield from self.exec_decls(ds, i + 1, s)
        else:
            yield from self.exec_decls(ds, i + 1, st)

    def init_array(self, st, rn, e):
        if e["kind"] != "InitListExpr":
            raise Unsupported("array initialiser")
        states = [st]
        items = e.get("inner", e.get("array_filler", []))
        reg = self.regions[rn]
        st.mem[rn] = RState(None, (((c_and(c_ge(R_, 0), c_lt(R_, reg.rows))), T.ZERO),))
        for j, it in enumerate([x for x in items if x["kind"] != "ImplicitValueInitExpr"]):
            ns = []
            for s in states:
                for v, s2 in self.eval(it, s):
                    self.mwrite(s2, rn, K(j), T.ZERO, v)
                    ns.append(s2)
            states = ns
        yield from states

    def init_obj(self, st, oid, path, t, e):
        """initialise an object; yields states"""
        kind, q = ctype(t)
        ee = e
        while ee["kind"] in ("ConstantExpr",):
            ee = ee["inner"][0]
        if ee["kind"] == "InitListExpr":
            if kind == "array":
                states = [st]
                el = q.split("[")[0].strip()
                elt = {"qualType": q[:q.index("[")].strip() + q[q.index("]") + 1:]}
                items = ee.get("array_filler") or ee.get("inner", [])
                for j, it in enumerate(items):
                    if it["kind"] == "ImplicitValueInitExpr":
                        continue
                    ns = []
                    for s in states:
                        ns += list(self.init_obj(s, oid, path + (j,), it.get("type", elt), it))
                    states = ns
                yield from states
                return
            if kind in ("int", "real", "ptr"):
                if ee.get("inner"):
                    yield from self.init_obj(st, oid, path, t, ee["inner"][0])
                else:
                    self.store(st, ('o', oid, path), NULL if kind == "ptr" else T.ZERO)
                    yield st
                return
            fs = None
            for tu in self.tus:
                fs = F.record_fields(tu, q)
                if fs:
                    break
            if fs is None:
                raise Unsupported("initialiser for %s" % q)
            states = [st]
            items = ee.get("inner", [])
            for (fname, ft), it in zip(fs, items):
                ns = []
                for s in states:
                    ns += list(self.init_obj(s, oid, path + (fname,), ft, it))
                states = ns
            yield from states
            return
        if ee["kind"] == "ImplicitValueInitExpr":
            if kind in ("int", "real", "ptr"):
                self.store(st, ('o', oid, path), NULL if kind == "ptr" else T.ZERO)
            elif kind == "struct":
                for tu in self.tus:
                    fs = F.record_fields(tu, q)
                    if fs:
                        for fname, ft in fs:
                            for _ in self.init_obj(st, oid, path + (fname,), ft, ee):
                                pass
                        break
            yield st
            return
        for v, s in self.eval(e, st):
            self.store(s, ('o', oid, path), v)
            yield s

    def switch(self, n, st):
        inner = n["inner"]
        cnd, body = inner[-2], inner[-1]
        stmts = body.get("inner", [])
        cases = []      # (value node or None, index)
        for idx, s in enumerate(stmts):
            x = s
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt":
                    cases.append((x["inner"][0], idx))
                else:
                    cases.append((None, idx))
                x = x["inner"][-1]

        def enter(idx, s):
            for o, s2 in self.exec_list(stmts, idx, s):
                if o == ('break',):
                    o = None
                yield o, s2

        def tryc(v, i, s):
            if i == len(cases):
                dflt = [ix for c, ix in cases if c is None]
                if dflt:
                    yield from enter(dflt[0], s)
                else:
                    yield None, s
                return
            c, ix = cases[i]
            if c is None:
                yield from tryc(v, i + 1, s)
                return
            for cv, s1 in self.eval(c, s):
                if isinstance(v, Flags):
                    q = v.equals(cv.const())
                else:
                    q = c_eq(v, cv)
                for b, s2 in self.branch(s1, q):
                    if b:
                        yield from enter(ix, s2)
                    else:
                        yield from tryc(v, i + 1, s2)
        for v, s in self.eval(cnd, st):
            yield from tryc(v, 0, s)

    def loop(self, n, st, cnd, body, inc, is_do):
        from . import loops
        yield from loops.run_loop(self, n, st, cnd, body, inc, is_do)

    # -------------------------------------------------------------- top level
    def run_function(self, name, vals, st):
        """execute a function body; yields (return value, state)"""
        tu, fn = self.find_func(name)
        if fn is None:
            raise F.ExtractionError("function %s is not defined in %s" % (name, ", ".join(t.path for t in self.tus)))

        yield from self.inline(name, tu, fn, vals, st)


class NullDeref(Exception):
    pass


def _has_bv(a):
    return any(b.kind == 'bv' for b in T.atom_free(a))


def _mentions_old(v):
    return any(a.kind == 'rd' and a.args[0] == '$old' for a in T.free_atoms(v))


def _const_zero(c):
    while c["kind"] in ("ParenExpr", "ImplicitCastExpr", "ConstantExpr"):
        c = c["inner"][0]
    return c["kind"] == "IntegerLiteral" and int(c["value"]) == 0


def _elem_kind(q):
    el = q[:q.index("[")].strip()
    return ctype({"qualType": el})[0]


def _find_label(stmts, lid):
    for j, s in enumerate(stmts):
        x = s
        while x["kind"] in ("LabelStmt", "CaseStmt", "DefaultStmt"):
            if x["kind"] == "LabelStmt" and x.get("declId") == lid:
                return j
            x = x["inner"][-1]
    return None


def _reach(v, st):
    out = set()
    todo = [v]
    # everything reachable from surviving objects is kept as well
    while todo:
        x = todo.pop()
        if isinstance(x, OPtr):
            if x.obj not in out:
                out.add(x.obj)
                todo += list(st.objs.get(x.obj, {}).values())
        elif isinstance(x, StructVal):
            todo += list(x.f.values())
    return out
