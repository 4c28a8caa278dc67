"""Vocabulary shared by the contracts."""
from vc.contract import contract, REGISTRY, View
from vc.term import *
from vc import term as T
from vc.symex import NULL, Flags, UNINIT

# public constants of armas.h; contracts/consts check fails if the header disagrees
LOWER, UPPER, SYMM, HERM, UNIT, LEFT, RIGHT = 1, 2, 4, 8, 0x10, 0x20, 0x40
TRANSA = TRANS = 0x80
TRANSB = 0x100
CTRANSA = CTRANS = 0x200
CTRANSB = 0x400
ABSA = ABS_ = 0x80000
ABSB = 0x100000
ESIZE, ENEED_VECTOR, EINVAL, EIMP, EWORK, ESINGULAR, ENEGATIVE, EMEMORY = range(1, 9)
ONAIVE, OKAHAN, OPAIRWISE, ORECURSIVE = 1, 2, 4, 8
NORM_ONE, NORM_TWO, NORM_INF, NORM_FRB = 1, 2, 3, 4


def absr(x):
    return T.mk_abs(x)


def fail(c, code, rv=None):
    """conf->error = code and a negative return value"""
    c.error(code)
    c.ret(-code if rv is None else rv)


def dot(c, n, x, y):
    return c.sum(0, n, lambda k: x(k) * y(k))


def flagval(rnd, *groups):
    """one value of each group"""
    v = 0
    for g in groups:
        v |= rnd.choice(g)
    return v


def sizes(rnd, case):
    """sizes around small block sizes"""
    ev = case["env"]
    if rnd.random() < 0.8:
        for f in ("blas2min", "lb"):
            ev[f] = rnd.choice([0, 2, 3, 4, 5, 8])
        for f in ("mb", "nb", "kb"):
            ev[f] = rnd.choice([4, 8, 12, 16])
        if rnd.random() < 0.6:
            ev["cmem"] = rnd.choice([512, 2048, 4096])
    return lambda: rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 18, 19, 21, 24, 25, 33])
