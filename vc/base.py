"""Trusted models of the configuration accessors."""
from . import intrinsics as I
from .contract import make_conf, make_env
from .symex import OPtr, Flags
from . import term as T


@I.builtin("armas_conf_default")
def _cd(X, st, a, e):
    if "gconf" not in st.objs:
        make_conf(X, st, "gconf")
    yield OPtr("gconf"), st


@I.builtin("armas_getenv")
def _ge(X, st, a, e):
    make_env(X, st)
    yield OPtr("genv"), st


@I.builtin("armas_ac_getenv")
def _ace(X, st, a, e):
    X.assumptions.add("armas_ac_getenv reports at least one core and one item for each thread, a weight that is not negative (armas_ac_read_env accepts no other value)")
    if "acenv" not in st.objs:
        d = {(f,): T.sym("acenv." + f) for f in ("max_cores", "num_items")}
        d[("options",)] = Flags("acenv.options")
        d[("weight",)] = T.sym("acenv.weight", 'r')
        st.objs["acenv"] = d
        st.assume(T.c_and(T.c_ge(d[("max_cores",)], 1), T.c_ge(d[("num_items",)], 1), T.c_rle(T.ZERO, d[("weight",)])))
    yield OPtr("acenv"), st
