"""Contracts of the plot data (P22)"""
from .base import *
from .contracts import Record

FM = "pyswarms.utils.plotters.formatters.Mesher.compute_history_3d"
PL = "pyswarms.utils.plotters.plotters._mesh"


class Height:
    """an arbitrary function of two coordinates, evaluated on any number of points"""

    def __init__(self):
        nm = fresh_int("height").decl().name()
        R = z3.RealSort()
        self.f = z3.Function("hv_" + nm, R, R, R)
        self.k = z3.Function("hk_" + nm, R, R, z3.IntSort())
        self.calls = []

    def phi(self, x, y):
        x, y = to_num(x), to_num(y)
        a, b = zreal(x.v), zreal(y.v)
        a, b = (z3.RealVal(v) if not isinstance(v, z3.ExprRef) else v for v in (a, b))
        k = self.k(a, b)
        sink().fact(z3.And(k >= 0, k <= 3))
        return Num(self.f(a, b), k)

    def __call__(self, x):
        self.calls.append(x)
        if not isinstance(x, Arr) or x.ndim != 2 or not size_is(x._shape[1], 2):
            raise ValueError("function of two coordinates: not a matrix of points")
        rd = x.copy().reader()
        return mk((x._shape[0],), memo(lambda i: self.phi(rd(i, z3.IntVal(0)), rd(i, z3.IntVal(1)))), "f")


def _mk_hist(kind, par):
    @task("history_3d[%s,%s]" % (kind, "pool" if par else "serial"), ["P22", "P13"], [FM])
    def t(c):
        T, n = sym_int("T", 1), sym_int("n", 1)
        H = sym_arr("H", (T, n, 2))
        h = H if kind == "array" else SSeq(T, lambda t: mk((n, 2), lambda i, j: H.at(t, i, j), "f"))
        H0 = H.copy()
        f = Height()
        m = imp("utils.plotters.formatters").Mesher(func=f)
        nproc = sym_int("nproc", 1) if par else None
        snap = Snapshot([H])
        r = no_raise(c, call(c, m.compute_history_3d, h, nproc) if par else call(c, m.compute_history_3d, h), ["P22"])
        ok = is_arr(r, T, n, 3)
        c.oblige("one three-dimensional point per iteration and particle", same_arr(r, (T, n, 3), r.at) if ok else FALSE, ["P22"])
        if not ok:
            raise PathEnd()

        def want(t, i, j):
            return ite(Bool(j == 2), f.phi(H0.at(t, i, z3.IntVal(0)), H0.at(t, i, z3.IntVal(1))), ite(Bool(j == 1), H0.at(t, i, z3.IntVal(1)), H0.at(t, i, z3.IntVal(0))))
        c.oblige("x and y are unchanged and z is the function value at that position", same_arr(r, (T, n, 3), want), ["P22"])
        frame(c, snap, ["P13", "P22"], label="the position history is not modified")


for _k in ("array", "list"):
    for _p in (0, 1):
        _mk_hist(_k, _p)


def _mk_mesh(par):
    @task("mesh[%s]" % ("pool" if par else "serial"), ["P22", "P13"], [PL])
    def t(c):
        lim = [(sym_real("xmin"), sym_real("xmax")), (sym_real("ymin"), sym_real("ymax"))]
        delta = sym_real("delta")
        c.assume(delta > 0)
        for lo, hi in lim:
            c.assume(lo < hi)
        f = Height()
        m = imp("utils.plotters.formatters").Mesher(func=f, limits=lim, delta=delta)
        nproc = sym_int("nproc", 1) if par else None
        snap = Snapshot([lim])
        r = no_raise(c, call(c, imp("utils.plotters.plotters")._mesh, m, nproc) if par else call(c, imp("utils.plotters.plotters")._mesh, m), ["P22"])
        ok = isinstance(r, (tuple, list)) and len(r) == 3 and all(isinstance(x, Arr) and x.ndim == 2 for x in r)
        c.oblige("returns three matrices", TRUE if ok else FALSE, ["P22"])
        if not ok:
            raise PathEnd()
        xx, yy, zz = r
        ny, nx = xx._shape
        count = lambda m, lo, hi: fand(toF(lo + (to_num(size_num(m)) - 1) * delta < hi), toF(lo + to_num(size_num(m)) * delta >= hi))
        c.oblige("as many columns as steps of delta in the half-open x limits", count(nx, *lim[0]), ["P22"])
        c.oblige("as many rows as steps of delta in the half-open y limits", count(ny, *lim[1]), ["P22"])
        c.oblige("x runs from left to right", same_arr(xx, (ny, nx), lambda i, j: lim[0][0] + Num(j) * delta), ["P22"])
        c.oblige("y runs from bottom to top", same_arr(yy, (ny, nx), lambda i, j: lim[1][0] + Num(i) * delta), ["P22"])
        c.oblige("z is the function value at the grid point", same_arr(zz, (ny, nx), lambda i, j: f.phi(xx.at(i, j), yy.at(i, j))), ["P22"])
        frame(c, snap, ["P13", "P22"])


_mk_mesh(0)
_mk_mesh(1)
