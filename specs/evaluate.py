"""Contracts of the evaluation of the swarm (P14) and of the cost decorator (P16)"""
from .base import *
from .contracts import Record, bind

EV = "pyswarms.backend.operators.compute_objective_function"
DC = "pyswarms.utils.decorators.decorators.cost"


class RowWise:
    """an arbitrary objective function that computes the cost of each particle from its own coordinates:
    the cost of a row equal to row r of the swarm is phi(r), an arbitrary extended real"""

    def __init__(self, X, n, d):
        self.X, self.n, self.d = X.copy(), n, d
        self.pv, self.pk = fresh_fun("phi", 1), fresh_fun("phik", 1, "i")
        self.calls = []

    def phi(self, r):
        k = self.pk(r)
        sink().fact(z3.And(k >= 0, k <= 3))
        return Num(self.pv(r), k)

    def __call__(self, x, *a, **kw):
        c = ST.ctx
        self.calls.append(Record(x=x, args=a, kw=kw, pure=bool(c.pure)))
        if not isinstance(x, Arr) or x.ndim != 2 or not size_same(x._shape[1], norm_size(self.d)):
            raise ValueError("objective function: not a matrix of particles")
        x = x.copy()
        m = x._shape[0]
        v, k = fresh_fun("cost", 1), fresh_fun("costk", 1, "i")

        def el(i):
            s = sink()
            s.fact(z3.And(k(i) >= 0, k(i) <= 3))
            if not s.seen("rw", (id(self), v(i).get_id())):
                s.qfact(Q([(0, self.n, key_of(self.n))], lambda r: fimp(
                    forall([self.d], lambda j: fz(same_z(to_num(x.at(i, j)), to_num(self.X.at(r, j))))),
                    fz(z3.And(v(i) == self.pv(r), k(i) == self.pk(r))))))
            return Num(v(i), k(i))
        r = mk((m,), el, "f")
        r.anydt = True
        return r


def _mk_eval(mode):
    @task("evaluate[%s]" % mode, ["P14", "P13"], [EV])
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        s = mk_swarm(c, n, d)
        X = s.position.copy()
        f = RowWise(X, n, d)
        kwargs = {"alpha": Obj(tag="alpha"), "beta": sym_real("beta")}
        pool = None
        if mode == "pool":
            pool = runtime.mk_pool(sym_int("nproc", 1))
        snap = Snapshot([s, kwargs, pool])
        r = no_raise(c, call(c, imp("backend.operators").compute_objective_function, s, f, pool=pool, **kwargs), ["P14"])
        c.oblige("the objective function is called once on the swarm, or once per block", TRUE if len(f.calls) == 1 else FALSE, ["P14"])
        if len(f.calls) != 1:
            raise PathEnd()
        e = f.calls[0]
        c.oblige("the objective function gets the particles only", TRUE if not e.args and set(e.kw) == set(kwargs) else FALSE, ["P14"])
        c.oblige("every keyword argument reaches the objective function unchanged",
                 TRUE if all(e.kw.get(k) is kwargs[k] for k in kwargs) else FALSE, ["P14"])
        if mode == "serial":
            c.oblige("the whole swarm is evaluated in one call", same_arr(e.x, (n, d), X.at) if isinstance(e.x, Arr) and not e.pure else FALSE, ["P14"])
        c.oblige("one cost per particle, in the order of the particles, for every number of processes",
                 same_arr(r, (n,), f.phi) if isinstance(r, Arr) else FALSE, ["P14"])
        frame(c, snap, ["P13", "P14"])


_mk_eval("serial")
_mk_eval("pool")


# ------------------------------------------------------------ cost decorator
class CostFunc:
    """an arbitrary cost function of one particle: cost(row equal to row r) = phi(r)"""
    __name__ = "costfunc"

    def __init__(self, X, n, d, vec=None):
        self.X, self.n, self.d, self.vec = X.copy(), n, d, vec
        self.pv, self.pk = fresh_fun("phi", 1), fresh_fun("phik", 1, "i")
        self.calls = []

    phi = RowWise.phi

    def __call__(self, x, *a, **kw):
        self.calls.append(Record(x=x, args=a, kw=kw, pure=bool(ST.ctx.pure)))
        if not isinstance(x, Arr) or x.ndim != 1:
            raise ValueError("cost function: not one particle")
        x = x.copy()
        v, k = fresh_real("cost"), fresh_int("costk")
        s = sink()
        s.fact(z3.And(k >= 0, k <= 3))
        if self.vec is not None:
            return sym_arr("vec", (self.vec,))
        s.qfact(Q([(0, self.n, key_of(self.n))], lambda r: fimp(
            forall([self.d], lambda j: fz(same_z(to_num(x.at(j)), to_num(self.X.at(r, j))))), fz(z3.And(v == self.pv(r), k == self.pk(r))))))
        return AnyNum(v, k)


def _mk_cost(kind):
    @task("cost[%s]" % kind, ["P16", "P13"], [DC])
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        X = sym_arr("X", (n, d), kinds=True)
        X0 = X.copy()
        m = sym_int("m", 0) if kind == "array" else None
        f = CostFunc(X, n, d, m)
        kwargs = {"alpha": Obj(tag="alpha"), "beta": sym_real("beta")}
        g = imp("utils.decorators").cost(f)
        snap = Snapshot([X, kwargs])
        out = call(c, g, X, **kwargs)
        good = all(not e.args and set(e.kw) == set(kwargs) and all(e.kw[k] is kwargs[k] for k in kwargs) for e in f.calls)
        c.oblige("the cost function gets one particle and the keyword arguments unchanged", TRUE if f.calls and good else FALSE, ["P16"])
        if kind == "array":
            frame(c, snap, ["P13", "P16"], label="the particles are not modified")
            must_raise(c, out, ["ValueError"], ["P16"], "a cost function that returns an array is rejected with ValueError")
        r = no_raise(c, out, ["P16"])
        c.oblige("one cost per particle: the cost function of its own coordinates, in order",
                 same_arr(r, (n,), f.phi) if isinstance(r, Arr) else FALSE, ["P16"])
        frame(c, snap, ["P13", "P16"], label="the particles are not modified")


_mk_cost("scalar")
_mk_cost("array")
