"""Contracts of the functions the optimizers call, in the form applied at call sites.
Each is established for the real body by the tasks of operators.py, options.py and topologies.py."""
import inspect
from .base import *
from .operators import in_bounds, better
from .topologies import is_min, reported_min

OPQ = "pyswarms.backend.operators."
TPQ = "pyswarms.backend.topology."


def bind(f, a, k):
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


class Record:
    def __init__(self, **k):
        self.__dict__.update(k)


class ComputePbest:
    def apply(self, c, f, a, k):
        s = bind(f, a, k)["swarm"]
        X, P, PC, C = s.position.copy(), s.pbest_pos.copy(), s.pbest_cost.copy(), s.current_cost.copy()
        pos = mk(P._shape, memo(lambda i, j: ite(better(C.at(i), PC.at(i)), X.at(i, j), P.at(i, j))), "f")
        cost = mk(PC._shape, memo(lambda i: ite(better(C.at(i), PC.at(i)), C.at(i), PC.at(i))), "f")
        c.events.append(("pbest", Record(swarm=s, pos=pos, cost=cost)))
        return pos, cost


class ComputeVelocity:
    """one call of the velocity strategy; the result lies inside the clamp; the adjust strategy remembers the positions"""

    def apply(self, c, f, a, k):
        b = bind(f, a, k)
        s, clamp, vh, bounds = b["swarm"], b["clamp"], b["vh"], b["bounds"]
        n, d = s.position._shape
        base = sym_arr("Vn", (n, d))
        rd = base.reader()

        def el(i, j):
            v = rd(i, j)
            if clamp is not None:
                sink().fact(z3.Implies(z3.And(in_range(i, 0, n), in_range(j, 0, d)), z3.And(bool_z(v >= clamp[0]), bool_z(v <= clamp[1]))))
            return v
        r = mk((n, d), memo(el), "f")
        c.events.append(("velocity", Record(swarm=s, clamp=clamp, vh=vh, bounds=bounds, result=r, position=s.position, velocity=s.velocity,
                                            pbest_pos=s.pbest_pos, best_pos=s.best_pos, options=s.options, X=s.position.copy(), V=s.velocity.copy(),
                                            P=s.pbest_pos.copy(), G=s.best_pos.copy(), memory=getattr(vh, "memory", None))))
        if getattr(vh, "strategy", None) == "adjust":
            vh.memory = s.position
        return r


class ComputePosition:
    """position plus velocity, then one call of the boundary strategy: the result lies inside the bounds provided the remembered
    positions do; shrink and intermediate remember the result"""

    def apply(self, c, f, a, k):
        b = bind(f, a, k)
        s, bounds, bh = b["swarm"], b["bounds"], b["bh"]
        n, d = s.position._shape
        X, V = s.position.copy(), s.velocity.copy()
        if bounds is None:
            r = mk((n, d), memo(lambda i, j: X.at(i, j) + V.at(i, j)), "f")
        else:
            st = getattr(bh, "strategy", None)
            mem = getattr(bh, "memory", None)
            if among(st, "shrink", "intermediate"):
                c.oblige("precondition of the boundary strategy: remembered positions lie inside the bounds",
                         in_bounds(mem.copy(), bounds, n, d) if isinstance(mem, Arr) and mem.ndim == 2 else FALSE, tags=["P01", "P07"], kind="pre")
            rd = sym_arr("Xn", (n, d)).reader()

            def el(i, j):
                v = rd(i, j)
                sink().fact(z3.Implies(z3.And(in_range(i, 0, n), in_range(j, 0, d)),
                                       z3.And(bool_z(v >= bounds[0].at(j)), bool_z(v <= bounds[1].at(j)))))
                return v
            r = mk((n, d), memo(el), "f")
        c.events.append(("position", Record(swarm=s, bounds=bounds, bh=bh, result=r, position=s.position, velocity=s.velocity, X=X, V=V,
                                            memory=getattr(bh, "memory", None))))
        if bounds is not None and among(getattr(bh, "strategy", None), "shrink", "intermediate"):
            bh.memory = r
        return r


class Gbest:
    """the topology's attractors and best cost; kind: star / whole (everybody is a neighbour) / local"""

    def __init__(self, kind):
        self.kind = kind

    def apply(self, c, f, a, k):
        b = bind(f, a, k)
        top, s = b["self"], b["swarm"]
        extra = {x: v for x, v in b.items() if x not in ("self", "swarm", "kwargs")}
        extra.update(b.get("kwargs", {}))
        n, d = s.position._shape
        PC, P = s.pbest_cost.copy(), s.pbest_pos.copy()
        c.oblige("precondition of the topology: no personal best cost is NaN", forall([n], lambda i: fnot(toF(isnan(PC.at(i))))), tags=["P03", "P04"], kind="pre")
        bc = sym_real("bc", ext=True)
        c.assume(fnot(toF(isnan(bc))))
        whole = self.kind in ("star", "whole")
        G = sym_arr("G", (d,) if whole else (n, d))
        if whole:
            new = exists([n], lambda m: fand(is_min(PC, n, m), toF(bc == PC.at(m)), forall([d], lambda j: toF(G.at(j) == P.at(m, j)))))
            old = s.best_pos if isinstance(s.best_pos, Arr) else to_arr(s.best_pos)
            if self.kind == "star" and not (isinstance(old, Arr) and size_is(old._shape[0], 0)):
                c0, g0 = to_num(s.best_cost), to_arr(old).copy()
                bet = exists([n], lambda k: toF(PC.at(k) < c0))
                keep = fand(toF(bc == c0), forall([d], lambda j: toF(G.at(j) == g0.at(j))))
                c.assume(for_(fand(bet, new), fand(fnot(bet), keep)))
            else:
                c.assume(new)
        else:
            c.assume(reported_min(bc, PC, n))
        top.neighbor_idx = Poison("neighbor_idx")
        c.events.append(("gbest", Record(top=top, swarm=s, extra=extra, G=G, bc=bc, PC=s.pbest_cost, P=s.pbest_pos, X=s.position.copy())))
        bc.np = True
        return G, bc


class Options:
    def apply(self, c, f, a, k):
        b = bind(f, a, k)
        oh, start = b["self"], b["start_opts"]
        kw = b.get("kwargs", {})
        st = oh.strategy or {}
        r = {x: (sym_real("opt_" + x) if x in st else v) for x, v in start.items()}
        c.events.append(("options", Record(oh=oh, start=start, kw=kw, result=r)))
        return r


class NoEffect:
    def __init__(self, result=None):
        self.result = result

    def apply(self, c, f, a, k):
        return self.result(c, f, a, k) if callable(self.result) else self.result


def pbar(c, f, a, k):
    b = bind(f, a, k)
    return runtime.v_range(b["iters"])


class Evaluate:
    """compute_objective_function: evaluates the objective function once on the whole swarm (contract proved in parallel.py)"""

    def apply(self, c, f, a, k):
        b = bind(f, a, k)
        s, obj, pool = b["swarm"], b["objective_func"], b["pool"]
        return obj.evaluate(c, s.position, b.get("kwargs", {}), pool)


REP = "pyswarms.utils.reporter.reporter.Reporter."


def optimizer_contracts():
    t = {OPQ + "compute_pbest": ComputePbest(), OPQ + "compute_velocity": ComputeVelocity(), OPQ + "compute_position": ComputePosition(),
         OPQ + "compute_objective_function": Evaluate(),
         "pyswarms.backend.handlers.OptionsHandler.__call__": Options(),
         TPQ + "star.Star.compute_gbest": Gbest("star"), TPQ + "ring.Ring.compute_gbest": Gbest("local"),
         TPQ + "von_neumann.VonNeumann.compute_gbest": Gbest("local"), TPQ + "random.Random.compute_gbest": Gbest("local"),
         TPQ + "pyramid.Pyramid.compute_gbest": Gbest("local")}
    t.update(reporter_contracts())
    return t


def reporter_contracts():
    return {REP + "log": NoEffect(), REP + "hook": NoEffect(), REP + "print": NoEffect(), REP + "_setup_logger": NoEffect(),
            REP + "pbar": NoEffect(pbar)}
