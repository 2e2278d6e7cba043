"""Contracts of the hyperparameter searches (P15)"""
from .base import *
from .contracts import Record, bind, reporter_contracts
from .operators import unit_slots
from .optimizers import CreateSwarm, same_pair

SB = "pyswarms.utils.search.base_search.SearchBase."
GS = "pyswarms.utils.search.grid_search.GridSearch"
RS = "pyswarms.utils.search.random_search.RandomSearch"


class FakeOptimizer:
    def optimize(self, *a, **k):
        raise Unsupported("optimizer run in a contract without one")


def mk_search(c, which, options, optimizer=FakeOptimizer, **kw):
    M = imp("utils.search")
    K = getattr(M, which)
    a = dict(optimizer=optimizer, n_particles=sym_int("n", 1), dimensions=sym_int("d", 1), options=options,
             objective_func=Obj(tag="objective"), iters=sym_int("iters", 1))
    a.update(kw)
    return no_raise(c, call(c, K, **a), ["P15"], "construction"), a


def same_val(x, y):
    return x is y or isinstance(x, (Num, int, float)) and isinstance(y, (Num, int, float)) and fz(same_z(to_num(x), to_num(y)))


def feq(x, y):
    r = same_val(x, y)
    return r if isinstance(r, F) else (TRUE if r else FALSE)


def _mk_grid(keys):
    @task("generate_grid[%s]" % ",".join(keys), ["P15", "P13"], [GS + ".generate_grid", GS + ".__init__"])
    def t(c):
        opts, vals = {}, {}
        for k in keys:
            if c.choose(2):
                n = sym_int("n_" + k, 0)
                fu = fresh_fun("val_" + k, 1)
                opts[k] = SSeq(n, (lambda fu: lambda i: Num(fu(i)))(fu))
                vals[k] = opts[k]
            else:
                opts[k] = sym_real(k)
                vals[k] = [opts[k]]
        g, a = mk_search(c, "GridSearch", opts)
        snap = Snapshot([opts])
        nev = len(c.events)
        r = no_raise(c, call(c, g.generate_grid), ["P15"])
        ok = isinstance(r, (SSeq, list))
        c.oblige("returns a list of combinations", TRUE if ok else FALSE, ["P15"])
        if not ok:
            raise PathEnd()
        r = r if isinstance(r, SSeq) else SSeq(len(r), (lambda l: lambda i: seq_item(l, i))(list(r)))
        total = to_num(1)
        for k in keys:
            total = total * to_num(norm_size(seq_len(vals[k])))
        c.oblige("as many combinations as the product of the numbers of listed values", toF(to_num(r.vc_len()) == total), ["P15"])
        prods = [e for k, e in c.events[nev:] if k == "product"]
        dims = [norm_size(seq_len(vals[k])) for k in keys]

        def combo(e, ix):
            if not isinstance(e, dict) or list(e) != list(keys) and set(e) != set(keys):
                return FALSE
            return fand(*[feq(e[k], seq_item(vals[k], i)) for k, i in zip(keys, ix)])

        def present(*ix):
            hints = []
            for p in prods:
                if len(p.seqs) == len(ix):
                    hints.append(p.rank(ix))
            return exists([r.n], lambda q: combo(r.item(q), ix))
        c.oblige("every combination of the listed values is in the grid", forall(dims, present), ["P15"])

        def only(q):
            e = r.item(q)
            if not isinstance(e, dict) or set(e) != set(keys):
                return FALSE
            return fand(*[exists([m], lambda i, k=k: feq(e[k], seq_item(vals[k], i))) for k, m in zip(keys, dims)])
        c.oblige("the grid contains combinations of the listed values only", forall([r.n], only), ["P15"])
        frame(c, snap, ["P13", "P15"])


_mk_grid(("c1", "c2", "w"))
_mk_grid(("c1", "c2", "w", "k", "p"))


@task("random_grid", ["P15", "P13"], [RS + ".generate_grid", RS + ".__init__"])
def t_random_grid(c):
    opts = {}
    for k in ("c1", "c2", "w"):
        lo, hi = sym_real(k + "_lo"), sym_real(k + "_hi")
        c.assume(toF(lo <= hi))
        opts[k] = [lo, hi]
    klo, khi = sym_int("k_lo", 1), sym_int("k_hi", 1)
    c.assume(toF(klo < khi))
    opts["k"] = [klo, khi]
    opts["p"] = sym_int("p", 1, 3)
    N = sym_int("n_selection_iters", 1)
    g, a = mk_search(c, "RandomSearch", opts, n_selection_iters=N)
    snap = Snapshot([opts])
    r = no_raise(c, call(c, g.generate_grid), ["P15"])
    ok = isinstance(r, SSeq)
    c.oblige("returns a list of combinations", TRUE if ok else FALSE, ["P15"])
    if not ok:
        raise PathEnd()
    c.oblige("exactly the requested number of combinations", toF(to_num(r.vc_len()) == N), ["P15"])

    def item(q):
        e = r.item(q)
        if not isinstance(e, dict) or set(e) != {"c1", "c2", "w", "k", "p"}:
            return None
        return e
    c.oblige("every combination has the five options", forall([N], lambda q: TRUE if item(q) is not None else FALSE), ["P15"])
    for k in ("c1", "c2", "w"):
        lo, hi = opts[k]
        c.oblige("%s lies inside its range" % k, forall([N], lambda q: fand(toF(to_num(item(q)[k]) >= lo), toF(to_num(item(q)[k]) <= hi))), ["P15"])
    c.oblige("k is an integer from its half-open range", forall([N], lambda q: fand(
        TRUE if to_num(item(q)["k"]).is_int else FALSE, toF(to_num(item(q)["k"]) >= klo), toF(to_num(item(q)["k"]) < khi))), ["P15"])
    c.oblige("p is kept", forall([N], lambda q: feq(item(q)["p"], opts["p"])), ["P15"])
    frame(c, snap, ["P13", "P15"])


# ------------------------------------------------------------------- scoring
class RunOptimizer:
    """contract of optimize(): returns the best cost and a position; every call is recorded"""

    def apply(self, c, f, a, k):
        b = bind(f, a, k)
        cost, pos = sym_real("score", ext=True), sym_arr("pos", (b["self"].dimensions,))
        c.events.append(("run", Record(args=dict(b), opt=b["self"], cost=cost, pos=pos)))
        return cost, pos


def _mk_score(cls, modname):
    q = "pyswarms.single.%s.%s" % (modname, cls)
    con = dict(reporter_contracts(), **{"pyswarms.backend.generators.create_swarm": CreateSwarm(None), q + ".optimize": RunOptimizer()})

    @task("generate_score[%s]" % cls, ["P15", "P13"], [SB + "generate_score", q + ".__init__"], opts={"contracts": con})
    def t(c):
        bounded = c.choose(2)
        d, n = sym_int("d", 1), sym_int("n", 1)
        bounds = mk_bounds(c, d) if bounded else None
        clamp = None
        if c.choose(2):
            clamp = lo, hi = sym_real("vmin"), sym_real("vmax")
            c.assume(toF(lo <= hi))
        K = getattr(imp("single"), cls)
        S, a = mk_search(c, "GridSearch", {"c1": [1]}, K, dimensions=d, n_particles=n, bounds=bounds, velocity_clamp=clamp)
        o = {x: sym_real(x) for x in ("c1", "c2", "w")}
        if cls == "LocalBestPSO":
            o["k"], o["p"] = sym_int("k", 1), sym_int("p", 1, 3)
            c.assume(toF(o["k"] <= n))
        want = dict(o)
        snap = Snapshot([o, a])
        nev = len(c.events)
        r = no_raise(c, call(c, S.generate_score, o), ["P15"])
        runs = [e for k, e in c.events[nev:] if k == "run"]
        c.oblige("the optimizer is run once", TRUE if len(runs) == 1 else FALSE, ["P15"])
        if len(runs) != 1:
            raise PathEnd()
        e = runs[0]
        op = e.opt
        c.oblige("the optimizer has the requested class", TRUE if type(op) is K else FALSE, ["P15"])
        c.oblige("the optimizer has the requested number of particles", feq(op.n_particles, n), ["P15"])
        c.oblige("the optimizer has the requested dimensions", feq(op.dimensions, d), ["P15"])
        oo = op.options
        c.oblige("the optimizer uses exactly this combination of options",
                 fand(*[feq(oo[x], want[x]) for x in want]) if isinstance(oo, dict) and set(oo) == set(want) else FALSE, ["P15"])
        c.oblige("the optimizer uses the bounds", same_pair(op.bounds, bounds), ["P15"])
        c.oblige("the optimizer uses the velocity clamp", same_pair(op.velocity_clamp, clamp), ["P15"])
        c.oblige("the objective function of the search is optimized", TRUE if e.args["objective_func"] is a["objective_func"] else FALSE, ["P15"])
        c.oblige("the requested number of iterations is run", feq(e.args["iters"], a["iters"]), ["P15"])
        c.oblige("the score is the best cost of the run", feq(r, e.cost), ["P15"])
        frame(c, snap, ["P13", "P15"])


_mk_score("GlobalBestPSO", "global_best")
_mk_score("LocalBestPSO", "local_best")


# -------------------------------------------------------------------- search
class Grid:
    """contract of generate_grid: an arbitrary non-empty list of combinations"""

    def __init__(self):
        self.made = []

    def apply(self, c, f, a, k):
        n = sym_int("ngrid", 1)
        fs = {x: fresh_fun("grid_" + x, 1) for x in ("c1", "c2", "w")}
        s = SSeq(n, lambda i: dict({x: Num(fs[x](i)) for x in fs}, tag=Num(i)))
        c.events.append(("grid", s))
        return s


class Score:
    """contract of generate_score: a number that depends on the combination"""

    def apply(self, c, f, a, k):
        o = bind(f, a, k)["options"]
        phi = c.ghost["phi"]
        c.events.append(("score", Record(o=o, pure=bool(c.pure), scope=len(ST.scope))))
        if not isinstance(o, dict) or "tag" not in o:
            raise Unsupported("score of something else than a combination of the grid")
        return phi(o["tag"].v)


@task("search", ["P15", "P13"], [SB + "search"], opts={"contracts": {GS + ".generate_grid": Grid(), SB + "generate_score": Score()}})
def t_search(c):
    pv, pk = fresh_fun("score", 1), fresh_fun("scorek", 1, "i")

    def phi(i):
        k = pk(i)
        sink().fact(z3.And(k >= 0, k <= 2))          # scores are not NaN (P02: the returned cost is never NaN)
        return Num(pv(i), k)
    c.ghost["phi"] = phi
    S, a = mk_search(c, "GridSearch", {"c1": [1, 2]})
    maximum = [False, True, None][c.choose(3)]
    snap = Snapshot([a])
    nev = len(c.events)
    r = no_raise(c, call(c, S.search) if maximum is None else call(c, S.search, maximum=maximum), ["P15"])
    ev = c.events[nev:]
    grids = [e for k, e in ev if k == "grid"]
    c.oblige("one grid is generated", TRUE if len(grids) == 1 else FALSE, ["P15"])
    scored = [e for k, e in ev if k == "score"]
    c.oblige("every combination of the grid is scored once", TRUE if len(scored) == 1 and scored[0].pure else FALSE, ["P15"])
    ok = len(grids) == 1 and isinstance(r, (tuple, list)) and len(r) == 2 and isinstance(r[1], dict) and "tag" in r[1] and isinstance(r[0], (Num, int, float))
    c.oblige("returns (score, options)", TRUE if ok else FALSE, ["P15"])
    if not ok:
        raise PathEnd()
    g = grids[0]
    i = zint(to_num(r[1]["tag"]))
    sink().term(key_of(g.n), i)
    e = g.item(i)
    c.oblige("the returned options are a combination of the grid", fand(
        fz(z3.And(i >= 0, i < zint(g.n))), *[feq(r[1][x], e[x]) if x in r[1] else FALSE for x in e] + [TRUE if len(r[1]) == len(e) else FALSE]), ["P15"])
    best = to_num(r[0])
    c.oblige("the returned score is the score of the returned options", fz(same_z(best, phi(i))), ["P15"])
    if maximum is True:
        c.oblige("no combination has a larger score", forall([g.n], lambda q: toF(phi(q) <= best)), ["P15"])
    else:
        c.oblige("no combination has a smaller score", forall([g.n], lambda q: toF(phi(q) >= best)), ["P15"])
    c.oblige("the search object keeps score and options", fand(feq(S.best_score, best) if isinstance(S.best_score, (Num, int, float)) else FALSE,
             TRUE if S.best_options is r[1] or S.best_options == r[1] else FALSE), ["P15"])
    frame(c, snap, ["P13", "P15"])
