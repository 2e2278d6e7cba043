"""Contracts of pyswarms.backend.topology"""
from .base import *

TP = "pyswarms.backend.topology."


def costs(c, n, name="PC"):
    """personal best costs: anything but NaN (NaN never becomes a personal best: contract of compute_pbest)"""
    a = sym_arr(name, (n,), kinds=True)
    c.assume(forall([n], lambda i: fnot(toF(isnan(a.at(i))))))
    return a


def swarm0(c, n, d, PC, suffix=""):
    """any swarm with these personal best costs: with or without a best position known so far, evaluated or not"""
    kw = dict(pbest_cost=PC, position=sym_arr("X" + suffix, (n, d)), pbest_pos=sym_arr("P" + suffix, (n, d)))
    known = c.choose(3)
    if known == 0:
        kw["best_pos"] = NP.array([])
        kw["best_cost"] = float("inf")
        kw["current_cost"] = NP.array([])
    else:
        kw["best_pos"] = sym_arr("G" + suffix, (n, d) if known == 1 else (d,))
        kw["best_cost"] = sym_real("gc" + suffix, ext=True)
    return mk_swarm(c, n, d, **kw)


def ctor(c):
    """Star and VonNeumann accept the argument static and are static whatever it is"""
    return [{}, {"static": None}, {"static": True}, {"static": False}][c.choose(4)]


def arr_eq(a, b):
    """element-wise equality of two arrays (formula)"""
    a, b = to_arr(a).copy(), to_arr(b).copy()
    return same_arr(a, b._shape, b.at)


def is_min(PC, n, m):
    return forall([n], lambda k: toF(PC.at(m) <= PC.at(k)))


def attracted(G, P, PC, n, d, member):
    """row i of G is the personal best position of a best neighbour of i.
    member(i, m): formula 'm is a neighbour of i'"""
    return forall([n], lambda i: exists([n], lambda m: fand(
        member(i, m),
        forall([n], lambda k: fimp(member(i, k), toF(PC.at(m) <= PC.at(k)))),
        forall([d], lambda j: toF(G.at(i, j) == P.at(m, j))))))


def reported_min(bc, PC, n):
    bc = to_num(bc)
    return fand(forall([n], lambda k: toF(bc <= PC.at(k))), exists([n], lambda k: toF(bc == PC.at(k))))


def result_pair(c, v, *shape, tags=("P04",)):
    ok = isinstance(v, (tuple, list)) and len(v) == 2
    if ok:
        a = to_arr(v[0])
        ok = len(a._shape) == len(shape) and all(size_same(x, y) for x, y in zip(a._shape, shape))
    c.oblige("returns (attractors, best cost)", TRUE if ok else FALSE, tags=list(tags))
    if not ok:
        raise PathEnd()
    return to_arr(v[0]).copy(), v[1]


def frame_top(c, snap, top, tags=("P13",)):
    frame(c, snap, list(tags), allowed=[(top, "neighbor_idx")])


# ------------------------------------------------------------------- star
def _star(first):
    @task("star[%s]" % ("first" if first else "later"), ["P04", "P20", "P13", "P02"], [TP + "star.Star.compute_gbest"])
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        PC = costs(c, n)
        kw = {} if first else dict(best_pos=sym_arr("g", (d,)), best_cost=sym_real("gc", ext=True))
        if first:
            kw = dict(best_pos=NP.array([]), best_cost=float("inf"))
        else:
            c.assume(fnot(toF(isnan(kw["best_cost"]))))
        s = mk_swarm(c, n, d, pbest_cost=PC, **kw)
        P, PC0 = s.pbest_pos.copy(), PC.copy()
        g0 = None if first else s.best_pos.copy()
        c0 = to_num(s.best_cost)
        top = imp("backend.topology").Star(**ctor(c))
        snap = Snapshot([s, top])
        v = no_raise(c, call(c, top.compute_gbest, s), ["P04"])
        G, bc = result_pair(c, v, d)
        better = exists([n], lambda k: toF(PC0.at(k) < c0))
        same = TRUE if first else fand(forall([d], lambda j: toF(G.at(j) == g0.at(j))), toF(to_num(bc) == c0))
        c.oblige("attractor is the personal best position of the best particle of the swarm",
                 fimp(better if not first else TRUE,
                      exists([n], lambda m: fand(is_min(PC0, n, m), toF(to_num(bc) == PC0.at(m)),
                                                 forall([d], lambda j: toF(G.at(j) == P.at(m, j)))))), tags=["P04", "P02"])
        if not first:
            c.oblige("a best cost that no particle beats is kept with its position", fimp(fnot(better), same), tags=["P04", "P02"])
        ni = top.neighbor_idx
        ok = ni is not None and isinstance(ni, Arr) and ni.ndim == 2
        c.oblige("neighbours are determined", TRUE if ok else FALSE, tags=["P20"])
        if ok:
            c.oblige("everybody is a neighbour of everybody", same_arr(ni, (n, n), lambda i, k: Num(k)), tags=["P20", "P04"])
        frame_top(c, snap, top)


_star(True)
_star(False)


# ------------------------------------------------------------------- ring
def query_ok(c, evs, X, p, k):
    """formula: some of the neighbour searches evs looks for the k nearest points of the rows of X among the rows of X"""
    fs = []
    for e in evs:
        if e["p"] is None:
            continue
        fs.append(fand(arr_eq(e["data"], X), arr_eq(e["x"], X), toF(to_num(e["p"]) == p), toF(to_num(e["k"]) == k)))
    return for_(*fs) if fs else FALSE


def _ring(static, k1, later, vn=False):
    name = "%s[%s%s,%s]" % ("von_neumann" if vn else "ring", "" if vn else ("static," if static else "dynamic,"), "k=1" if k1 else "k>1", "later" if later else "first")
    funcs = [TP + "ring.Ring.compute_gbest"] + ([TP + "von_neumann.VonNeumann.compute_gbest"] if vn else [])

    opts = {}
    if vn:
        class Del:
            def apply(self, ctx, f, a, kw):
                ctx.ghost.setdefault("delannoy", []).append((a, kw))
                return ctx.ghost["k"]
        opts["contracts"] = {"pyswarms.backend.topology.von_neumann.VonNeumann.delannoy": Del()}

    @task(name, ["P04", "P20", "P13", "P02", "P10"] + (["P23"] if vn else []), funcs, opts=opts)
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        if k1:
            k = to_num(1) if vn else 1
        else:
            k = sym_int("k", 2)
            c.assume(toF(k <= n))
        c.ghost["k"] = k
        p = sym_int("p", 1, 3)
        r = sym_int("r", 0)
        T = imp("backend.topology")
        top = T.VonNeumann(**ctor(c)) if vn else T.Ring(static=static)
        PC = costs(c, n)
        s = swarm0(c, n, d, PC)
        run = (lambda s: call(c, top.compute_gbest, s, p, r)) if vn else (lambda s: call(c, top.compute_gbest, s, p, k))
        old = None
        if later:
            v = no_raise(c, run(s), ["P04"])
            old = top.neighbor_idx
            old0 = old.copy() if isinstance(old, Arr) else None
            c.oblige("neighbours are determined on first use", TRUE if old0 is not None else FALSE, tags=["P20"])
            if old0 is None:
                raise PathEnd()
            PC = costs(c, n, "PC2")
            s = swarm0(c, n, d, PC, suffix="2")
            if not static and not k1:
                # a dynamic topology follows the arguments of each call as well
                k, p = sym_int("k2", 2), sym_int("p2", 1, 3)
                c.assume(toF(k <= n))
        P, PC0, X = s.pbest_pos.copy(), PC.copy(), s.position.copy()
        nev = len(c.events)
        snap = Snapshot([s, top])
        v = no_raise(c, run(s), ["P04"])
        G, bc = result_pair(c, v, n, d)
        evs = [e for kind, e in c.events[nev:] if kind == "query"]
        if later and static:
            ni = top.neighbor_idx
            ok = isinstance(ni, Arr) and ni.ndim == 2
            c.oblige("static: the neighbours stay those of the first call",
                     same_arr(ni, old0._shape, old0.at) if ok and len(ni._shape) == len(old0._shape) else FALSE, tags=["P20"])
            nb = old0
        else:
            c.oblige("neighbours are the k nearest particles at the current positions",
                     query_ok(c, evs, X, p, k), tags=["P20", "P04"])
            nb = top.neighbor_idx
            ok = isinstance(nb, Arr) and nb.ndim == 2
            c.oblige("neighbour table has one row per particle and k columns",
                     fand(fz(zint(nb._shape[0]) == zint(n)), fz(zint(nb._shape[1]) == zint(k))) if ok else FALSE, tags=["P20", "P04"])
            if not ok:
                raise PathEnd()
            nb = nb.copy()
            if evs:
                f = evs[-1]["f"]
                c.oblige("the table lists the neighbours found", same_arr(nb, (n, k), lambda i, q: Num(f(i, q))), tags=["P20", "P04"])
        if k1:
            c.oblige("a particle without neighbours follows its own personal best", same_arr(G, (n, d), P.at), tags=["P04"])
        else:
            K = nb._shape[1]
            # the best of the k neighbours: index q of the row of i
            c.oblige("attractor is the personal best of the best neighbour",
                     forall([n], lambda i: (G.at(i, z3.IntVal(0)), exists([K], lambda q: fand(
                         forall([K], lambda u: toF(PC0.at(nb.at(i, q).v) <= PC0.at(nb.at(i, u).v))),
                         forall([d], lambda j: toF(G.at(i, j) == P.at(nb.at(i, q).v, j))))))[1]), tags=["P04"])
        c.oblige("reported cost is the lowest personal best cost of the swarm", reported_min(bc, PC0, n), tags=["P04", "P02", "P10"])
        if vn:
            a = c.ghost.get("delannoy", [])
            ok = bool(a) and all(len(x[0]) == 2 and not x[1] for x in a)
            c.oblige("the number of neighbours is the Delannoy number of dimension and range",
                     fand(*[fand(toF(to_num(x[0][0]) == d), toF(to_num(x[0][1]) == r)) for x in a]) if ok else FALSE, tags=["P04", "P23"])
        frame_top(c, snap, top)


for st in (True, False):
    for k1 in (True, False):
        for later in (False, True):
            _ring(st, k1, later)
for k1 in (True, False):
    for later in (False, True):
        _ring(True, k1, later, vn=True)


def follows(c, G, P, i, n, d):
    """index m of a particle whose personal best position the attractor of particle i is, read off the attractor itself (None when
    it is not of that form): a witness, of which everything is proved that the property asks for"""
    j, j2 = fresh_int("wj"), fresh_int("wi")
    probe, have = P.at(j2, j), G.at(i, j)
    pv, hv = getattr(probe, "v", None), getattr(have, "v", None)
    if not (z3.is_app(pv) and z3.is_app(hv) and pv.num_args() == 2 and hv.num_args() == 2 and pv.decl().eq(hv.decl()) and hv.arg(1).eq(pv.arg(1))):
        return None
    w = hv.arg(0)
    if str(j) in [str(x) for x in z3util_vars(w)]:
        return None
    m = fresh_int("best")
    c.assume(fz(m == w))
    reg(m, n)
    return m


def lowest(c, G, P, PC, bc, m, n, d, at=None):
    """the reported cost is the lowest one; m: any particle, in the neighbourhood of the particle `at` (its own)"""
    tags = ["P04", "P02", "P10"]
    b = follows(c, G, P, m if at is None else at, n, d)
    if b is not None:
        # in two steps: the particle followed there is not worse than m, and the reported cost not above that of a followed particle
        c.oblige("reported cost is not above any personal best cost, step 1", toF(PC.at(b) <= PC.at(m)), tags=tags)
        c.oblige("reported cost is not above any personal best cost, step 2", toF(to_num(bc) <= PC.at(b)), tags=tags)
    else:
        c.oblige("reported cost is not above any personal best cost", toF(to_num(bc) <= PC.at(m)), tags=tags)
    c.oblige("reported cost is the personal best cost of a particle", exists([n], lambda k: toF(to_num(bc) == PC.at(k))), tags=tags)


def z3util_vars(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


# ------------------------------------------------------------------ pyramid
def table_member(tab, n, i, m):
    """m occurs in the i-th entry of the neighbour table (a list of index arrays)"""
    a = tab[i] if not isinstance(tab, SSeq) else tab.item(i)
    return a


def _ragged(c, top, n):
    nb = top.neighbor_idx
    ok = isinstance(nb, (SSeq, Arr)) and (not isinstance(nb, SSeq) or True)
    c.oblige("one neighbour list per particle",
             fz(zint(nb.n if isinstance(nb, SSeq) else nb._shape[0]) == zint(n)) if ok else FALSE, tags=["P20", "P04"])
    if not ok:
        raise PathEnd()
    return nb


def _pyr_small(static):
    @task("pyramid[%s,simplex]" % ("static" if static else "dynamic"), ["P04", "P20", "P13", "P02"], [TP + "pyramid.Pyramid.compute_gbest"])
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        c.assume(toF(n <= d + 1))
        PC = costs(c, n)
        s = swarm0(c, n, d, PC)
        top = imp("backend.topology").Pyramid(static=static)
        P, PC0 = s.pbest_pos.copy(), PC.copy()
        snap = Snapshot([s, top])
        v = no_raise(c, call(c, top.compute_gbest, s), ["P04"])
        G, bc = result_pair(c, v, d)
        c.oblige("attractor is the personal best position of the best particle of the swarm",
                 exists([n], lambda m: fand(is_min(PC0, n, m), toF(to_num(bc) == PC0.at(m)),
                                            forall([d], lambda j: toF(G.at(j) == P.at(m, j))))), tags=["P04", "P02"])
        nb = top.neighbor_idx
        c.oblige("everybody is a neighbour of everybody", same_arr(nb, (n, n), lambda i, k: Num(k)) if isinstance(nb, Arr) and nb.ndim == 2 else FALSE, tags=["P20", "P04"])
        frame_top(c, snap, top)


_pyr_small(True)
_pyr_small(False)


def pyr_facts(c, rec, n):
    """assumed contract of the triangulation: the neighbour relation is symmetric and no vertex is isolated"""
    ip, ix = rec["indptr"], rec["indices"]
    own, slot = fresh_fun("own", 1, "i"), fresh_fun("slot", 1, "i")

    def body(i):
        o, s = own(i), slot(i)
        reg(o, n)
        return fand(fz(z3.And(in_range(o, 0, n), ip(o) <= s, s < ip(o + 1), ix(s) == i)))
    c.assume(forall([n], body))
    return own, slot


def similar(c, Y, X, n, d):
    """the triangulated points are the current positions up to a translation and a positive scale (Delaunay triangulations
    are invariant under both): differences of coordinates are proportional and have the same sign"""
    c.oblige("the triangulated points have the shape of the swarm", TRUE if len(Y._shape) == 2 and all(size_eq(a, b) for a, b in zip(Y._shape, (n, d))) else FALSE, tags=["P20", "P04"])
    if len(Y._shape) != 2:
        return
    q = [fresh_int(x) for x in ("pa", "pb", "pt", "pc", "pd", "pu")]
    for x, m in zip(q, (n, n, d, n, n, d)):
        c.assume(fz(in_range(x, 0, m)))
        reg(x, m)
    a, b, t, a2, b2, u = q
    dx, dy = X.at(a, t) - X.at(b, t), Y.at(a, t) - Y.at(b, t)
    ex, ey = X.at(a2, u) - X.at(b2, u), Y.at(a2, u) - Y.at(b2, u)
    c.oblige("neighbours come from the triangulation of the current positions (differences proportional)", toF(dy * ex == ey * dx), tags=["P20", "P04"])
    c.oblige("neighbours come from the triangulation of the current positions (same orientation)",
             fand(fiff(toF(dy > 0), toF(dx > 0)), fiff(toF(dy < 0), toF(dx < 0)), fiff(toF(dy == 0), toF(dx == 0))), tags=["P20", "P04"])


def _pyr(static, later):
    @task("pyramid[%s,%s]" % ("static" if static else "dynamic", "later" if later else "first"), ["P04", "P20", "P13", "P02", "P10"],
          [TP + "pyramid.Pyramid.compute_gbest"])
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 2)
        c.assume(toF(n > d + 1))
        PC = costs(c, n)
        s = swarm0(c, n, d, PC)
        top = imp("backend.topology").Pyramid(static=static)
        if later:
            # state left by an earlier call (established by the tasks [.., first]): one list of vertex neighbours per particle
            indptr, indices = runtime.DelaunayShim(sym_arr("X1", (n, d))).vertex_neighbor_vertices
            top.neighbor_idx = parametric(n, lambda i: indices[indptr[Num(i)]:indptr[Num(i) + 1]])
        P, PC0, X = s.pbest_pos.copy(), PC.copy(), s.position.copy()
        nev = len(c.events)
        old = top.neighbor_idx
        snap = Snapshot([s, top])
        v = no_raise(c, call(c, top.compute_gbest, s), ["P04"])
        G, bc = result_pair(c, v, n, d)
        fresh = [e for kind, e in c.events[nev:] if kind == "Delaunay"]
        evs = [e for kind, e in c.events if kind == "Delaunay"]
        if later and static:
            c.oblige("static: no new triangulation, the neighbour lists stay those of the first call",
                     TRUE if not fresh and top.neighbor_idx is old else FALSE, tags=["P20"])
        else:
            c.oblige("the neighbours are determined anew, by one triangulation", TRUE if len(fresh) == 1 else FALSE, tags=["P20", "P04"])
            if fresh:
                similar(c, fresh[-1]["data"], X, n, d)
        if not evs:
            raise PathEnd()
        rec = evs[-1]
        ip, ix = rec["indptr"], rec["indices"]
        own, slot = pyr_facts(c, rec, n)
        nb = _ragged(c, top, n)
        i = fresh_int("row")
        c.assume(fz(in_range(i, 0, n)))
        row = to_arr(nb.item(i) if isinstance(nb, SSeq) else nb[Num(i)])
        c.oblige("list i holds the neighbours of particle i",
                 same_arr(row, (Num(ip(i + 1)) - Num(ip(i)),), lambda q: Num(ix(simp(ip(i) + q)))), tags=["P20", "P04"])
        R = row._shape[0]
        b = follows(c, G, P, i, n, d)
        if b is None:
            c.oblige("attractor is the personal best of the best neighbour",
                     exists([R], lambda q: fand(
                         forall([R], lambda u: toF(PC0.at(row.at(q).v) <= PC0.at(row.at(u).v))),
                         forall([d], lambda j: toF(G.at(i, j) == P.at(row.at(q).v, j))))), tags=["P04"])
        else:
            c.oblige("attractor is the personal best of a particle", forall([d], lambda j: toF(G.at(i, j) == P.at(b, j))), tags=["P04"])
            c.oblige("attractor is the personal best of a neighbour", fand(fz(in_range(b, 0, n)), exists([R], lambda q: fz(row.at(q).v == b))), tags=["P04"])
            c.oblige("no neighbour is better than the one followed", forall([R], lambda u: toF(PC0.at(b) <= PC0.at(row.at(u).v))), tags=["P04"])
        # whole swarm minimum: the minimal particle is in somebody's list
        m = fresh_int("m")
        c.assume(fz(in_range(m, 0, n)))
        reg(m, n)
        w = own(m)
        reg(w, n)
        roww = to_arr(nb.item(w) if isinstance(nb, SSeq) else nb[Num(w)])
        R2 = roww._shape[0]
        sink().term(key_of(R2), simp(slot(m) - ip(w)))
        lowest(c, G, P, PC0, bc, m, n, d, at=w)
        frame_top(c, snap, top)


for st in (True, False):
    for later in (False, True):
        _pyr(st, later)


# ------------------------------------------------------------------- random
class NeighContract:
    """contract of Random.__compute_neighbors (proved by the task random_neighbors): a reflexive, symmetric 0/1 matrix"""

    def apply(self, ctx, f, a, kw):
        args = dict(zip(("self", "swarm", "k"), a))
        args.update(kw)
        s = args["swarm"]
        n = s.n_particles
        A = sym_arr("adj", (n, n), "i")
        fn = A.reader()

        def el(i, j):
            v = fn(i, j)
            sink().fact(z3.And(z3.Or(v.v == 0, v.v == 1), z3.Implies(z3.And(i == j, in_range(i, 0, n)), v.v == 1)))
            return v
        A = mk((n, n), el, "i")
        ctx.events.append(("neighbors", {"A": A, "swarm": s, "k": args["k"]}))
        return A


def _random(static, later):
    @task("random[%s,%s]" % ("static" if static else "dynamic", "later" if later else "first"), ["P04", "P20", "P13", "P02", "P10", "P19"],
          [TP + "random.Random.compute_gbest"], opts={"contracts": {TP + "random.Random.__compute_neighbors": NeighContract()}})
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        k = sym_int("k", 1)
        PC = costs(c, n)
        s = swarm0(c, n, d, PC)
        top = imp("backend.topology").Random(static=static)
        if later:
            # state left by an earlier call (established by the tasks [.., first]): one list of graph neighbours per particle
            A = NeighContract().apply(c, None, (top, s, k), {})
            top.neighbor_idx = parametric(n, lambda i: A[Num(i)].nonzero()[0])
        P, PC0 = s.pbest_pos.copy(), PC.copy()
        nev = len(c.events)
        old = top.neighbor_idx
        snap = Snapshot([s, top])
        v = no_raise(c, call(c, top.compute_gbest, s, k), ["P04"])
        G, bc = result_pair(c, v, n, d)
        fresh = [e for kind, e in c.events[nev:] if kind == "neighbors"]
        evs = [e for kind, e in c.events if kind == "neighbors"]
        if later and static:
            c.oblige("static: no new graph, the neighbour lists stay those of the first call",
                     TRUE if not fresh and top.neighbor_idx is old else FALSE, tags=["P20"])
        else:
            c.oblige("a graph with k neighbours is drawn for this swarm",
                     toF(to_num(fresh[-1]["k"]) == k) if len(fresh) == 1 and fresh[0]["swarm"] is s else FALSE, tags=["P20", "P04", "P19"])
        if not evs:
            raise PathEnd()
        A = evs[-1]["A"]
        nb = _ragged(c, top, n)
        i = fresh_int("row")
        c.assume(fz(in_range(i, 0, n)))
        reg(i, n)
        row = to_arr(nb.item(i))
        dom = row._shape[0]
        ok = isinstance(dom, DomAx) and len(dom.sizes) == 1
        c.oblige("list i holds the neighbours of particle i",
                 forall([n], lambda m: fiff(toF(dom.mask(m)), fand(fz(A.at(i, m).v == 1)))) if ok else FALSE, tags=["P20", "P04"])
        if not ok:
            raise PathEnd()
        b = follows(c, G, P, i, n, d)
        if b is None:
            c.oblige("attractor is the personal best of the best neighbour",
                     exists([n], lambda m: fand(
                         fz(A.at(i, m).v == 1),
                         forall([n], lambda u: fimp(fz(A.at(i, u).v == 1), toF(PC0.at(m) <= PC0.at(u)))),
                         forall([d], lambda j: toF(G.at(i, j) == P.at(m, j))))), tags=["P04"])
        else:
            c.oblige("attractor is the personal best of a particle", forall([d], lambda j: toF(G.at(i, j) == P.at(b, j))), tags=["P04"])
            c.oblige("attractor is the personal best of a neighbour", fand(fz(in_range(b, 0, n)), fz(A.at(i, b).v == 1)), tags=["P04"])
            u = fresh_int("other")
            c.assume(fz(in_range(u, 0, n)))
            reg(u, n)
            c.oblige("no neighbour is better than the one followed", fimp(fz(A.at(i, u).v == 1), toF(PC0.at(b) <= PC0.at(u))), tags=["P04"])
        m = fresh_int("m")
        c.assume(fz(in_range(m, 0, n)))
        reg(m, n)
        lowest(c, G, P, PC0, bc, m, n, d)
        frame_top(c, snap, top)


for st in (True, False):
    for later in (False, True):
        _random(st, later)
