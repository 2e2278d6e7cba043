"""Independent reference definitions used by the runtime contracts."""
import numpy as np
from .core import *


def delannoy(d, r):
    t = [[1] * (r + 1) for _ in range(d + 1)]
    for a in range(1, d + 1):
        for b in range(1, r + 1):
            t[a][b] = t[a - 1][b] + t[a - 1][b - 1] + t[a][b - 1]
    return t[d][r]


def minkowski(X, p):
    D = np.abs(X[:, None, :] - X[None, :, :])
    return D.sum(-1) if p == 1 else np.sqrt((D ** 2).sum(-1))


def check_knn_attractor(X, P, PC, G, k, p):
    """G[i] is the best personal best among the k nearest particles of i (any choice among equally near ones)"""
    n = len(X)
    G = shape(G, *P.shape)
    D = minkowski(X, p)
    if k == 1:
        need(same(G, P), "with k=1 the attractor is not the particle's own best position (%s)" % where_differs(G, P))
        return
    for i in range(n):
        dk = np.sort(D[i])[k - 1]
        eps = 1e-9 * (1 + dk)
        sure = np.nonzero(D[i] < dk - eps)[0]
        may = np.nonzero(D[i] <= dk + eps)[0]
        cand = [m for m in may if same(P[m], G[i])]
        need(cand, "the attractor of particle %d is no personal best position of its %d nearest particles %s" % (i, k, may.tolist()))
        if len(may) == k:
            sure = may
        best = np.min(PC[sure]) if len(sure) else np.inf
        need(any(PC[m] <= best for m in cand), "the attractor of particle %d has personal best cost %r although a neighbour has %r (neighbours %s)"
             % (i, float(min(PC[m] for m in cand)), float(best), sure.tolist()))


def check_nb_attractor(P, PC, G, nbs):
    G = shape(G, *P.shape)
    for i, nb in enumerate(nbs):
        nb = [int(m) for m in nb]
        best = np.min(PC[nb])
        need(any(PC[m] == best and same(P[m], G[i]) for m in nb),
             "the attractor of particle %d is not the best personal best position among its neighbours %s" % (i, nb))


def check_best_attractor(P, PC, G):
    G = np.asarray(G)
    best = np.min(PC)
    rows = [P[m] for m in range(len(P)) if PC[m] == best]
    if G.ndim == 1:
        need(any(same(r, G) for r in rows), "the attractor %s is not the best position of the particle with the lowest personal best cost" % G)
    else:
        shape(G, *P.shape)
        for i in range(len(P)):
            need(any(same(r, G[i]) for r in rows), "the attractor of particle %d is not the best position of the swarm" % i)


def delaunay_nbs(X):
    """for every particle the pair (neighbours, possible neighbours) in the Delaunay triangulation of X: joined in all, or in
    some, triangulations of slightly perturbed points (relative to the extent of the swarm; degenerate positions have several)"""
    from scipy.spatial import Delaunay
    X = np.asarray(X, float)
    n = len(X)
    Y = X - X.min(0)
    e = Y.max()
    Y = Y / e if e > 0 else Y
    # (nearly) coinciding particles count as one point
    rep = np.arange(n)
    for i in range(n):
        for k in range(i):
            if rep[k] == k and np.abs(Y[i] - Y[k]).max() < 1e-4:
                rep[i] = k
                break
    pts = np.flatnonzero(rep == np.arange(n))
    idx = {k: q for q, k in enumerate(pts)}
    grp = np.array([idx[k] for k in rep])
    single = np.bincount(grp) == 1
    Y, m = Y[pts], len(pts)
    if m < Y.shape[1] + 2 or np.linalg.svd(Y - Y.mean(0), compute_uv=False)[-1] < 1e-3:
        return None  # too degenerate
    r = np.random.RandomState(7)
    count, total = np.zeros((m, m), int), 0
    for j in range(24):
        try:
            t = Delaunay(Y + 6e-6 * r.uniform(-1, 1, Y.shape), qhull_options="Qbb Qc Qz Q12")
        except Exception:
            continue
        if len(t.coplanar):
            continue
        A = np.zeros((m, m), bool)
        for s in t.simplices:
            A[np.ix_(s, s)] = True
        count, total = count + A, total + 1
    if total < 12:
        return None  # too degenerate
    np.fill_diagonal(count, 0)
    np.fill_diagonal(count, total * ~single)
    sure = (count == total) & single[:, None] & single[None, :]
    maybe = count > 0
    return [(np.flatnonzero(sure[g][grp]), np.flatnonzero(maybe[g][grp])) for g in grp]


def delaunay_edge(X, i, j, sure, delta=1e-5):
    """is there a sphere through the points i and j with no other point inside, whatever the points are moved by up to delta
    times the extent of the swarm (sure), or for some such displacement (not sure)? Linear programs in the centre, one for
    each orthant of it"""
    import itertools
    from scipy.optimize import linprog
    X = np.asarray(X, float)
    Y = X - X.min(0)
    e = Y.max()
    Y = Y / e if e > 0 else Y
    n, d = Y.shape
    if d > 6:
        return not sure
    D, L = Y - Y[i], (Y ** 2).sum(1) - (Y[i] ** 2).sum()    # k is outside: L[k] - 2 c.D[k] >= 0
    far = np.linalg.norm(D[j])
    if sure and far < 1e-2:
        return False
    m = 5 * delta * (1 + np.sqrt(d) / far if sure else 1)
    rest = np.array([k for k in range(n) if k != i and k != j], int)
    for sg in itertools.product((1.0, -1.0), repeat=d):
        sg = np.array(sg)
        # slack m * (d + sg.c), for or against the edge
        q = 1.0 if sure else -1.0
        A = 2 * D[rest] + q * m * sg
        b = L[rest] - q * m * d
        A = np.vstack([A, 2 * D[[j]] - m * sg, -2 * D[[j]] - m * sg])
        b = np.concatenate([b, L[[j]] + m * d, -L[[j]] + m * d])
        if sure:
            A[-2:], b[-2:] = [2 * D[j], -2 * D[j]], [L[j], -L[j]]
        r = linprog(np.zeros(d), A_ub=A, b_ub=b, bounds=[(0, None) if x > 0 else (None, 0) for x in sg], method="highs")
        if r.status == 0 or not sure and r.status not in (2, 3):
            return True
    return False


def check_delaunay_attractor(P, PC, G, nbs, X):
    """nbs: delaunay_nbs(X); where it explains no attractor, the edges in question are decided one by one"""
    G = shape(G, *P.shape)
    for i, (sure, maybe) in enumerate(nbs or []):
        best = np.min(PC[sure]) if len(sure) else np.inf
        if any(PC[m] <= best and same(P[m], G[i]) for m in maybe):
            continue
        cand = [m for m in range(len(P)) if same(P[m], G[i])]
        need(cand, "the attractor of particle %d is no personal best position" % i)
        cand = [m for m in cand if m == i or m in maybe or delaunay_edge(X, i, m, False)]
        need(cand, "the attractor of particle %d is not the personal best position of one of its neighbours %s in the Delaunay triangulation" % (i, maybe.tolist()))
        ok = min(PC[m] for m in cand)
        better = [k for k in sure if PC[k] < ok and (k == i or delaunay_edge(X, i, k, True))]
        need(not better, "the attractor of particle %d is not the best personal best position among its neighbours %s in the Delaunay triangulation (%s)" % (i, maybe.tolist(), better))


def check_graph(nbs, n, k):
    """P19: the neighbour lists form a connected symmetric graph with own edge and at least k others"""
    need(len(nbs) == n, "neighbour lists for %d particles instead of %d" % (len(nbs), n))
    S = [set(int(x) for x in a) for a in nbs]
    for i in range(n):
        need(all(0 <= x < n for x in S[i]), "particle %d has a neighbour that does not exist" % i)
        need(i in S[i], "particle %d is not its own neighbour" % i)
        need(len(S[i]) >= k + 1, "particle %d has only %d neighbours instead of at least %d" % (i, len(S[i]) - 1, k))
        for j in S[i]:
            need(i in S[j], "neighbour graph is not symmetric: %d is a neighbour of %d but not the other way round" % (j, i))
    seen, todo = {0}, [0]
    while todo:
        for j in S[todo.pop()]:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    need(len(seen) == n, "neighbour graph is not connected: %d of %d particles reachable from particle 0" % (len(seen), n))


def boundary(strategy, Y, mem, lb, ub):
    """documented result of a boundary strategy for positions Y, and the magnitude of its computation;
    random: NaN where any value between the bounds is right"""
    Y = np.array(Y, float)
    lo, hi = Y < lb, Y > ub
    out = lo | hi
    R = Y.copy()
    if strategy == "nearest":
        R = np.where(lo, lb, np.where(hi, ub, Y))
    elif strategy == "reflective":
        w = ub - lb + np.zeros_like(Y)
        m = np.mod(Y - lb, 2 * w)
        R = np.where(out, lb + np.minimum(m, 2 * w - m), Y)
    elif strategy == "periodic":
        s = np.abs(ub - lb) + np.zeros_like(Y)
        R = np.where(lo, ub - np.mod(lb - Y, s), np.where(hi, lb + np.mod(Y - ub, s), Y))
    elif strategy == "intermediate":
        R = np.where(lo, 0.5 * (mem + lb), np.where(hi, 0.5 * (mem + ub), Y))
    elif strategy == "shrink":
        for i in np.nonzero(out.any(1))[0]:
            v = Y[i] - mem[i]
            s = [1.0]
            for j in range(Y.shape[1]):
                if lo[i, j]:
                    s.append((lb[j] - mem[i, j]) / v[j])
                if hi[i, j]:
                    s.append((ub[j] - mem[i, j]) / v[j])
            R[i] = mem[i] + min(s) * v
    elif strategy == "random":
        R[out.any(1)] = np.nan
    return R, out


def check_boundary(strategy, Y, mem, lb, ub, got, what="position"):
    got = shape(got, *Y.shape)
    want, out = boundary(strategy, Y, mem, lb, ub)
    rows = out.any(1)
    ins = got[~rows]
    need(same(ins, Y[~rows]), "%s: a particle inside the bounds was changed by strategy %s" % (what, strategy))
    if strategy == "random":
        need(np.all(got[rows] >= lb) and np.all(got[rows] <= ub), "%s: strategy random left the bounds" % what)
        return
    scale = np.abs(Y) + np.abs(lb) + np.abs(ub) + (np.abs(mem) if mem is not None else 0)
    if strategy in ("nearest",):
        need(same(got, want), "%s: strategy %s: %s" % (what, strategy, where_differs(got, want)))
    elif strategy != "shrink":
        need(same(got[~out], Y[~out]), "%s: strategy %s changed a coordinate inside the bounds" % (what, strategy))
    if strategy in ("periodic", "reflective"):
        # wrap-around points are equal modulo the width, mirrored ones modulo twice the width
        w = (ub - lb) * (1 if strategy == "periodic" else 2) + np.zeros_like(Y)
        diff = np.abs(got - want)
        if strategy == "periodic":
            diff = np.minimum(diff, np.abs(w - diff))
        ok = diff <= RTOL[0] * scale
        need(np.all(ok), "%s: strategy %s: %s" % (what, strategy, where_differs(np.where(ok, want, got), want)))
    else:
        need(close(got, want, scale), "%s: strategy %s: %s" % (what, strategy, where_differs(got, want)))


def schedule(strategy, opt, start, i, n, end_opts=None, d1=0.2, d2=7, m=1.2):
    """documented value of an option; for random: the pair (low, high)"""
    ends = {"w": 0.4, "c1": 0.8 * start["c1"], "c2": 1 * start["c2"]}
    e = (end_opts or {}).get(opt, ends.get(opt))
    s = start[opt]
    if strategy == "exp_decay":
        return (s - e - d1) * np.exp(1 / (1 + d2 * i / n))
    if strategy == "lin_variation":
        return e + (s - e) * (n - i) / n
    if strategy == "nonlin_mod":
        return e + (s - e) * ((n - i) ** m / n ** m)
    if strategy == "random":
        e = (end_opts or {}).get(opt, s + 1)
        return (min(s, e), max(s, e))
    raise KeyError(strategy)
