"""Contracts of single functions, checked on runs of the real functions."""
import copy, math, itertools, multiprocessing as mp
import numpy as np
from .core import *
from .oracles import *
from . import trace
from .trace import BH, VH, OH, make_bounds


def mods():
    import pyswarms.backend as P
    import pyswarms.backend.handlers as H
    import pyswarms.backend.operators as O
    import pyswarms.backend.topology as T
    from pyswarms.backend.swarms import Swarm
    return P, H, O, T, Swarm


def swarm(rs, n, d, **over):
    S = mods()[4]
    k = dict(position=rs.uniform(-2, 2, (n, d)), velocity=rs.uniform(-1, 1, (n, d)), pbest_pos=rs.uniform(-2, 2, (n, d)),
             pbest_cost=rs.uniform(0, 5, n), current_cost=rs.uniform(0, 5, n), best_pos=rs.uniform(-2, 2, (n, d)), best_cost=9.0,
             options={"c1": 0.5, "c2": 0.3, "w": 0.9})
    k.update(over)
    return S(**k)


def tail(rng, base, large, p=0.015):
    """mostly a small size, now and then a large one"""
    return rng.choice(large) if rng.random() < p else rng.choice(base)


def RS(case):
    return np.random.RandomState(case["seed"] % (2 ** 31))


# ---------------------------------------------------------------- boundary handling (P01, P07, P13)
def g_bh(rng, i):
    return {"bh": BH[i % 6], "n": tail(rng, [1, 2, 3, 7, 7, 40], [130, 1025, 2100], 0.03), "d": tail(rng, [1, 2, 3, 5, 5, 17], [70, 300]), "bounds": rng.choice(["unit", "narrow", "wide", "mixed", "negative", "tiny", "offset", "integer"]),
            "amp": rng.choice([0.3, 1.0, 3.0, 30.0, 3000.0]), "corner": rng.random() < 0.3, "steps": 3, "via": rng.choice(["handler", "operator"]), "ints": rng.random() < 0.1}


@rac(["P01", "P07"], "boundary", g_bh, 1200, 12000)
def c_bh(case, pid):
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], case["d"]
    lb, ub = make_bounds(case["bounds"], d, rs)
    w = ub - lb
    bh = H.BoundaryHandler(strategy=case["bh"])
    X = lb + w * rs.uniform(0, 1, (n, d))
    bh.memory = X.copy()
    for step in range(case["steps"]):
        V = w * case["amp"] * rs.standard_normal((n, d)) * (rs.uniform(size=(n, d)) < 0.7)
        if case["corner"]:
            m = rs.uniform(size=(n, d))
            V = np.where(m < 0.3, ub - X, np.where(m < 0.6, lb - X, V))
        ints = case["ints"] and case["via"] == "operator" and step == 0 and np.all(np.ceil(lb) <= np.floor(ub))
        if ints:
            X = np.clip(np.rint(X), np.ceil(lb), np.floor(ub)).astype(int)
            V = np.rint(V).astype(int)
            bh.memory = X.copy()
        Y = X + V
        with deadline(20, "strategy %s does not return for positions %s and bounds %s %s" % (case["bh"], Y.tolist()[:3], lb.tolist(), ub.tolist())):
            if case["via"] == "handler":
                out = bh(Y.copy(), (lb, ub))
            else:
                s = swarm(rs, n, d, position=X.copy(), velocity=V.copy())
                keep = [s.position.copy(), s.velocity.copy()]
                out = O.compute_position(s, (lb, ub), bh)
                need(same(s.position, keep[0]) and same(s.velocity, keep[1]), "compute_position modified the swarm")
        out = np.array(shape(out, n, d), float)
        if pid == "P01":
            need(np.all(out >= lb) and np.all(out <= ub), "strategy %s leaves %s outside of the bounds %s %s" % (case["bh"], out.tolist(), lb.tolist(), ub.tolist()))
        else:
            check_boundary(case["bh"], Y, X, lb, ub, out, "step %d" % step)
            if case["bh"] == "random":
                o = ((Y < lb) | (Y > ub)).any(1)
                lowside, bad = (Y < lb).any(1), []
                fr = (out[o] - lb) / w
                if o.sum() and d > 1:
                    need(not np.any(np.abs(np.diff(fr, axis=1)) < 1e-12), "strategy random uses one random number for several dimensions")
        X = out


def g_far(rng, i):
    return {"bh": BH[i % 6], "bounds": rng.choice(["unit", "narrow", "wide", "mixed", "negative", "tiny", "offset", "integer"]), "d": rng.choice([1, 2, 3]), "exp": rng.choice([3, 6, 12, 15, 17, 25, 60, 200, 290])}


@rac(["P01", "P07"], "boundary-far", g_far, 240, 2400)
def c_far(case, pid):
    """positions many widths away from the bounds, up to the largest numbers"""
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    d = case["d"]
    lb, ub = make_bounds(case["bounds"], d, rs)
    bh = H.BoundaryHandler(strategy=case["bh"])
    X = lb + (ub - lb) * rs.uniform(0.1, 0.9, (3, d))
    bh.memory = X.copy()
    with np.errstate(all="ignore"):
        Y = X + (ub - lb) * rs.standard_normal((3, d)) * 10.0 ** case["exp"]
    Y[0] = X[0]
    with deadline(20, "strategy %s does not return for positions %s and bounds %s %s" % (case["bh"], Y.tolist(), lb.tolist(), ub.tolist())):
        out = shape(bh(Y.copy(), (lb, ub)), 3, d)
    if pid == "P01":
        need(np.all(out >= lb) and np.all(out <= ub), "strategy %s leaves %s outside of the bounds %s %s" % (case["bh"], out.tolist(), lb.tolist(), ub.tolist()))
    else:
        check_boundary(case["bh"], Y, X, lb, ub, out, "positions far from the bounds")


@rac(["P07"], "boundary-range", lambda rng, i: {"d": rng.choice([1, 2, 3])}, 3, 12)
def c_bhrange(case, pid):
    """strategy random: uniform between the bounds"""
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    d = case["d"]
    lb, ub = make_bounds("mixed", d, rs)
    fr = []
    for _ in range(2000):
        bh = H.BoundaryHandler(strategy="random")
        Y = np.array([lb - 1 if rs.uniform() < 0.5 else ub + 1])
        fr.append((bh(Y, (lb, ub))[0] - lb) / (ub - lb))
    uniform01(np.array(fr), "strategy random")


def uniform01(A, what):
    """values in [0, 1], uniform up to a deviation of probability below 1e-9"""
    A = np.sort(np.asarray(A, float).reshape(-1))
    n = len(A)
    need(A[0] >= 0 and A[-1] <= 1, "%s: value outside of [0, 1]: %r %r" % (what, A[0], A[-1]))
    D = max(np.max(np.arange(1, n + 1) / n - A), np.max(A - np.arange(n) / n))
    need(D < 3.4 / math.sqrt(n), "%s: values are not uniform on [0, 1] (KS distance %.3f for %d values)" % (what, D, n))


# ---------------------------------------------------------------- personal bests (P03, P13)
def g_pb(rng, i):
    return {"n": tail(rng, [1, 2, 5, 9, 70], [300, 1025, 2100], 0.04), "d": tail(rng, [1, 2, 4, 25], [70, 300], 0.03), "special": rng.random()}


@rac(["P03", "P13"], "pbest", g_pb, 400, 4000)
def c_pb(case, pid):
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], case["d"]
    C, PC = rs.randint(-2, 3, n).astype(float), rs.randint(-2, 3, n).astype(float)
    for A in (C, PC):
        m = rs.uniform(size=n)
        A[m < 0.15] = np.inf
        A[(m > 0.15) & (m < 0.2)] = -np.inf
    C[rs.uniform(size=n) < 0.2] = np.nan
    s = swarm(rs, n, d, current_cost=C, pbest_cost=PC)
    keep = copy.deepcopy({f: getattr(s, f) for f in trace.FIELDS})
    a, b = O.compute_pbest(s)
    if pid == "P13":
        need(all(same(keep[f], getattr(s, f)) if f != "options" else keep[f] == s.options for f in keep), "compute_pbest modified its swarm")
        need(same(s.current_cost, C), "compute_pbest modified the costs")
        return
    m = C < PC
    need(same(shape(b, n), np.where(m, C, PC)), "personal best costs: %s" % where_differs(b, np.where(m, C, PC)))
    want = np.where(m[:, None], s.position, s.pbest_pos)
    need(same(shape(a, n, d), want), "personal best positions: %s" % where_differs(a, want))


# ---------------------------------------------------------------- velocity (P05, P06, P13)
def g_vel(rng, i):
    return {"n": tail(rng, [1, 2, 5, 20], [300, 1025, 2100], 0.03), "d": tail(rng, [1, 2, 3, 6], [33, 70], 0.03), "ints": rng.random() < 0.1, "c1": rng.choice([0.5, 2.0, 1.1]), "c2": rng.choice([0.3, 1.7]), "w": rng.choice([0.0, 0.9, -0.4]),
            "vh": VH[i % 4], "clamp": rng.choice([None, None, [-0.3, 0.4], [0.1, 0.2], [-0.05, 0.0], [0.3, 0.3], [0.0, 0.0], [0, 0]]), "gdim": rng.choice([1, 2]), "out": rng.random() < 0.8}


@rac(["P05", "P06", "P13"], "velocity", g_vel, 800, 8000)
def c_vel(case, pid):
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], case["d"]
    X, V = rs.uniform(-2, 2, (n, d)), rs.uniform(-1, 1, (n, d))
    lb, ub = -np.ones(d) * rs.uniform(0.8, 1.6, d), np.ones(d) * rs.uniform(0.8, 1.6, d)
    if not case["out"]:
        X = np.clip(X, lb, ub)
    if case.get("ints"):
        V = rs.randint(-3, 4, (n, d))
    c1, c2, w = case["c1"], case["c2"], case["w"]
    G = X[0] + rs.uniform(0.5, 2, d) if case["gdim"] == 1 else X + rs.uniform(0.5, 2, (n, d))
    # some dimensions show the first weight, the others the second one
    first = rs.uniform(size=d) < 0.5
    Gf = np.broadcast_to(G, (n, d)).copy()
    Gf[:, first] = X[:, first]
    if case["gdim"] == 1:
        Gf = G
    PP = X + rs.uniform(0.5, 2, (n, d))
    PP[:, ~first] = X[:, ~first]
    s = swarm(rs, n, d, position=X.copy(), velocity=V.copy(), pbest_pos=PP.copy(), best_pos=np.array(Gf, copy=True), options={"c1": c1, "c2": c2, "w": w})
    keep = copy.deepcopy({f: getattr(s, f) for f in trace.FIELDS})
    vh = H.VelocityHandler(strategy=case["vh"])
    clamp = tuple(case["clamp"]) if case["clamp"] else None
    mem = X - rs.uniform(-1, 1, (n, d))
    vh.memory = mem.copy()
    lb0, ub0 = lb.copy(), ub.copy()
    R = O.compute_velocity(s, clamp, vh, (lb, ub))
    R = shape(R, n, d)
    if pid == "P13":
        need(all(same(keep[f], getattr(s, f)) if f != "options" else keep[f] == s.options for f in keep), "compute_velocity modified its swarm")
        need(same(lb, lb0) and same(ub, ub0), "compute_velocity modified the bounds")
        return
    if clamp and pid == "P06":
        need(np.all(R >= clamp[0]) and np.all(R <= clamp[1]), "strategy %s: velocity leaves the clamp %s: %s" % (case["vh"], clamp, R.tolist()))
    if pid == "P06":
        # components that need no clamping stay: same draws without clamp
        st = np.random.get_state()
        np.random.seed(case["seed"] % 1000)
        vh.memory = mem.copy()
        A = np.array(O.compute_velocity(s, None, vh, (lb, ub)))
        if clamp:
            np.random.seed(case["seed"] % 1000)
            vh.memory = mem.copy()
            B = np.array(O.compute_velocity(s, clamp, vh, (lb, ub)))
            want = np.clip(A, clamp[0], clamp[1])
            need(same(B, want), "strategy %s: clamping: %s" % (case["vh"], where_differs(B, want)))
        np.random.set_state(st)
        return
    if clamp:
        return
    out = ((X < lb) | (X > ub)).any(1)
    if case["vh"] == "adjust":
        need(close(R, X - mem, np.abs(X) + np.abs(mem)), "strategy adjust: %s" % where_differs(R, X - mem))
        need(same(vh.memory, X), "strategy adjust does not remember the current positions")
        return
    if case["vh"] == "zero":
        need(np.all(R[out] == 0), "strategy zero leaves a velocity of a particle outside of the bounds")
        R, V, X, PP, Gb = R[~out], V[~out], X[~out], PP[~out], np.broadcast_to(Gf, (n, d))[~out]
    else:
        Gb = np.broadcast_to(Gf, (n, d))
    if case["vh"] == "invert":
        R = R.copy()
        R[out] = R[out] / -0.5
    if not len(R):
        return
    res = R - w * V
    A, B = c1 * (PP - X), c2 * (Gb - X)
    tol = 1e-9
    need(np.all(res >= np.minimum(A, 0) + np.minimum(B, 0) - tol) and np.all(res <= np.maximum(A, 0) + np.maximum(B, 0) + tol), "velocity is no PSO update: %s" % R.tolist())
    rs_ = []
    for Z, W in ((A, B), (B, A)):
        m = (W == 0) & (np.abs(Z) > 1e-3)
        rs_ += list(res[m] / Z[m])
    q = np.sort(np.array(rs_))
    if len(q):
        need(q[0] >= -1e-9 and q[-1] < 1 + 1e-9, "random weight outside of [0, 1): %r" % q.tolist()[:3])
        need(len(q) < 2 or np.min(np.diff(q)) > 1e-13, "random weights coincide for different particles or dimensions: %s" % q.tolist()[:6])


@rac(["P05"], "weights", lambda rng, i: {"mode": i % 3}, 3, 9)
def c_weights(case, pid):
    """the two random weights are uniform and independent of each other, of the particle and of the call"""
    P, H, O, T, Swarm = mods()
    n, d = 1500, 4
    X = np.zeros((n, d))
    vh = H.VelocityHandler(strategy="unmodified")
    def draw(a, b, c1, c2):
        s = Swarm(position=X.copy(), velocity=X.copy(), pbest_pos=X + a, best_pos=X + b, options={"c1": c1, "c2": c2, "w": 0.7})
        return np.array(O.compute_velocity(s, None, vh))
    if case["mode"] == 0:
        uniform01(draw(1.0, 0.0, 1.0, 1.0), "first weight")
        uniform01(draw(0.0, 1.0, 1.0, 1.0), "second weight")
        return
    A = draw(1.0, 1000.0, 1.0, 1.0) if case["mode"] == 1 else draw(1000.0, 1.0, 1.0, 1.0)
    B = draw(1.0, 1.0, 1.0, 1.0)
    # sum of two independent uniform numbers: variance 1/6
    v = B.var()
    need(abs(v - 1 / 6) < 0.03, "the two random weights are not independent of each other (variance of their sum %.3f instead of 0.167)" % v)
    for M, what in ((B, "dimensions"), (B.T, "particles")):
        M = M - 1.0
        if what == "particles":
            M = M[:, :400]
        cc = np.corrcoef(M.T)
        np.fill_diagonal(cc, 0)
        lim = 7.0 / math.sqrt(M.shape[0]) if M.shape[0] > 100 else 1.1
        need(np.abs(cc).max() < lim, "the random weights of different %s are correlated" % what)
    # later calls draw anew
    A2 = draw(1.0, 1000.0, 1.0, 1.0) if case["mode"] == 1 else draw(1000.0, 1.0, 1.0, 1.0)
    need(not np.any(A == A2), "two calls use the same random weights")


def g_vh(rng, i):
    return {"vh": VH[i % 4], "n": tail(rng, [1, 2, 5, 60], [1025, 2100, 3000], 0.03), "d": tail(rng, [1, 2, 3, 14], [70, 300]), "clamp": rng.choice([None, [-0.3, 0.4], [0.1, 0.2], [-9.0, 9.0], [0.0, 0.0], [0, 0]]), "z": rng.choice([None, None, 0.25, 0.9, 0.0, 1.5]), "first": rng.random() < 0.3, "side": rng.choice(["both", "low", "high", "in", "limit"])}


@rac(["P05", "P06"], "velocity-handler", g_vh, 600, 6000)
def c_vh(case, pid):
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], case["d"]
    lb, ub = make_bounds("mixed", d, rs)
    w = ub - lb
    u = {"both": (-0.6, 1.6), "low": (-1.0, 0.9), "high": (0.1, 2.0), "in": (0.0, 1.0), "limit": (0.0, 1.0)}[case["side"]]
    X = lb + w * rs.uniform(u[0], u[1], (n, d))
    if case["side"] == "limit":
        X = np.where(rs.uniform(size=(n, d)) < 0.5, lb, ub)
    V = rs.uniform(-1, 1, (n, d))
    clamp = tuple(case["clamp"]) if case["clamp"] else None
    vh = H.VelocityHandler(strategy=case["vh"])
    mem = None if case["first"] else lb + w * rs.uniform(0, 1, (n, d))
    vh.memory = None if mem is None else mem.copy()
    kw = {} if case["z"] is None else {"z": case["z"]}
    got = shape(vh(V.copy(), clamp, position=X.copy(), bounds=(lb, ub), **kw), n, d)
    out = ((X < lb) | (X > ub)).any(1)
    want = V.copy()
    if case["vh"] == "adjust" and mem is not None:
        want = X - mem
    if case["vh"] == "invert":
        want[out] = -(0.5 if case["z"] is None else case["z"]) * V[out]
    if case["vh"] == "zero":
        want[out] = 0.0
    if clamp:
        want = np.clip(want, clamp[0], clamp[1])
    need(close(got, want, np.abs(X) + (0 if mem is None else np.abs(mem))), "strategy %s: %s" % (case["vh"], where_differs(got, want)))
    if clamp:
        need(np.all(got >= clamp[0]) and np.all(got <= clamp[1]), "strategy %s leaves the clamp" % case["vh"])


# ---------------------------------------------------------------- topologies hand their handlers on (P05, P06, P07, P01, P21)
def g_fwd(rng, i):
    return {"top": ["Star", "Ring", "VonNeumann", "Pyramid", "Random"][i % 5], "n": tail(rng, [1, 2, 6, 45], [130, 300]), "d": rng.choice([1, 2, 4, 13]), "clamp": rng.choice([None, [-0.3, 0.4], [0.1, 0.2], [0.0, 0.0]]), "vh": rng.choice(["adjust", "invert", "zero"]),
            "bh": rng.choice(["intermediate", "shrink", "nearest", "periodic", "reflective"]), "default": rng.random() < 0.2}


@rac(["P05", "P06", "P07", "P01"], "forwarding", g_fwd, 300, 3000)
def c_fwd(case, pid):
    """update of a topology with the handlers of the caller: two consecutive steps"""
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], case["d"]
    top = getattr(T, case["top"])()
    lb, ub = make_bounds("mixed", d, rs)
    w = ub - lb
    clamp = tuple(case["clamp"]) if case["clamp"] else None
    vh = H.VelocityHandler(strategy=case["vh"] if pid != "P06" else "adjust")
    bh = H.BoundaryHandler(strategy=case["bh"])
    X = lb + w * rs.uniform(0, 1, (n, d))
    bh.memory = X.copy()
    mem = None
    for step in range(3):
        V = w * rs.uniform(-0.6, 0.6, (n, d))
        s = swarm(rs, n, d, position=X.copy(), velocity=V.copy())
        if pid in ("P05", "P06"):
            Q = lb + w * rs.uniform(-0.3, 1.3, (n, d)) if case["vh"] != "adjust" else X
            s.position, s.pbest_pos, s.best_pos = Q.copy(), Q.copy(), Q[0].copy() if n == 1 else Q.copy()
            R = shape(top.compute_velocity(s, clamp, vh, (lb, ub)), n, d)
            if clamp:
                need(np.all(R >= clamp[0]) and np.all(R <= clamp[1]), "%s.compute_velocity leaves the clamp" % case["top"])
            want = s.options["w"] * V
            out = ((Q < lb) | (Q > ub)).any(1)
            if vh.strategy == "adjust":
                want = want if mem is None else Q - mem
                mem = Q
            elif vh.strategy == "invert":
                want = np.where(out[:, None], -0.5 * want, want)
            else:
                want = np.where(out[:, None], 0.0, want)
            if clamp:
                want = np.clip(want, *clamp)
            need(close(R, want, np.abs(Q) + np.abs(V)), "step %d: %s.compute_velocity with strategy %s: %s" % (step, case["top"], vh.strategy, where_differs(R, want)))
            X = lb + w * rs.uniform(0, 1, (n, d))
        elif case["default"]:
            R = shape(top.compute_position(s), n, d)
            need(close(R, X + V, np.abs(X)), "%s.compute_position without bounds: %s" % (case["top"], where_differs(R, X + V)))
        else:
            R = shape(top.compute_position(s, (lb, ub), bh), n, d)
            if pid == "P01":
                need(np.all((R >= lb) & (R <= ub)), "%s.compute_position leaves the bounds" % case["top"])
            else:
                check_boundary(case["bh"], X + V, X, lb, ub, R, "step %d of %s.compute_position" % (step, case["top"]))
            X = R


# ---------------------------------------------------------------- topologies (P04, P19, P20)
@rac(["P05"], "weights-small", lambda rng, i: {"n": [2, 3, 4, 5, 7][i % 5], "d": [1, 2, 3][i % 3]}, 8, 30)
def c_weightssmall(case, pid):
    """the weights of a small swarm, drawn again and again: no two entries are correlated. In every entry either the personal
    best or the attractor is one unit away, so that the velocity there is the weight itself"""
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d, N = case["n"], case["d"], 1500
    a = (rs.uniform(size=(n, d)) < 0.5) * 1.0
    X = np.zeros((n, d))
    vh = H.VelocityHandler(strategy="unmodified")
    s = Swarm(position=X.copy(), velocity=X.copy(), pbest_pos=a, best_pos=1 - a, options={"c1": 1.0, "c2": 1.0, "w": 0.5})
    V = np.array([np.array(O.compute_velocity(s, None, vh)).reshape(-1) for _ in range(N)])
    need(np.all(V.std(axis=0) > 0.2), "a random weight is the same in every call")
    if n * d > 1:
        cc = np.corrcoef(V.T)
        np.fill_diagonal(cc, 0)
        need(np.abs(cc).max() < 0.2, "the random weights of different entries are correlated (%.2f)" % np.abs(cc).max())
    lag = np.array([np.corrcoef(V[1:, j], V[:-1, k])[0, 1] for j in range(n * d) for k in range(n * d)])
    need(np.abs(lag).max() < 0.2, "the random weights of successive calls are correlated (%.2f)" % np.abs(lag).max())


def g_top(rng, i):
    c = {"top": ["Star", "Ring", "VonNeumann", "Pyramid", "Random"][i % 5], "static": rng.random() < 0.5, "p": rng.choice([1, 2]), "ties": rng.random() < 0.3, "close": rng.random() < 0.1, "grid": rng.random() < 0.2}
    c["d"] = rng.choice([1, 2, 3, 3, 12])
    c["n"] = tail(rng, [2, 3, 5, 9, 16, 16, 42], [130, 260], 0.03 if c["top"] in ("Star", "Ring") else 0.005)
    if c["top"] == "VonNeumann":
        c["d"], c["r"] = rng.choice([(1, 1), (2, 1), (2, 2), (1, 2), (3, 1)])
        c["n"] = delannoy(c["d"], c["r"]) + rng.choice([0, 1, 4])
    if c["top"] == "Pyramid":
        c["d"] = rng.choice([2, 3])
        c["n"] = rng.choice([2, c["d"] + 1, c["d"] + 2, 8, 15, 15, 42])
    c["k"] = rng.choice([1, 2, max(1, c["n"] - 1), c["n"]])
    c["k"] = min(c["k"], c["n"] - (c["top"] == "Random"))
    c["k"] = max(1, c["k"])
    c["ctor"] = rng.choice(["default", True, False])        # Star and VonNeumann take the argument and ignore it
    c["scale"] = rng.choice([1.0, 1.0, 1.0, 1.0, 1e7, 1e-7]) if c["top"] in ("Ring", "VonNeumann") else 1.0
    c["stay"] = rng.random() < 0.25     # the swarm does not move, only its personal bests and k change
    return c


@rac(["P04", "P20"], "topology", g_top, 1000, 10000)
def c_top(case, pid):
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], case["d"]
    name = case["top"]
    top = getattr(T, name)(static=case["static"]) if name in ("Ring", "Pyramid", "Random") else getattr(T, name)() if case["ctor"] == "default" else getattr(T, name)(static=case["ctor"])
    static = case["static"] if name in ("Ring", "Pyramid", "Random") else True
    first, nb0 = None, None
    known_cost, known_pos = np.inf, np.array([])
    for step in range(3):
        X = rs.uniform(-3, 3, (n, d))
        if case["grid"]:
            X = np.round(X)
        X = X * case["scale"]
        k = case["k"]
        if case["stay"] and step:
            X = first.copy()
            if not static:
                k = [1, max(1, n - 1), min(2, n - 1)][(step + n) % 3]
        PC = rs.uniform(-1, 4, n)
        if case["ties"]:
            PC = np.round(PC)
        if case.get("close"):
            PC = 1.0 + 1e-12 * rs.randint(0, 9, n) - 1e-11 * step
        if rs.uniform() < 0.2:
            PC[rs.uniform(size=n) < 0.4] = np.inf
        s = swarm(rs, n, d, position=X, pbest_cost=PC, best_pos=known_pos, best_cost=known_cost)
        args = {"Ring": {"p": case["p"], "k": k}, "VonNeumann": {"p": case["p"], "r": case.get("r")}, "Random": {"k": k}}.get(name, {})
        keep = copy.deepcopy({f: getattr(s, f) for f in trace.FIELDS})
        G, bc = top.compute_gbest(s, **args)
        need(all(same(keep[f], getattr(s, f)) for f in trace.FIELDS if f != "options"), "compute_gbest modified the swarm")
        if first is None:
            first = X
        base = first if static else X
        low = float(np.min(PC))
        Pp = s.pbest_pos
        if name == "Star":
            if step and known_cost <= low:
                need(same(G, known_pos) or known_cost == low, "star forgot a better best position")
                need(bc == known_cost, "star reports %r although it knows %r" % (bc, known_cost))
            else:
                check_best_attractor(Pp, PC, G)
                need(bc == low, "best cost %r instead of %r" % (bc, low))
            known_cost, known_pos = float(bc), np.array(G)
            continue
        need(bc == low, "best cost %r instead of %r" % (float(bc), low))
        if name == "Ring":
            if not case["grid"]:
                check_knn_attractor(base, Pp, PC, G, k, case["p"])
        elif name == "VonNeumann":
            if not case["grid"]:
                check_knn_attractor(base, Pp, PC, G, delannoy(d, case["r"]), case["p"])
        elif name == "Pyramid":
            if n <= d + 1:
                check_best_attractor(Pp, PC, G)
            else:
                check_delaunay_attractor(Pp, PC, G, delaunay_nbs(base), base)
        else:
            nb = trace.nb_lists(top)
            if nb is not None:
                if static and nb0 is not None:
                    need(nb == nb0, "a static random topology changed its neighbours")
                nb0 = nb
                check_nb_attractor(Pp, PC, G, nb)
            for i in range(n):
                need(any(same(G[i], Pp[m]) and PC[m] <= PC[i] for m in range(n)), "particle %d is attracted to a worse position than its own best" % i)


@rac(["P20"], "random-dynamic", lambda rng, i: {"static": i % 2 == 0, "n": rng.choice([12, 20]), "k": rng.choice([1, 2, 3])}, 12, 60)
def c_dyn(case, pid):
    """a dynamic random topology draws its neighbours anew, a static one never does (seen through the attractors)"""
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], 2
    top = T.Random(static=case["static"])
    s = swarm(rs, n, d)
    G = [np.array(top.compute_gbest(s, k=case["k"])[0]) for _ in range(8)]
    changed = any(not same(G[0], g) for g in G)
    need(changed != case["static"], "a %s random topology %s its neighbours in later calls" % ("static" if case["static"] else "dynamic", "changes" if case["static"] else "keeps"))


def g_graph(rng, i):
    n = rng.choice([2, 3, 4, 5, 6, 8, 13, 13, rng.randint(2, 20), rng.randint(7, 40), 30, 55])
    return {"n": n, "k": rng.choice([1, 1, 1, 2, max(1, n // 2), n - 1]) if n > 2 else 1, "static": rng.random() < 0.5}


@rac(["P19"], "graph", lambda rng, i: (lambda c: dict(c, k=min(c["k"], c["n"] - 1)))(g_graph(rng, i)), 1500, 15000)
def c_graph(case, pid):
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n = case["n"]
    top = T.Random(static=case["static"])
    for _ in range(2):
        s = swarm(rs, n, rs.randint(1, 4))
        with deadline(20, "the neighbour graph is not built"):
            top.compute_gbest(s, k=case["k"])
        nb = trace.nb_lists(top)
        need(nb is not None, "no neighbour lists")
        check_graph(nb, n, case["k"])


@rac(["P23"], "delannoy", lambda rng, i: {"d": i // 8, "r": i % 8}, 64, 100)
def c_del(case, pid):
    P, H, O, T, Swarm = mods()
    D = T.VonNeumann.delannoy
    d, r = case["d"], case["r"]
    v = D(d, r)
    need(v == delannoy(d, r), "D(%d, %d) is %r instead of %d" % (d, r, v, delannoy(d, r)))
    need(v == D(r, d), "D(%d, %d) is not symmetric" % (d, r))
    if d and r:
        need(v == D(d - 1, r) + D(d - 1, r - 1) + D(d, r - 1), "recurrence fails for D(%d, %d)" % (d, r))


@rac(["P23"], "delannoy-large", lambda rng, i: {"d": [9, 3, 2, 5][i % 4], "r": [9, 90, 400, 20][i % 4]}, 4, 4)
def c_dellarge(case, pid):
    """values of the order of a million, by the closed formula"""
    D = mods()[3].VonNeumann.delannoy
    d, r = case["d"], case["r"]
    want = sum(math.comb(d, k) * math.comb(r, k) * 2 ** k for k in range(min(d, r) + 1))
    for a, b in ((d, r), (r, d)):
        v = D(a, b)
        need(v == want, "D(%d, %d) is %r instead of %d" % (a, b, v, want))


@rac(["P23"], "delannoy-huge", lambda rng, i: {"d": [30, 12, 18, 45][i % 4], "r": [30, 60, 18, 26][i % 4]}, 4, 4)
def c_delhuge(case, pid):
    """values beyond 2^31, 2^53 and 2^63; the plain recursion does not finish (no verdict), a faster one must be exact"""
    D = mods()[3].VonNeumann.delannoy
    d, r = case["d"], case["r"]
    want = sum(math.comb(d, k) * math.comb(r, k) * 2 ** k for k in range(min(d, r) + 1))
    for a, b in ((d, r), (r, d)):
        try:
            with deadline(0.3, "D(%d, %d)" % (a, b)):
                v = D(a, b)
        except Violation:
            continue
        need(v == want, "D(%d, %d) is %r instead of %d" % (a, b, v, want))


@rac(["P23", "P04"], "vonneumann-count", lambda rng, i: {"d": 1 + i % 3, "r": 1 + (i // 3) % 2}, 6, 18)
def c_vncount(case, pid):
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    d, r = case["d"], case["r"]
    k = delannoy(d, r)
    n = k + 3
    top = T.VonNeumann()
    s = swarm(rs, n, d)
    G, bc = top.compute_gbest(s, p=2, r=r)
    check_knn_attractor(s.position, s.pbest_pos, s.pbest_cost, G, k, 2)
    nb = trace.nb_lists(top)
    need(nb is None or all(len(set(a)) == k for a in nb), "Von Neumann uses %s neighbours instead of %d" % (len(nb[0]) if nb else None, k))


# ---------------------------------------------------------------- swarm generation (P08, P13)
def g_gen(rng, i):
    return {"n": tail(rng, [1, 2, 7, 20, 130], [1025, 2100], 0.03), "d": tail(rng, [1, 2, 5, 5, 33], [130, 300], 0.03), "mode": ["cont", "bounded", "disc", "binary", "vel", "create"][i % 6], "bounds": rng.choice(["unit", "narrow", "wide", "mixed", "negative", "tiny", "offset"]),
            "clamp": rng.choice([None, [-0.5, 0.5], [0.2, 0.7], [-3.0, -1.0], [2.0, 2.0]]), "center": rng.choice([1.0, 1.0, 2.5, "array"]), "init": rng.random() < 0.4, "bad": rng.random() < 0.4}


@rac(["P08", "P13", "P06"], "generators", g_gen, 900, 9000)
def c_gen(case, pid):
    import pyswarms.backend.generators as Gn
    rs = RS(case)
    n, d, mode = case["n"], case["d"], case["mode"]
    lb, ub = make_bounds(case["bounds"], d, rs)
    center = rs.uniform(0.5, 3, d) if case["center"] == "array" else case["center"]
    c0 = copy.deepcopy(center)
    lb0, ub0 = lb.copy(), ub.copy()
    vel = lambda V, cl: (shape(V, n, d), need(np.all(V >= (cl or (0, 1))[0]) and np.all(V <= (cl or (0, 1))[1]), "initial velocities leave %s: %s" % (cl or (0, 1), np.asarray(V).tolist())))
    clamp = tuple(case["clamp"]) if case["clamp"] else None
    if mode == "vel":
        vel(Gn.generate_velocity(n, d, clamp=clamp), clamp)
        return
    if mode in ("cont", "bounded"):
        b = None if mode == "cont" else (lb, ub)
        if mode == "bounded":
            center = 1.0
            c0 = 1.0
        if case["init"]:
            X0 = rs.uniform(-3, 3, (n, d)) if b is None else lb + (ub - lb) * rs.uniform(0, 1, (n, d))
            if b is not None and rs.uniform() < 0.5:
                j = rs.randint(d)
                X0[rs.randint(n), j] = (lb, ub)[rs.randint(2)][j]
            bad = case["bad"] and b is not None
            if bad:
                i, j = rs.randint(n), rs.randint(d)
                X0[i, j] = rs.choice([np.nextafter(lb[j], -np.inf), np.nextafter(ub[j], np.inf), lb[j] - 5, ub[j] + 5])
            keep = X0.copy()
            try:
                X = Gn.generate_swarm(n, d, bounds=b, center=center, init_pos=X0)
            except ValueError:
                need(bad, "initial positions inside the bounds are rejected")
                return
            need(not bad, "initial positions outside of the bounds are accepted")
            need(same(X, keep), "initial positions are not used verbatim")
            need(same(X0, keep), "the initial positions of the caller were modified")
        else:
            X = shape(Gn.generate_swarm(n, d, bounds=b, center=center), n, d)
            need(np.issubdtype(X.dtype, np.floating), "positions of type %s" % X.dtype)
            if b is not None:
                need(np.all(X >= lb) and np.all(X <= ub), "initial positions outside of the bounds: %s" % X.tolist())
            else:
                need(np.all(X >= 0) and np.all(X <= center) and (np.all(X < center) or np.any(np.asarray(center) < 1e-300)), "initial positions outside of [0, %s)" % (center,))
            if n * d > 4:
                u = (X - lb) / (ub - lb) if b is not None else X / center
                need(len(np.unique(X)) > n * d // 2, "initial positions coincide")
        need(same(center, c0) and same(lb, lb0) and same(ub, ub0), "arguments were modified")
        return
    if mode in ("disc", "binary"):
        binary = mode == "binary"
        if case["init"]:
            X0 = rs.randint(0, 2, (n, d)) if binary else np.array([rs.permutation(d) for _ in range(n)])
            bad = case["bad"] and binary and n * d > 2
            if bad:
                X0.reshape(-1)[:3] = [0, 1, 2]
            keep = X0.copy()
            try:
                X = Gn.generate_discrete_swarm(n, d, binary=binary, init_pos=X0)
            except ValueError:
                need(bad, "binary initial positions are rejected")
                return
            need(not bad, "initial positions with three values are accepted for a binary swarm")
            need(same(X, keep) and same(X0, keep), "initial positions are not used verbatim")
        else:
            X = shape(Gn.generate_discrete_swarm(n, d, binary=binary), n, d)
            if binary:
                need(np.all((X == 0) | (X == 1)), "binary positions contain other values: %s" % X.tolist())
                need(n * d < 60 or len(np.unique(X)) == 2, "binary positions are all equal")
            else:
                need(same(np.sort(X, axis=1), np.tile(np.arange(d), (n, 1))), "rows are no permutations: %s" % X.tolist())
        return
    kind = rs.randint(3)
    o = {"c1": 0.5, "c2": 0.2, "w": 0.7}
    o0 = dict(o)
    if kind == 0:
        s = Gn.create_swarm(n, d, options=o, bounds=(lb, ub), clamp=clamp)
        need(np.all(s.position >= lb) and np.all(s.position <= ub), "created swarm leaves the bounds")
    elif kind == 1:
        s = Gn.create_swarm(n, d, options=o, center=center, clamp=clamp)
        need(np.all(s.position >= 0) and np.all(s.position <= center), "created swarm leaves [0, center)")
    else:
        s = Gn.create_swarm(n, d, discrete=True, binary=True, options=o, clamp=clamp)
        need(np.all((s.position == 0) | (s.position == 1)), "created binary swarm is not binary")
    shape(s.position, n, d)
    vel(s.velocity, clamp)
    need(s.n_particles == n and s.dimensions == d, "wrong swarm size recorded")
    need(s.options == o0 and o == o0, "options of the created swarm: %s" % s.options)
    need(same(s.pbest_pos, s.position), "the best positions of a new swarm are not its positions")


@rac(["P08"], "constructor-init", lambda rng, i: {"cls": ["BinaryPSO", "BinaryPSO", "GlobalBestPSO", "LocalBestPSO", "GeneralOptimizerPSO"][i % 5], "n": rng.choice([2, 5, 30]), "d": rng.choice([1, 2, 4, 33]), "vals": rng.choice([[0, 1], [0, 1], [-1, 1], [2, 5], [0.25, 0.75], [1, 1], [0, 0]]), "bounded": rng.random() < 0.5, "clamp": rng.random() < 0.5}, 60, 600)
def c_ctorinit(case, pid):
    """the initial positions given to a constructor are the positions of the swarm, now and after a reset"""
    import pyswarms
    rs = RS(case)
    n, d, cls = case["n"], case["d"], case["cls"]
    o = {"c1": 0.5, "c2": 0.3, "w": 0.9, "k": 2, "p": 2}
    kw = {"velocity_clamp": (-1, 1)} if case["clamp"] else {}
    if cls == "BinaryPSO":
        X0 = np.array(case["vals"])[rs.randint(0, 2, (n, d))]
        K = pyswarms.discrete.BinaryPSO
    else:
        X0 = rs.uniform(-3, 3, (n, d))
        if rs.uniform() < 0.5:
            X0.reshape(-1)[0] = X0.min() - 2
        if case["bounded"]:
            # every coordinate of the box is attained exactly
            kw["bounds"] = (X0.min(axis=0), X0.max(axis=0) + (X0.max(axis=0) == X0.min(axis=0)))
        K = getattr(pyswarms.single, cls)
        if cls == "GeneralOptimizerPSO":
            kw["topology"] = pyswarms.backend.topology.Star()
    keep = X0.copy()
    opt = K(n_particles=n, dimensions=d, options=o, init_pos=X0, **kw)
    need(same(opt.swarm.position, keep), "the initial positions of the swarm are not those given (%s)" % where_differs(shape(opt.swarm.position, n, d), keep))
    opt.reset()
    need(same(opt.swarm.position, keep), "the positions after a reset are not the initial positions given")
    need(same(X0, keep), "the initial positions of the caller were modified")


@rac(["P08"], "generator-spread", lambda rng, i: {"mode": ["cont", "bounded", "binary", "vel", "perm"][i % 5]}, 5, 10)
def c_spread(case, pid):
    import pyswarms.backend.generators as Gn
    n, d, m = 3000, 3, case["mode"]
    rs = RS(case)
    lb, ub = make_bounds("mixed", d, rs)
    if m == "cont":
        uniform01(Gn.generate_swarm(n, d, center=2.0) / 2.0, "initial positions")
    elif m == "bounded":
        X = (Gn.generate_swarm(n, d, bounds=(lb, ub)) - lb) / (ub - lb)
        for j in range(d):
            uniform01(X[:, j], "initial positions, dimension %d" % j)
    elif m == "vel":
        uniform01((Gn.generate_velocity(n, d, clamp=(-2, 3)) + 2) / 5, "initial velocities")
    elif m == "binary":
        X = Gn.generate_discrete_swarm(n, d, binary=True)
        need(np.all(np.abs(X.mean(0) - 0.5) < 0.06), "binary positions are not balanced: %s" % X.mean(0))
    else:
        X = Gn.generate_discrete_swarm(n, d)
        need(len({tuple(r) for r in X.tolist()}) == 6, "not all permutations occur")


# ---------------------------------------------------------------- binary update (P09)
@rac(["P09"], "flip", lambda rng, i: {"v": [-3.0, -0.7, 0.0, 0.4, 2.5][i % 5]}, 5, 10)
def c_flip(case, pid):
    """all velocities equal v: frequency of ones and independence across particles and dimensions"""
    from pyswarms.discrete import BinaryPSO
    v = case["v"]
    n, d = 400, 6
    opt = BinaryPSO(n_particles=n, dimensions=d, options={"c1": 0.5, "c2": 0.5, "w": 0.9, "k": 2, "p": 2}, velocity_clamp=(v, v))
    seen = []
    def f(X):
        seen.append(np.array(X))
        return X.sum(1).astype(float)
    opt.optimize(f, 8, verbose=False)
    A = np.array(seen[1:], dtype=float)
    p = 1 / (1 + math.exp(-v))
    sd = math.sqrt(p * (1 - p))
    def freq(M, what):
        N = M.size
        need(abs(M.mean() - p) < 6.5 * sd / math.sqrt(N), "%s: a bit is 1 with frequency %.3f instead of %.3f for velocity %s" % (what, M.mean(), p, v))
    freq(A, "all")
    for j in range(d):
        freq(A[:, :, j], "dimension %d" % j)
    for t in range(len(A)):
        freq(A[t], "iteration %d" % t)
    # independence: variance of row and column sums
    for M, N, what in ((A.sum(2).reshape(-1), d, "dimensions"), (A.sum(1).reshape(-1), n, "particles"), (A.sum(0).reshape(-1), len(A), "iterations")):
        want = N * sd * sd
        rel = math.sqrt(2.0 / len(M)) * 8
        need(abs(M.var() / want - 1) < max(rel, 0.35), "bits of different %s are not independent (variance ratio %.2f)" % (what, M.var() / want))


@rac(["P09"], "sigmoid", lambda rng, i: {"i": i}, 3, 10)
def c_sig(case, pid):
    """per-particle velocities decide: large velocity gives 1, very negative gives 0"""
    from pyswarms.discrete import BinaryPSO
    rs = RS(case)
    n, d = 60, 5
    opt = BinaryPSO(n_particles=n, dimensions=d, options={"c1": 0.0, "c2": 0.0, "w": 1.0, "k": 2, "p": 2})
    V = rs.choice([-60.0, 60.0], (n, d))
    opt.swarm.velocity = V.copy()
    seen = []
    def f(X):
        seen.append(np.array(X))
        return X.sum(1).astype(float)
    opt.optimize(f, 4, verbose=False)
    for x in seen[1:]:
        need(same(x, (V > 0) * 1), "a bit is not decided by the velocity of its own particle and dimension (%s)" % where_differs(x, (V > 0) * 1))


@rac(["P09"], "threshold", lambda rng, i: {"n": rng.choice([1, 2, 6, 40]), "d": rng.choice([1, 2, 5, 33]), "amp": rng.choice([0.0, 1.0, 6.0, 20.0, 30.0, 60.0])}, 60, 600)
def c_thresh(case, pid):
    """numpy's generator is replaced by chosen numbers close to the probability: the bit is 1 exactly when the number is below"""
    from pyswarms.discrete import BinaryPSO
    rs = RS(case)
    n, d = case["n"], case["d"]
    opt = BinaryPSO(n_particles=n, dimensions=d, options={"c1": 0.0, "c2": 0.0, "w": 1.0, "k": 1, "p": 2})
    V = rs.uniform(-1, 1, (n, d)) * case["amp"]
    p = 1 / (1 + np.exp(-V))
    q = np.exp(-np.abs(V)) / (1 + np.exp(-np.abs(V)))
    below = rs.uniform(size=(n, d)) < 0.5
    U = np.where(below, p - 0.01 * q, p + 0.01 * q)
    if case["amp"] == 0.0:
        U = np.where(below, np.nextafter(0.5, 0), 0.5)
    U = np.clip(np.where(p < 1e-12, np.where(below, 0.0, 1e-9), U), 0.0, np.nextafter(1.0, 0))
    sure = (U < p) == below
    opt.swarm.velocity = V.copy()
    used = []
    def draw(*a, **k):
        want = k.get("size", a[-1] if len(a) in (1, 3) and not np.isscalar(a[-1]) else a)
        used.append(tuple(want) if want is not None and not np.isscalar(want) else want)
        return U.copy()
    names = [x for x in ("random_sample", "random", "rand", "ranf", "sample", "uniform") if hasattr(np.random, x)]
    old = {x: getattr(np.random, x) for x in names}
    try:
        for x in names:
            setattr(np.random, x, draw)
        got = opt._compute_position(opt.swarm)
    except (AttributeError, TypeError):
        return          # another way of drawing or updating: nothing observed
    finally:
        for x in names:
            setattr(np.random, x, old[x])
    if used != [(n, d)]:
        return
    got = shape(got, n, d)
    need(np.all((got == below)[sure]), "velocity %s, random number %s: the bit is not decided by the number being less than 1/(1+exp(-v))" % tuple(A[sure & (got != below)].tolist()[:1] for A in (V, U)))


# ---------------------------------------------------------------- stopping window validation (P11)
@rac(["P11"], "window", lambda rng, i: {"w": [0, -1, -3, 1.5, 2.0, "2", None, 1, 4][i % 9], "cls": ["GlobalBestPSO", "LocalBestPSO", "GeneralOptimizerPSO", "BinaryPSO"][i // 9 % 4]}, 36, 36)
def c_window(case, pid):
    from pyswarms.single import GlobalBestPSO, LocalBestPSO, GeneralOptimizerPSO
    from pyswarms.discrete import BinaryPSO
    import pyswarms.backend.topology as T
    o = {"c1": 0.5, "c2": 0.3, "w": 0.9, "k": 2, "p": 2}
    kw = dict(n_particles=4, dimensions=2, options=o, ftol=0.1, ftol_iter=case["w"])
    K = {"GlobalBestPSO": GlobalBestPSO, "LocalBestPSO": LocalBestPSO, "GeneralOptimizerPSO": GeneralOptimizerPSO, "BinaryPSO": BinaryPSO}[case["cls"]]
    if case["cls"] == "GeneralOptimizerPSO":
        kw["topology"] = T.Star()
    good = type(case["w"]) is int and case["w"] > 0
    try:
        K(**kw)
    except (AssertionError, TypeError, ValueError):
        need(not good, "window %r is rejected" % (case["w"],))
        return
    need(good, "window %r is accepted" % (case["w"],))


# ---------------------------------------------------------------- option schedules (P12)
def g_oh(rng, i):
    n = rng.choice([1, 2, 10, 37, 1500])
    return {"strategy": {o: rng.choice(OH) for o in ("w", "c1", "c2") if rng.random() < 0.7}, "i": rng.randint(0, n - 1), "n": n, "end": {o: rng.uniform(-1, 3) for o in ("w", "c1", "c2") if rng.random() < 0.5} if rng.random() < 0.5 else rng.choice([None, None, None, {"w": 0.0, "c1": 0.0, "c2": 0}]),
            "d1": rng.choice([None, 0.7]), "d2": rng.choice([None, 3.0]), "m": rng.choice([None, 2.0]), "bad": rng.random() < 0.08, "extra": rng.random() < 0.4}


@rac(["P12", "P13"], "schedules", g_oh, 800, 8000)
def c_oh(case, pid):
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    start = {o: float(rs.uniform(-2, 3)) for o in ("w", "c1", "c2")}
    if case["extra"]:
        start.update(k=3, p=2)
    keep = dict(start)
    st = dict(case["strategy"])
    if case["bad"]:
        st["w"] = "no_such_strategy"
    st0 = dict(st)
    oh = H.OptionsHandler(strategy=st)
    kw = {k: v for k, v in (("end_opts", case["end"]), ("d1", case["d1"]), ("d2", case["d2"]), ("n", case["m"])) if v is not None}
    kw0 = copy.deepcopy(kw)
    try:
        got = oh(start, iternow=case["i"], itermax=case["n"], **kw)
    except KeyError:
        need(case["bad"], "strategies %s raise KeyError" % st)
        return
    need(not case["bad"], "an unknown strategy does not raise KeyError")
    need(start == keep, "the initial options were modified: %s became %s" % (keep, start))
    need(kw == kw0 and st == st0, "arguments of the schedule were modified")
    need(set(got) == set(keep), "options after the schedule: %s" % sorted(got))
    pars = {"d1": case["d1"] if case["d1"] is not None else 0.2, "d2": case["d2"] if case["d2"] is not None else 7, "m": case["m"] if case["m"] is not None else 1.2}
    for o in keep:
        if o in st:
            v = schedule(st[o], o, keep, case["i"], case["n"], case["end"], **pars)
            if st[o] == "random":
                need(v[0] <= got[o] <= v[1], "random option %s is %r, not between %r and %r" % (o, got[o], v[0], v[1]))
            else:
                need(close(got[o], v), "option %s (%s) is %r instead of %r in iteration %d of %d" % (o, st[o], got[o], float(v), case["i"], case["n"]))
        else:
            need(got[o] == keep[o], "option %s has no strategy but changed to %r" % (o, got[o]))


@rac(["P12"], "random-schedule", lambda rng, i: {"end": [None, 3.0, -2.0][i % 3], "o": ["w", "c1", "c2"][i // 3 % 3]}, 9, 9)
def c_ohr(case, pid):
    P, H, O, T, Swarm = mods()
    o = case["o"]
    oh = H.OptionsHandler(strategy={o: "random"})
    kw = {} if case["end"] is None else {"end_opts": {o: case["end"]}}
    start = {"w": 0.6, "c1": 0.6, "c2": 0.6}
    e = 1.6 if case["end"] is None else case["end"]
    v = [oh(start, iternow=i, itermax=2000, **kw)[o] for i in range(2000)]
    uniform01((np.array(v) - 0.6) / (e - 0.6), "random option")
    need(start == {"w": 0.6, "c1": 0.6, "c2": 0.6}, "initial options modified")


# ---------------------------------------------------------------- parallel evaluation (P14)
_hits = None


def par_cost(X, a=1.0, b=0.0, tag=None, extra=0, s=0):
    X = np.asarray(X)
    if tag != "tag" or a == 0 and (extra is None) == (extra == []) or a == 0 and extra == [] and s != "":
        raise RuntimeError("keyword arguments lost")
    if _hits is not None:
        with _hits.get_lock():
            for x in X:
                _hits[int(round(x[0]))] += 1
    return a * (X ** 2).sum(1) + b + np.sin(X[:, 0])


@rac(["P14"], "pool", lambda rng, i: {"n": rng.choice([1, 2, 3, 5, 8, 13, 50]), "d": rng.choice([1, 2, 3, 11]), "procs": rng.choice([1, 2, 3, 4, 7, 12]), "kw": i % 3}, 24, 120)
def c_pool(case, pid):
    global _hits
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], case["d"]
    X = rs.uniform(-1, 1, (n, d))
    X[:, 0] = rs.permutation(n)
    s = swarm(rs, n, d, position=X.copy())
    kw = [{"a": 2.5, "b": -1.0, "tag": "tag"}, {"a": 0.0, "b": 0, "tag": "tag", "extra": None}, {"a": -0.0, "b": False, "tag": "tag", "extra": [], "s": ""}][case["kw"]]
    _hits = mp.Array("i", n)
    serial = np.array(O.compute_objective_function(s, par_cost, **kw))
    need(list(_hits) == [1] * n, "serial evaluation counts %s" % list(_hits))
    _hits = mp.Array("i", n)
    pool = mp.Pool(case["procs"])
    try:
        par = np.array(O.compute_objective_function(s, par_cost, pool=pool, **kw))
    finally:
        pool.terminate()
        pool.join()
    hits = list(_hits)
    _hits = None
    need(same(X, s.position), "evaluation modified the positions")
    need(same(serial, par_cost(X, **kw)), "serial costs: %s" % where_differs(serial, par_cost(X, **kw)))
    need(hits == [1] * n, "evaluations per particle with %d processes: %s" % (case["procs"], hits))
    need(par.shape == serial.shape and close(par, serial), "%d processes: %s" % (case["procs"], where_differs(par, serial)))


@rac(["P14"], "many-workers", lambda rng, i: {"n": rng.choice([1, 5, 33, 64, 65, 130, 300]), "d": rng.choice([1, 2, 70]), "procs": rng.choice([1, 3, 8, 9, 16, 33, 40, 64, 100])}, 40, 200)
def c_threads(case, pid):
    """a pool of (many) threads, so that small chunks and more workers than particles are cheap"""
    from multiprocessing.pool import ThreadPool
    P, H, O, T, Swarm = mods()
    rs = RS(case)
    n, d = case["n"], case["d"]
    X = rs.uniform(-1, 1, (n, d))
    X[:, 0] = rs.permutation(n)
    s = swarm(rs, n, d, position=X.copy())
    seen = []
    def f(Y, a=0.0):
        Y = np.asarray(Y)
        seen.extend(int(round(y[0])) for y in Y)
        return a * (Y ** 2).sum(1) + np.sin(Y[:, 0]) if len(Y) else np.zeros(0)
    pool = ThreadPool(case["procs"])
    try:
        par = np.array(O.compute_objective_function(s, f, pool=pool, a=2.0))
    finally:
        pool.terminate()
        pool.join()
    need(sorted(seen) == list(range(n)), "particles evaluated by %d workers: %s" % (case["procs"], sorted(seen)[:20]))
    want = 2.0 * (X ** 2).sum(1) + np.sin(X[:, 0])
    need(par.shape == (n,) and close(par, want), "%d workers: %s" % (case["procs"], where_differs(par, want)))


@rac(["P14"], "optimize-pool", lambda rng, i: {"cls": ["GlobalBestPSO", "LocalBestPSO", "GeneralOptimizerPSO", "BinaryPSO"][i % 4], "procs": [2, 3, 1, 7][i // 4 % 4], "n": rng.choice([3, 5, 6])}, 8, 32)
def c_optpool(case, pid):
    """a run with processes equals the serial run with the same random numbers"""
    from pyswarms.single import GlobalBestPSO, LocalBestPSO, GeneralOptimizerPSO
    from pyswarms.discrete import BinaryPSO
    import pyswarms.backend.topology as T
    K = {"GlobalBestPSO": GlobalBestPSO, "LocalBestPSO": LocalBestPSO, "GeneralOptimizerPSO": GeneralOptimizerPSO, "BinaryPSO": BinaryPSO}[case["cls"]]
    res = []
    for procs in (None, case["procs"]):
        kw = dict(n_particles=case["n"], dimensions=2, options={"c1": 0.5, "c2": 0.3, "w": 0.9, "k": 2, "p": 2})
        if case["cls"] == "GeneralOptimizerPSO":
            kw["topology"] = T.Ring()
        np.random.seed(case["seed"] % 1000)
        opt = K(**kw)
        r = opt.optimize(par_cost, 4, n_processes=procs, verbose=False, a=2.0, b=1.0, tag="tag")
        res.append((r, opt.cost_history, opt.pos_history, opt.swarm.pbest_cost))
    need(same(res[0][0][0], res[1][0][0]) and same(res[0][0][1], res[1][0][1]), "the run with %d processes returns %s instead of %s" % (case["procs"], res[1][0], res[0][0]))
    need(same(res[0][1], res[1][1]) and same(res[0][2], res[1][2]) and same(res[0][3], res[1][3]), "the run with %d processes has other histories" % case["procs"])


# ---------------------------------------------------------------- hyperparameter search (P15)
class FakeOptimizer:
    log, score_of = [], None

    def __init__(self, n_particles, dimensions, options, bounds=None, oh_strategy=None, bh_strategy="periodic", velocity_clamp=None, **kw):
        self.args = dict(n=n_particles, d=dimensions, options=copy.deepcopy(options), bounds=bounds, clamp=velocity_clamp, kw=kw)

    def optimize(self, objective_func, iters, n_processes=None, **kw):
        s = FakeOptimizer.score_of(self.args["options"])
        FakeOptimizer.log.append((self.args, objective_func, iters, n_processes, kw, s))
        return s, np.zeros(2)


def obj_dummy(x):
    return (x ** 2).sum(1)


def g_search(rng, i):
    return {"kind": ["grid", "random"][i % 2], "max": rng.random() < 0.5, "n": rng.choice([3, 9]), "d": rng.choice([1, 4]), "iters": rng.choice([1, 7]), "sel": rng.choice([1, 2, 5, 12]),
            "lens": [rng.choice([0, 1, 2, 3]) for _ in range(5)], "bounds": rng.random() < 0.5, "clamp": rng.choice([None, "none", [0, 1], [-2.0, 3.0]]), "ties": rng.random() < 0.4, "order": rng.random() < 0.5, "nok": rng.random() < 0.3, "big": rng.random() < 0.03}


@rac(["P15"], "search", g_search, 300, 3000)
def c_search(case, pid):
    from pyswarms.utils.search import GridSearch, RandomSearch
    rs = RS(case)
    table = {}
    def score(o):
        key = tuple(sorted((k, float(v)) for k, v in o.items()))
        if key not in table:
            table[key] = float(rs.randint(0, 3)) if case["ties"] else float(rs.uniform(-1, 1))
        return table[key]
    FakeOptimizer.log, FakeOptimizer.score_of = [], staticmethod(score)
    bounds = (np.zeros(case["d"]), np.ones(case["d"])) if case["bounds"] else None
    kw = {}
    if case["bounds"]:
        kw["bounds"] = bounds
    clamp = (0, 1)
    if case["clamp"] is not None:
        clamp = kw["velocity_clamp"] = None if case["clamp"] == "none" else tuple(case["clamp"])
    if case["kind"] == "grid":
        opts = {}
        vals = {"c1": [0.1, 0.5, 2.0], "c2": [0.3, 0.9, 1.1], "w": [0.2, 0.4, 0.8], "k": [1, 2, 3], "p": [1, 2, 1.5]}
        names, lens = ["c1", "c2", "w", "k", "p"], case["lens"]
        if case.get("big"):
            vals = {x: [0.5 + 0.1 * j for j in range(7)] for x in ("c1", "c2", "w")}
            vals.update(k=[1, 2, 3, 4, 5, 6, 7], p=[1, 2])
            lens = [7, 4, 5, 6, 2]
        if case["order"]:
            names.reverse()
        if case["nok"]:
            names = [x for x in names if x not in "kp"]
        for x, l in zip(names, lens):
            v = list(vals[x])
            rs.shuffle(v)
            opts[x] = v[0] if l == 0 else v[:l]
        want = [dict(zip(opts, c)) for c in itertools.product(*[v if isinstance(v, list) else [v] for v in opts.values()])]
    else:
        c = lambda a, b: [a, b]
        opts = {"c1": c(0.5, 1.0), "c2": c(6.0, 10.0), "w": c(2.0, 5.0), "k": c(3, 6), "p": 1}
    keep = copy.deepcopy(opts)
    if case["kind"] == "grid":
        g = GridSearch(FakeOptimizer, n_particles=case["n"], dimensions=case["d"], options=opts, objective_func=obj_dummy, iters=case["iters"], **kw)
    else:
        g = RandomSearch(FakeOptimizer, n_particles=case["n"], dimensions=case["d"], options=opts, objective_func=obj_dummy, iters=case["iters"], n_selection_iters=case["sel"], **kw)
    r = g.search(maximum=case["max"])
    log = FakeOptimizer.log
    need(not trace.differs(keep, opts), "the options of the search were modified")
    tried = [l[0]["options"] for l in log]
    srt = lambda L: sorted(tuple(sorted((k, float(v)) for k, v in o.items())) for o in L)
    if case["kind"] == "grid":
        need(srt(tried) == srt(want), "evaluated combinations %s instead of %s" % (srt(tried), srt(want)))
    else:
        need(len(tried) == case["sel"], "%d combinations evaluated instead of %d" % (len(tried), case["sel"]))
        for o in tried:
            need(set(o) == set(opts), "combination %s" % o)
            need(o["p"] == opts["p"], "p is %r" % (o["p"],))
            for x in ("c1", "c2", "w"):
                need(opts[x][0] <= o[x] <= opts[x][1], "%s is %r, range %s" % (x, o[x], opts[x]))
            need(float(o["k"]) == int(o["k"]) and opts["k"][0] <= o["k"] < opts["k"][1], "k is %r, range %s" % (o["k"], opts["k"]))
            need(np.asarray(o["k"]).dtype.kind in "iu", "k is no integer: %r" % (o["k"],))
        if len(tried) >= 5:
            for x in ("c1", "c2", "w"):
                need(len({float(o[x]) for o in tried}) == len(tried), "%s is not drawn anew for every combination" % x)
    for a, f, it, npr, k2, s in log:
        need(a["n"] == case["n"] and a["d"] == case["d"], "the optimizer got %s particles in %s dimensions" % (a["n"], a["d"]))
        need(not trace.differs(a["bounds"], bounds), "the optimizer got other bounds: %s" % (a["bounds"],))
        need((a["clamp"] if a["clamp"] is None else tuple(a["clamp"])) == clamp, "the optimizer got velocity clamp %s instead of %s" % (a["clamp"], clamp))
        need(f is obj_dummy and it == case["iters"], "the optimizer ran another objective or %s iterations" % it)
    sc = [l[5] for l in log]
    best = max(sc) if case["max"] else min(sc)
    need(r[0] == best, "search(maximum=%s) returns score %r, scores %s" % (case["max"], r[0], sc))
    key = srt([r[1]])[0]
    need(any(srt([l[0]["options"]])[0] == key and l[5] == best for l in log), "the returned combination %s did not achieve the returned score %r" % (r[1], r[0]))
    need(g.best_score == best and srt([g.best_options])[0] == key, "best_score and best_options differ from the returned ones")


@rac(["P15"], "random-search-range", lambda rng, i: {"k": [[3, 6], [1, 2], [0, 9]][i % 3]}, 3, 9)
def c_rsr(case, pid):
    from pyswarms.utils.search import RandomSearch
    FakeOptimizer.log, FakeOptimizer.score_of = [], staticmethod(lambda o: 1.0)
    opts = {"c1": [0.5, 1.0], "c2": [-6.0, 10.0], "w": [2.0, 5.0], "k": case["k"], "p": 2}
    RandomSearch(FakeOptimizer, n_particles=4, dimensions=2, options=opts, objective_func=obj_dummy, iters=1, n_selection_iters=600).search()
    tried = [l[0]["options"] for l in FakeOptimizer.log]
    for x in ("c1", "c2", "w"):
        a, b = opts[x]
        uniform01((np.array([o[x] for o in tried]) - a) / (b - a), "option %s" % x)
    need({int(o["k"]) for o in tried} == set(range(*case["k"])), "values of k: %s" % sorted({int(o["k"]) for o in tried}))


# ---------------------------------------------------------------- cost decorator (P16, P13)
def g_cost(rng, i):
    return {"n": tail(rng, [1, 2, 3, 5, 5, 60], [130, 300, 1025], 0.05), "d": tail(rng, [1, 2, 3, 5, 5, 24], [130, 300], 0.03), "same": rng.random() < 0.2, "int": rng.random() < 0.2, "ret": rng.choice(["float", "int", "np", "bool", "vec", "vec1", "ragged", "mat", "zero", "npfloat", "none", "mixed"]), "kw": rng.random() < 0.5}


@rac(["P16", "P13"], "decorator", g_cost, 500, 5000)
def c_cost(case, pid):
    import pyswarms
    rs = RS(case)
    n, d = case["n"], case["d"]
    X = rs.uniform(-3, 3, (n, d))
    if case["same"]:
        X[:] = X[rs.randint(n)]
    if case["int"]:
        X = rs.randint(0, 2, (n, d))
    keep = X.copy()
    calls = []
    k = case["ret"]
    good = k in ("float", "int", "np", "bool", "zero", "npfloat", "mixed")
    def val(x):
        b = float((x * np.arange(1, d + 1)).sum())
        return {"mixed": int(b) if b < 0 else b, "float": b, "int": int(b * 10), "np": np.float64(b), "bool": b > 0, "vec": np.array([b, 1.0]), "vec1": np.array([b]), "ragged": None, "mat": np.eye(2) * b, "zero": 0.0, "npfloat": np.float32(b), "none": [b]}[k]
    @pyswarms.cost
    def f(x, **kw):
        calls.append((np.array(x), kw))
        if k == "ragged":
            return [1.0] * (1 + (len(calls) % 2)) if n > 1 else [1.0, 2.0]
        return val(np.asarray(x))
    kw = [{"a": 1, "b": "z"}, {"a": None, "b": 0, "c": ""}][n % 2] if case["kw"] else {}
    try:
        r = f(X, **kw)
    except ValueError:
        need(not good, "a cost function returning %s is rejected" % k)
        need(same(X, keep), "the decorator modified the positions")
        return
    need(same(X, keep), "the decorator modified the positions")
    need(good, "a cost function returning %s is accepted and gives shape %s" % (k, np.shape(r)))
    r = shape(r, n)
    want = np.array([val(x) for x in keep])
    need(same(r, want), "costs: %s" % where_differs(r, want))
    need(len(calls) == n and all(same(c[0], x) for c, x in zip(calls, keep)), "the cost function was not called once per particle on its row")
    need(all(c[1] == kw for c in calls), "keyword arguments were not passed to the cost function")


# ---------------------------------------------------------------- benchmark functions (P17, P18, P13)
INF = float("inf")
FX = {  # name: (bounds per dimension, two-dimensional only)
    "ackley": ((-32, 32), False), "beale": ((-4.5, 4.5), True), "booth": ((-10, 10), True), "bukin6": (((-15, -5), (-3, 3)), True), "crossintray": ((-10, 10), True),
    "easom": ((-100, 100), True), "eggholder": ((-512, 512), True), "goldstein": ((-2, 2), True), "himmelblau": ((-5, 5), True), "holdertable": ((-10, 10), True),
    "levi": ((-10, 10), True), "matyas": ((-10, 10), True), "rastrigin": ((-5.12, 5.12), False), "rosenbrock": ((-INF, INF), False), "schaffer2": ((-100, 100), True),
    "sphere": ((-INF, INF), False), "threehump": ((-5, 5), True)}


def fx_bounds(name, d):
    b = FX[name][0]
    if isinstance(b[0], tuple):
        return np.array([b[0][0], b[1][0]], float), np.array([b[0][1], b[1][1]], float)
    return np.full(d, float(b[0])), np.full(d, float(b[1]))


def fx_ref(name, v):
    """published formula at one point"""
    v = [float(a) for a in v]
    d = len(v)
    x, y = (v + [0.0])[:2]
    s, c, e, pi, sq = math.sin, math.cos, math.exp, math.pi, math.sqrt
    if name == "ackley":
        return -20 * e(-0.2 * sq(sum(a * a for a in v) / d)) - e(sum(c(2 * pi * a) for a in v) / d) + 20 + math.e
    if name == "beale":
        return (1.5 - x + x * y) ** 2 + (2.25 - x + x * y ** 2) ** 2 + (2.625 - x + x * y ** 3) ** 2
    if name == "booth":
        return (x + 2 * y - 7) ** 2 + (2 * x + y - 5) ** 2
    if name == "bukin6":
        return 100 * sq(abs(y - 0.01 * x * x)) + 0.01 * abs(x + 10)
    if name == "crossintray":
        return -0.0001 * (abs(s(x) * s(y) * e(abs(100 - sq(x * x + y * y) / pi))) + 1) ** 0.1
    if name == "easom":
        return -c(x) * c(y) * e(-((x - pi) ** 2 + (y - pi) ** 2))
    if name == "eggholder":
        return -(y + 47) * s(sq(abs(x / 2 + y + 47))) - x * s(sq(abs(x - (y + 47))))
    if name == "goldstein":
        return (1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)) * (30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y))
    if name == "himmelblau":
        return (x * x + y - 11) ** 2 + (x + y * y - 7) ** 2
    if name == "holdertable":
        return -abs(s(x) * c(y) * e(abs(1 - sq(x * x + y * y) / pi)))
    if name == "levi":
        w1, w2 = 1 + (x - 1) / 4, 1 + (y - 1) / 4
        return s(pi * w1) ** 2 + (x - 1) ** 2 * (1 + 10 * s(pi * w1 + 1) ** 2) + (w2 - 1) ** 2 * (1 + s(2 * pi * w2) ** 2)
    if name == "matyas":
        return 0.26 * (x * x + y * y) - 0.48 * x * y
    if name == "rastrigin":
        return 10 * d + sum(a * a - 10 * c(2 * pi * a) for a in v)
    if name == "rosenbrock":
        return sum(100 * (v[i + 1] - v[i] ** 2) ** 2 + (1 - v[i]) ** 2 for i in range(d - 1))
    if name == "schaffer2":
        return 0.5 + (s(x * x - y * y) ** 2 - 0.5) / (1 + 0.001 * (x * x + y * y)) ** 2
    if name == "sphere":
        return sum(a * a for a in v)
    if name == "threehump":
        return 2 * x * x - 1.05 * x ** 4 + x ** 6 / 6 + x * y + y * y
    raise KeyError(name)


FMIN = {  # minimizers, minimum, tolerance, exact (no smaller value anywhere)
    "ackley": ([[0, 0], [0, 0, 0]], 0, 1e-12, True), "beale": ([[3, 0.5]], 0, 0, True), "booth": ([[1, 3]], 0, 0, True), "bukin6": ([[-10, 1]], 0, 1e-12, True),
    "crossintray": ([[a, b] for a in (1.34941, -1.34941) for b in (1.34941, -1.34941)], -2.06261, 1e-5, False), "easom": ([[math.pi, math.pi]], -1, 1e-12, True),
    "eggholder": ([[512, 404.2319]], -959.6407, 1e-3, False), "goldstein": ([[0, -1]], 3, 0, True),
    "himmelblau": ([[3, 2], [-2.805118, 3.131312], [-3.779310, -3.283186], [3.584428, -1.848126]], 0, 1e-8, True),
    "holdertable": ([[a, b] for a in (8.05502, -8.05502) for b in (9.66459, -9.66459)], -19.2085, 1e-4, False), "levi": ([[1, 1]], 0, 1e-12, True), "matyas": ([[0, 0]], 0, 0, True),
    "rastrigin": ([[0, 0], [0, 0, 0, 0]], 0, 1e-12, True), "rosenbrock": ([[1, 1], [1, 1, 1]], 0, 0, True), "schaffer2": ([[0, 0]], 0, 1e-12, True), "sphere": ([[0, 0], [0]], 0, 0, True), "threehump": ([[0, 0]], 0, 0, True)}


def fx_fun(name):
    from pyswarms.utils.functions import single_obj as fx
    return getattr(fx, name)


def g_dom(rng, i):
    name = sorted(FX)[i % len(FX)]
    d = 2 if FX[name][1] else rng.choice([1, 2, 3, 6, 6, 31])
    return {"fx": name, "n": tail(rng, [1, 2, 5, 5, 60], [300, 1025, 3000], 0.04), "d": d if FX[name][1] else tail(rng, [d], [70, 300], 0.03), "mode": rng.choice(["in", "limit", "out", "nan", "inf", "cols", "out"]), "cols": rng.choice([1, 3, 5])}


@rac(["P17"], "domains", g_dom, 1700, 17000)
def c_dom(case, pid):
    f, name = fx_fun(case["fx"]), case["fx"]
    rs = RS(case)
    n, d, mode = case["n"], case["d"], case["mode"]
    lb, ub = fx_bounds(name, d)
    lo, hi = np.maximum(lb, -1e3), np.minimum(ub, 1e3)
    X = lo + (hi - lo) * rs.uniform(0, 1, (n, d))
    bounded = np.isfinite(lb[0])
    if mode == "cols" and FX[name][1]:
        X = rs.uniform(-6, -3, (n, case["cols"])) if name == "bukin6" else rs.uniform(-1, 1, (n, case["cols"]))
        try:
            f(X)
        except IndexError:
            return
        except Exception as e:
            need(False, "%s with %d columns raises %s instead of IndexError" % (name, case["cols"], type(e).__name__))
        need(False, "%s accepts %d columns" % (name, case["cols"]))
    i, j = rs.randint(n), rs.randint(d)
    bad = False
    if mode == "limit":
        X = np.where(rs.uniform(size=(n, d)) < 0.5, lo, hi)
    elif mode == "out" and bounded:
        X[i, j] = [np.nextafter(lb[j], -np.inf), np.nextafter(ub[j], np.inf), lb[j] - 1, ub[j] + 1, lb[j] * 10 - 100, ub[j] * 10 + 1e6][rs.randint(6)]
        bad = True
    elif mode == "nan" and bounded:
        X[i, j] = np.nan
        bad = True
    elif mode == "inf" and bounded:
        X[i, j] = rs.choice([np.inf, -np.inf])
        bad = True
    keep = X.copy()
    try:
        r = f(X)
    except ValueError:
        need(bad, "%s rejects %s inside its domain" % (name, keep.tolist()))
        return
    need(not bad, "%s accepts the coordinate %r outside of its domain [%r, %r]" % (name, float(keep[i, j]), float(lb[j]), float(ub[j])))
    shape(r, n)
    need(same(X, keep), "%s modifies its input" % name)


@rac(["P17"], "domains-large", lambda rng, i: {"fx": sorted(FX)[i % len(FX)], "side": [0, 1, 2][i // len(FX) % 3]}, 51, 153)
def c_domlarge(case, pid):
    """one bad coordinate late in a large swarm"""
    f, name = fx_fun(case["fx"]), case["fx"]
    rs = RS(case)
    n, d = 3000, 2 if FX[name][1] else 7
    lb, ub = fx_bounds(name, d)
    lo, hi = np.maximum(lb, -1e3), np.minimum(ub, 1e3)
    X = lo + (hi - lo) * rs.uniform(0, 1, (n, d))
    shape(f(X), n)
    if not np.isfinite(lb[0]):
        return
    for i in (n - 1, rs.randint(n // 2, n)):
        Y = X.copy()
        j = rs.randint(d)
        Y[i, j] = [lb[j] - 1, ub[j] + 1, np.nan][case["side"]]
        try:
            f(Y)
        except ValueError:
            continue
        need(False, "%s accepts the coordinate %r of particle %d outside of its domain [%r, %r]" % (name, float(Y[i, j]), i, float(lb[j]), float(ub[j])))


def g_val(rng, i):
    name = sorted(FX)[i % len(FX)]
    return {"fx": name, "n": tail(rng, [1, 2, 6, 6, 60], [300, 1025], 0.03), "d": 2 if FX[name][1] else tail(rng, [1, 2, 3, 6, 11, 31], [45, 70, 300], 0.06), "grid": rng.random() < 0.3}


@rac(["P18", "P13"], "values", g_val, 1700, 17000)
def c_val(case, pid):
    f, name = fx_fun(case["fx"]), case["fx"]
    rs = RS(case)
    n, d = case["n"], case["d"]
    lb, ub = fx_bounds(name, d)
    lo, hi = np.maximum(lb, -30), np.minimum(ub, 30)
    X = lo + (hi - lo) * rs.uniform(0, 1, (n, d))
    if case["grid"]:
        X = np.clip(np.round(X), lo, hi)
        if rs.uniform() < 0.3 and np.all(X == np.round(X)):
            X = X.astype(int)
    keep = X.copy()
    r = np.array(shape(f(X), n), dtype=float)
    need(same(X, keep), "%s modifies its input" % name)
    if pid == "P13":
        return
    for i in range(n):
        want = fx_ref(name, keep[i])
        scale = 1.0 + abs(want)
        need(abs(r[i] - want) <= 1e-8 * scale, "%s(%s) is %r instead of %r" % (name, keep[i].tolist(), float(r[i]), want))
        one = float(np.asarray(f(keep[i:i + 1].copy()))[0])
        need(abs(one - r[i]) <= 1e-10 * scale, "%s: the cost of a particle depends on the others (%r alone, %r in the swarm)" % (name, one, float(r[i])))


@rac(["P18"], "minima", lambda rng, i: {"fx": sorted(FX)[i % len(FX)]}, 34, 170)
def c_min(case, pid):
    f, name = fx_fun(case["fx"]), case["fx"]
    pts, m, tol, exact = FMIN[name]
    rs = RS(case)
    for p in pts:
        v = float(np.asarray(f(np.array([p], float)))[0])
        need(abs(v - m) <= tol, "%s at the documented minimizer %s is %r instead of %r" % (name, p, v, m))
    if exact:
        d = len(pts[0])
        lb, ub = fx_bounds(name, d)
        lo, hi = np.maximum(lb, -30), np.minimum(ub, 30)
        X = np.concatenate([lo + (hi - lo) * rs.uniform(0, 1, (3000, d)), np.clip(np.array(pts[0]) + 0.1 * rs.standard_normal((500, d)), lo, hi)])
        v = np.asarray(f(X), float)
        need(v.min() >= m - 1e-12, "%s is %r below its minimum %r at %s" % (name, float(v.min()), m, X[v.argmin()].tolist()))


# ---------------------------------------------------------------- reset and isolation (P21)
def state(o, depth=0):
    """comparable description of the state of an optimizer"""
    if isinstance(o, np.ndarray):
        return ("arr", o.shape, o.dtype.kind, o.tobytes() if o.dtype != object else repr(o))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), state(v, depth)) for k, v in sorted(o.items(), key=lambda x: repr(x[0]))))
    if isinstance(o, (list, tuple)):
        return ("seq", tuple(state(v, depth) for v in o))
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return repr(o)
    m = type(o).__module__
    if m.startswith("pyswarms") and depth < 4 and "reporter" not in m:
        return (type(o).__name__, tuple((k, state(v, depth + 1)) for k, v in sorted(vars(o).items())))
    return type(o).__name__


def g_reset(rng, i):
    c = trace.gen_case(rng, i)
    c["iters"] = min(c["iters"], 4)
    c["kw"] = False
    return c


@rac(["P21"], "reset", g_reset, 300, 3000)
def c_reset(case, pid):
    rs = RS(case)
    K, kw, opts, bounds = trace.build(case, rs)
    n, d = case["n"], case["d"]
    binary = case["cls"] == "BinaryPSO"

    def fresh(opt, what):
        for h in trace.HIST:
            v = getattr(opt, h)
            need(isinstance(v, list) and len(v) == 0, "%s after %s has %d entries" % (h, what, len(v)))
        need(len({id(getattr(opt, h)) for h in trace.HIST}) == 5, "histories share a list")
        s = opt.swarm
        P, V = shape(s.position, n, d), shape(s.velocity, n, d)
        need(s.n_particles == n and s.dimensions == d, "swarm size after %s" % what)
        if kw.get("init_pos") is not None:
            need(same(P, init0), "initial positions are not used after %s" % what)
        elif binary:
            need(np.all((P == 0) | (P == 1)), "positions after %s are not binary" % what)
        elif bounds is not None:
            need(np.all(P >= bounds[0]) and np.all(P <= bounds[1]), "positions after %s leave the bounds" % what)
        else:
            c = kw.get("center", 1.0)
            need(np.all(P >= 0) and np.all(P <= c), "positions after %s are outside of [0, center)" % what)
        a, b = case["clamp"] or (0, 1)
        need(np.all(V >= a) and np.all(V <= b), "velocities after %s leave the clamp" % what)
        need(s.best_cost == np.inf, "best cost after %s is %r" % (what, s.best_cost))
        need(np.size(s.best_pos) == 0, "best position after %s is %r" % (what, s.best_pos))
        need(np.size(s.pbest_cost) == 0 or np.all(np.asarray(s.pbest_cost) == np.inf), "personal best costs after %s are %r" % (what, s.pbest_cost))
        need(np.size(s.current_cost) == 0, "costs after %s are %r" % (what, s.current_cost))
        need(same(s.pbest_pos, P), "personal best positions after %s are not the new positions" % what)
        need(dict(s.options) == opts0, "options after %s are %s" % (what, s.options))
    init0 = None if kw.get("init_pos") is None else kw["init_pos"].copy()
    opts0 = copy.deepcopy(opts)
    a = K(**kw)
    fresh(a, "construction")
    kw2 = dict(kw)
    if "topology" in kw:
        kw2["topology"] = type(kw["topology"])()
    b = K(**kw2)
    fresh(b, "construction of a second optimizer")
    sb = state(b)
    need(a.swarm is not b.swarm, "two optimizers share their swarm")
    if init0 is None and n * d > 6 and not binary:
        need(not same(a.swarm.position, b.swarm.position), "two optimizers have the same random positions")
    rec = trace.Recorder(a, case, rs, 0)
    P0 = a.swarm.position.copy()
    a.optimize(rec, case["iters"], verbose=False)
    need(state(b) == sb, "running one optimizer changed another one")
    sa = state(a)
    hist = [getattr(a, h) for h in trace.HIST]
    c = K(**dict(kw, **({"topology": type(kw["topology"])()} if "topology" in kw else {})))
    need(state(a) == sa, "constructing an optimizer changed another one")
    b.optimize(trace.Recorder(b, case, rs, 0), case["iters"], verbose=False)
    need(state(a) == sa, "running one optimizer changed another one")
    b.reset()
    need(state(a) == sa, "resetting one optimizer changed another one")
    fresh(b, "reset")
    a.reset()
    fresh(a, "reset")
    if init0 is None and n * d > 6 and not binary:
        need(not same(a.swarm.position, P0), "reset did not generate new positions")
    if n * d > 6 and not (case["clamp"] and case["clamp"][0] == case["clamp"][1]):
        need(not same(a.swarm.velocity, b.swarm.velocity), "reset velocities of two optimizers are the same")
    # a run after reset starts from nothing: its histories describe this run only
    rec = trace.Recorder(a, case, rs, 0)
    r = a.optimize(rec, case["iters"], verbose=False)
    need(len(a.cost_history) == len(rec.calls) == len(a.pos_history), "histories after reset describe %d iterations instead of %d" % (len(a.cost_history), len(rec.calls)))
    allc = np.concatenate(rec.costs)
    if np.any(allc < np.inf):
        need(r[0] == np.nanmin(allc), "a run after reset returns %r although its best cost is %r" % (r[0], np.nanmin(allc)))


@rac(["P21"], "defaults", lambda rng, i: {"what": ["swarm", "general", "topology", "optimizers"][i % 4]}, 8, 40)
def c_defaults(case, pid):
    """objects created with default arguments share no state that a run changes"""
    P, H, O, T, Swarm = mods()
    from pyswarms.single import GlobalBestPSO, LocalBestPSO, GeneralOptimizerPSO
    from pyswarms.discrete import BinaryPSO
    rs = RS(case)
    o = {"c1": 0.5, "c2": 0.3, "w": 0.9, "k": 2, "p": 2}
    if case["what"] == "swarm":
        a, b = P.create_swarm(4, 2), P.create_swarm(4, 2)
        sb = state(b)
        a.best_pos = rs.uniform(size=2)
        a.pbest_cost = rs.uniform(size=4)
        a.options = dict(a.options, w=3)
        need(state(b) == sb, "swarms created with default arguments share state")
        return
    if case["what"] == "topology":
        for n1 in ("Star", "Ring", "Pyramid", "Random", "VonNeumann"):
            t1, t2 = getattr(T, n1)(), getattr(T, n1)()
            s2 = state(t2)
            s = swarm(rs, 9, 2)
            args = {"Ring": {"p": 2, "k": 3}, "VonNeumann": {"p": 2, "r": 1}, "Random": {"k": 2}}.get(n1, {})
            t1.compute_gbest(s, **args)
            x = t1.compute_velocity(s)
            y = t1.compute_position(s)
            need(state(t2) == s2, "topologies %s share state" % n1)
        return
    mk = {"general": lambda: GeneralOptimizerPSO(5, 2, dict(o), T.Ring()), "optimizers": lambda: [GlobalBestPSO(5, 2, dict(o)), LocalBestPSO(5, 2, dict(o)), BinaryPSO(5, 2, dict(o))]}[case["what"]]
    A, B = mk(), mk()
    for a, b in zip(A, B) if isinstance(A, list) else [(A, B)]:
        sb = state(b)
        a.optimize(lambda x: (x ** 2).sum(1), 4, verbose=False)
        need(state(b) == sb, "optimizers with default arguments share state")
        for f in ("bh", "vh", "oh", "top", "swarm"):
            need(not hasattr(a, f) or getattr(a, f) is not getattr(b, f), "two optimizers share their %s" % f)


# ---------------------------------------------------------------- plot data (P22)
def plot_f(X):
    X = np.asarray(X, float)
    return 3 * X[:, 0] - 7 * X[:, 1] ** 2 + np.sin(X[:, 0] * X[:, 1])


def plot_g(X):
    """like plot_f, but with infinite values and NaN at some of the points"""
    y = plot_f(X)
    k = np.floor(np.abs(np.asarray(X, float)[:, 0]) * 8).astype(int) % 5
    y[k == 1], y[k == 2], y[k == 3] = np.nan, np.inf, -np.inf
    return y


def g_plot(rng, i):
    return {"iters": tail(rng, [1, 2, 5, 12], [110, 260], 0.1), "n": tail(rng, [1, 2, 3, 7, 30], [300, 1025], 0.1), "special": rng.random() < 0.3, "procs": None if i % 4 else rng.choice([1, 2, 3]), "aslist": rng.random() < 0.5}


@rac(["P22"], "history3d", g_plot, 60, 400)
def c_h3(case, pid):
    from pyswarms.utils.plotters.formatters import Mesher
    rs = RS(case)
    T, n = case["iters"], case["n"]
    H = rs.uniform(-2, 2, (T, n, 2))
    hist = [h.copy() for h in H] if case["aslist"] else H.copy()
    f = plot_g if case["special"] else plot_f
    r = shape(Mesher(func=f).compute_history_3d(hist, **({} if case["procs"] is None else {"n_processes": case["procs"]})), T, n, 3)
    need(same(np.array(hist), H), "the position history was modified")
    for t in range(T):
        need(same(r[t, :, :2], H[t]), "iteration %d: the coordinates changed" % t)
        need(close(r[t, :, 2], f(H[t]), 10, 1e-13), "iteration %d: the value is not the function value of its position (%s)" % (t, where_differs(r[t, :, 2], f(H[t]))))


class FakeAx:
    def __getattr__(self, k):
        return lambda *a, **kw: None


@rac(["P22"], "mesh", lambda rng, i: {"lim": [(0, 3), (-1, 1)], "delta": 0.01, "procs": None if i < 3 else 2} if i in (1, 3) else {"lim": [[(-1, 1), (-1, 1)], [(0, 2), (-3, -1)], [(-0.5, 1.5), (0.25, 0.75)], [(1, 2), (5, 9)]][i % 4], "delta": rng.choice([0.1, 0.25, 0.5, 0.3]), "procs": None if i % 3 else rng.choice([1, 2, 3])}, 36, 200)
def c_mesh(case, pid):
    from pyswarms.utils.plotters.formatters import Mesher
    from pyswarms.utils.plotters import plotters
    lim, delta = [tuple(l) for l in case["lim"]], case["delta"]
    m = Mesher(func=plot_f, limits=lim, delta=delta)
    xx, yy, zz = plotters._mesh(m, **({} if case["procs"] is None else {"n_processes": case["procs"]}))
    x, y = np.arange(lim[0][0], lim[0][1], delta), np.arange(lim[1][0], lim[1][1], delta)
    for A in (xx, yy, zz):
        shape(A, len(y), len(x))
    for i in range(len(y)):
        need(close(xx[i], x, 1) and close(yy[i], np.full(len(x), y[i]), 1), "row %d of the mesh is not at y=%r with x from left to right" % (i, y[i]))
        need(close(zz[i], plot_f(np.stack([xx[i], yy[i]], 1)), 10, 1e-13), "the mesh value in row %d is not the function value of its point" % i)


def _plot_calls():
    pass


@rac(["P22"], "plots", lambda rng, i: {"kind": ["contour", "cost"][i % 2], "n": rng.choice([2, 5])}, 4, 12)
def c_plots(case, pid):
    """the drawn animation shows the recorded positions of its frame"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from pyswarms.utils.plotters import plot_contour, plot_cost_history
    from pyswarms.utils.plotters import plotters
    rs = RS(case)
    H = rs.uniform(-1, 1, (3, case["n"], 2))
    try:
        if case["kind"] == "cost":
            c = rs.uniform(size=6)
            ax = plot_cost_history(c.copy())
            line = ax.get_lines()[0]
            need(same(line.get_ydata(), c) and same(line.get_xdata(), np.arange(6)), "the cost plot does not show the cost history")
        else:
            anim = plot_contour(list(H))
            anim._init_draw()
            for t in range(3):
                art = anim._func(t, *anim._args)
                need(close(np.asarray(art[0].get_offsets()), H[t], 1), "frame %d does not show the positions of iteration %d" % (t, t))
    finally:
        plt.close("all")
