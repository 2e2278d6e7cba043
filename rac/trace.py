"""Whole optimization runs, observed at every call of the objective function, checked against the contracts of optimize()."""
import contextlib, copy, io, math
import numpy as np
from .core import *
from .oracles import *

BH = ["nearest", "random", "shrink", "reflective", "intermediate", "periodic"]
VH = ["unmodified", "adjust", "invert", "zero"]
OH = ["exp_decay", "lin_variation", "random", "nonlin_mod"]
FIELDS = ["position", "velocity", "pbest_pos", "best_pos", "pbest_cost", "best_cost", "current_cost", "options"]
HIST = ["cost_history", "mean_pbest_history", "mean_neighbor_history", "pos_history", "velocity_history"]
TRACE_PROPS = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P09", "P10", "P11", "P12", "P13", "P20"]


def gen_case(rng, i, focus=None):
    c = {}
    classes = ["GlobalBestPSO", "LocalBestPSO", "GeneralOptimizerPSO", "BinaryPSO"]
    c["cls"] = rng.choice(classes + ["GeneralOptimizerPSO"] * 3)
    if focus == "P09":
        c["cls"] = "BinaryPSO"
    elif focus in ("P01", "P07", "P12") and c["cls"] == "BinaryPSO":
        c["cls"] = "GlobalBestPSO"
    top = {"GlobalBestPSO": "Star", "LocalBestPSO": "Ring", "BinaryPSO": "Ring"}.get(c["cls"])
    if top is None:
        top = rng.choice(["Star", "Ring", "VonNeumann", "Pyramid", "Random"])
    c["top"] = top
    c["static"] = c["cls"] != "BinaryPSO" and rng.random() < 0.4 and top in ("Ring", "Pyramid", "Random")
    c["d"] = rng.choice([1, 2, 2, 3, 5])
    c["n"] = rng.choice([1, 2, 3, 4, 5, 6, 8, 11])
    if top == "VonNeumann":
        c["d"], c["r"] = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)])
        c["n"] = delannoy(c["d"], c["r"]) + rng.choice([0, 0, 1, 3])
    if top == "Pyramid":
        c["d"] = max(2, min(c["d"], 3))
        c["n"] = rng.choice([1, 2, c["d"] + 1, c["d"] + 2, 7, 12])
    if top == "Random":
        c["n"] = max(2, c["n"])
    c["k"] = rng.choice([1, max(1, c["n"] // 2), c["n"], rng.randint(1, c["n"])])
    if top == "Random":
        c["k"] = rng.randint(1, max(1, c["n"] - 1))
    c["p"] = rng.choice([1, 2])
    c["iters"] = rng.choice([1, 2, 3, 5, 9])
    c["w"], c["c1"], c["c2"] = rng.choice([0.4, 0.9, 1.7]), rng.choice([0.5, 2.0]), rng.choice([0.3, 2.0])
    z = rng.random()
    if focus in ("P05", "P04", "P20") and z < 0.7 or z < 0.2:
        c[rng.choice(["c1", "c1", "c2"])] = 0.0
    if rng.random() < 0.15:
        c["w"] = rng.choice([0.0, 6.0])
    b = rng.random()
    c["bounds"] = None
    if c["cls"] != "BinaryPSO" and (b < 0.75 or focus in ("P01", "P07")):
        c["bounds"] = rng.choice(["unit", "narrow", "wide", "mixed", "negative", "tiny", "offset"])
    c["bh"] = rng.choice(BH)
    c["vh"] = rng.choice(VH if c["bounds"] else ["unmodified", "unmodified", "adjust"])
    if focus in ("P05", "P04", "P20") and rng.random() < 0.7:
        c["vh"] = "unmodified"
    c["clamp"] = rng.choice([None, None, [-0.5, 0.5], [0.01, 2.0], [-3.0, -0.1], [0.2, 0.2], [-8.0, 8.0]])
    if focus == "P06" and c["clamp"] is None:
        c["clamp"] = rng.choice([[-0.1, 0.1], [0.0, 1.0], [-2.0, 3.0]])
    if focus in ("P05", "P04", "P20") and rng.random() < 0.8:
        c["clamp"] = None
    c["oh"] = None
    if rng.random() < (0.9 if focus == "P12" else 0.3) and c["cls"] != "BinaryPSO":
        c["oh"] = {o: rng.choice(OH) for o in ("w", "c1", "c2") if rng.random() < 0.7}
    c["obj"] = rng.choice(["sphere", "rugged", "ties", "const", "code", "code", "nan", "inf", "plateau", "allinf1", "negative", "int", "neginf", "close"])
    c["ftol"], c["ftol_iter"] = None, 1
    if rng.random() < (0.95 if focus == "P11" else 0.25):
        c["ftol"] = rng.choice([1e-3, 0.1, 0.5, 1e-9, 0.0, 3.0] + [float("inf")] * (rng.random() < 0.3))
        c["ftol_iter"] = rng.choice([1, 1, 2, 3, 5])
        c["iters"] = rng.choice([1, 2, 5, 9, 14])
        c["obj"] = rng.choice(["plateau", "plateau", "plateau", "const", "ties", "sphere", "code", "allinf1"])
    c["runs"] = 2 if rng.random() < 0.4 else 1
    c["reset"] = rng.random() < 0.3
    c["init"] = rng.random() < 0.2
    c["center"] = c["bounds"] is None and c["cls"] != "BinaryPSO" and rng.random() < 0.3
    c["verbose"] = rng.random() < 0.08
    c["more"] = rng.choice([0, 0, 1, 3])        # a later run performs so many more iterations
    c["abort"] = rng.random() < 0.06            # the objective function raises in a first run, which is then repeated
    c["kw"] = rng.random() < 0.3
    c["init_type"] = rng.choice(["float64", "float64", "float64", "int"])
    c["int_bounds"] = rng.random() < 0.1
    if rng.random() < 0.1:
        c["runs"] = 3
    z = rng.random()
    if z < (0.15 if focus == "P11" else 0.04):
        # long runs
        if focus == "P11" and c["ftol"] is not None and rng.random() < 0.8:
            c["obj"], c["ftol_iter"], c["ftol"] = "rare", rng.choice([12, 33, 60, 101]), rng.choice([1e-3, 1e-9, 0.1])
        c["iters"], c["w"], c["runs"] = rng.choice([60, 101, 130, 260]), rng.choice([0.4, 0.7]), 1
        if top in ("Star", "Ring"):
            c["n"], c["d"] = min(c["n"], 4), min(c["d"], 2)
            c["k"] = min(c["k"], c["n"])
    elif z < 0.08 and top in ("Star", "Ring"):
        # large swarms
        c["n"], c["iters"], c["runs"] = rng.choice([40, 101, 150, 260]), min(c["iters"], 5), 1
        c["k"] = rng.choice([1, 2, 3, c["n"]])
    elif z < 0.12 and top in ("Star", "Ring", "Random"):
        # many dimensions
        c["d"], c["iters"] = rng.choice([11, 33, 70]), min(c["iters"], 5)
    return c


def gen_long(rng, i, focus):
    """more than a thousand iterations of a small swarm"""
    c = gen_case(rng, i, focus)
    c["cls"], c["top"] = [("GlobalBestPSO", "Star"), ("LocalBestPSO", "Ring"), ("BinaryPSO", "Ring")][i % 3]
    if focus == "P09":
        c["cls"], c["top"] = "BinaryPSO", "Ring"
    elif focus in ("P01", "P07", "P12") and c["cls"] == "BinaryPSO":
        c["cls"] = "LocalBestPSO"
    if c["cls"] == "BinaryPSO":
        c["bounds"], c["oh"], c["static"], c["center"] = None, None, False, False
        c["vh"] = "unmodified" if c["vh"] in ("invert", "zero") else c["vh"]
    if c["top"] == "Star":
        c["static"] = False
    c["n"], c["d"], c["iters"], c["w"], c["runs"] = rng.choice([2, 3]), rng.choice([1, 2]), 1040, rng.choice([0.4, 0.7]), 1
    c["k"], c["ftol"], c["init"], c["center"] = min(c["k"], c["n"]), None, False, False
    c["obj"] = rng.choice(["rugged", "code", "nan", "ties"])
    if focus == "P11":
        c["ftol"], c["ftol_iter"], c["obj"] = 1e-9, rng.choice([1000, 120]), rng.choice(["ties", "rugged"])
    return c


def make_bounds(kind, d, rs):
    one = np.ones(d)
    if kind == "integer":
        return np.array([-3 - i for i in range(d)]), np.array([2 + i for i in range(d)])
    if kind == "unit":
        return 0 * one, one
    if kind == "narrow":
        return -0.05 * one, 0.07 * one
    if kind == "wide":
        return -500.0 * one, 700.0 * one
    if kind == "mixed":
        lb = rs.uniform(-10, 5, d)
        return lb, lb + rs.uniform(0.1, 20, d)
    if kind == "negative":
        return -9.3 * one, -4.1 * one
    if kind == "tiny":
        return 1e-3 * one, 1.7e-3 * one
    if kind == "offset":
        return 1000.1 * one, 1000.3 * one
    raise ValueError(kind)


class Call:
    pass


class Trace:
    """one run of optimize()"""


class Abort(Exception):
    """raised by the objective function"""


class Recorder:
    def __init__(self, opt, case, rs, run):
        self.opt, self.case, self.rs, self.run = opt, case, rs, run
        self.calls, self.snaps, self.costs, self.kw = [], [], [], []
        self.hist0 = None
        self.abort = None
        d = case["d"]
        self.a = rs.uniform(-1, 1, d)
        self.level = rs.randint(0, 3, 100)
        self.jumps = np.cumsum(rs.uniform(size=3000) < 0.9 / max(1, case["ftol_iter"]))
        self.hist_copies = []

    def cost(self, X, t):
        k, n, rs = self.case["obj"], len(X), self.rs
        if self.run == 1 and k in ("sphere", "rugged"):
            return 5.0 + ((X - self.a) ** 2).sum(1)
        if k == "sphere":
            return ((X - self.a) ** 2).sum(1)
        if k == "rugged":
            return np.sin(17.0 * X.sum(1)) + 0.01 * (X ** 2).sum(1)
        if k == "ties":
            return np.floor(3 * (X ** 2).sum(1)) % 5
        if k == "int":
            return (np.floor(3 * (X ** 2).sum(1)) % 7).astype(int)
        if k == "const":
            return np.full(n, 2.5)
        if k == "code":
            return rs.uniform(-3, 3, n)
        if k == "negative":
            return -100.0 * rs.uniform(0, 1, n) - t
        if k == "nan":
            c = rs.uniform(0, 3, n)
            c[rs.uniform(size=n) < 0.35] = np.nan
            return c
        if k == "inf":
            c = rs.uniform(0, 3, n)
            c[rs.uniform(size=n) < 0.4] = np.inf
            return c
        if k == "rare":
            return np.full(n, 1000.0 * 0.5 ** float(self.jumps[t]))
        if k == "close":
            # costs one or a few rounding steps apart
            return 1.0 - 2.0 ** -52 * (2 * t) + 2.0 ** -52 * rs.randint(0, 9, n)
        if k == "neginf":
            c = rs.uniform(-3, 3, n)
            c[rs.uniform(size=n) < (0.1 if t else 0.0)] = -np.inf
            return c
        if k == "allinf1":
            if t == 0:
                return np.full(n, np.inf)
            return rs.uniform(0, 3, n)
        if k == "plateau":
            v = 1000.0 * 0.5 ** float(self.level[: t + 1].clip(0, 1).sum()) * (1 - 1e-4 * t)
            return np.full(n, v) + rs.randint(0, 3, n)
        raise ValueError(k)

    def snap(self):
        s = self.opt.swarm
        self.snaps.append({f: copy.deepcopy(getattr(s, f)) for f in FIELDS})
        self.hlen = [len(getattr(self.opt, h)) for h in HIST]
        self.hist_copies.append([copy.deepcopy(getattr(self.opt, h)[-1]) if getattr(self.opt, h) else None for h in HIST])

    def __call__(self, X, **kw):
        t = len(self.calls)
        if t == self.abort:
            raise Abort()
        self.snap()
        self.calls.append((np.array(X, copy=True), list(self.hlen)))
        self.kw.append(kw)
        c = self.cost(np.asarray(X), t)
        self.costs.append(np.array(c, dtype=float))
        return c


def build(case, rs):
    import pyswarms.backend.topology as T
    from pyswarms.single import GlobalBestPSO, LocalBestPSO, GeneralOptimizerPSO
    from pyswarms.discrete import BinaryPSO
    n, d, cls = case["n"], case["d"], case["cls"]
    opts = {"w": case["w"], "c1": case["c1"], "c2": case["c2"]}
    if case["top"] in ("Ring", "VonNeumann"):
        opts["p"] = case["p"]
    if case["top"] in ("Ring", "Random"):
        opts["k"] = case["k"]
    if case["top"] == "VonNeumann":
        opts["r"] = case["r"]
    kw = dict(n_particles=n, dimensions=d, options=opts, velocity_clamp=tuple(case["clamp"]) if case["clamp"] else None, vh_strategy=case["vh"])
    bounds = None
    if case["bounds"]:
        bounds = make_bounds("integer" if case["int_bounds"] else case["bounds"], d, rs)
    if cls != "BinaryPSO":
        kw.update(bounds=bounds, bh_strategy=case["bh"])
        if case["oh"] is not None:
            kw["oh_strategy"] = dict(case["oh"])
        if case["center"]:
            kw["center"] = rs.uniform(1, 3, d)
    if case["ftol"] is not None:
        kw.update(ftol=case["ftol"], ftol_iter=case["ftol_iter"])
    if case["init"]:
        if cls == "BinaryPSO":
            kw["init_pos"] = rs.randint(0, 2, (n, d))
        elif bounds is not None:
            kw["init_pos"] = bounds[0] + (bounds[1] - bounds[0]) * rs.uniform(0, 1, (n, d))
        else:
            kw["init_pos"] = rs.uniform(-3, 3, (n, d))
        if cls != "BinaryPSO" and case["init_type"] != "float64":
            P = kw["init_pos"].astype(case["init_type"])
            if bounds is None or np.all(P >= bounds[0]) and np.all(P <= bounds[1]):
                kw["init_pos"] = P
    top = None
    if cls == "GeneralOptimizerPSO":
        top = getattr(T, case["top"])(static=case["static"]) if case["top"] in ("Ring", "Pyramid", "Random") else getattr(T, case["top"])()
        kw["topology"] = top
    elif cls == "LocalBestPSO":
        kw["static"] = case["static"]
    K = {"GlobalBestPSO": GlobalBestPSO, "LocalBestPSO": LocalBestPSO, "GeneralOptimizerPSO": GeneralOptimizerPSO, "BinaryPSO": BinaryPSO}[cls]
    return K, kw, opts, bounds


def deep(kw):
    return {k: copy.deepcopy(v) for k, v in kw.items() if k != "topology"}


def differs(a, b):
    if isinstance(a, dict):
        return not isinstance(b, dict) or a.keys() != b.keys() or any(differs(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return type(a) != type(b) or len(a) != len(b) or any(differs(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return not isinstance(b, np.ndarray) or a.dtype != b.dtype or not same(a, b)
    return type(a) != type(b) or not (a == b or (a != a and b != b))


def check_trace(case, pid):
    rs = np.random.RandomState(case["seed"] % (2 ** 31))
    K, kw, opts, bounds = build(case, rs)
    keep = deep(kw)
    opt = K(**kw)
    first_X = None
    extra = {"alpha": 3, "beta": "x"} if case["kw"] else {}
    given = case["iters"]
    old = None
    for run in range(case["runs"] + case["abort"]):
        if run and case["reset"]:
            opt.reset()
            old = None
        case = dict(case, iters=given + case["more"] * (run > 0))
        rec = Recorder(opt, case, rs, run)
        h0 = [len(getattr(opt, h)) for h in HIST]
        if case["abort"] and run == 0:
            rec.abort = rs.randint(1, given + 1)
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                res = opt.optimize(rec, case["iters"], verbose=case["verbose"], **extra)
        except Abort:
            res = None
        rec.snap()
        if first_X is None and rec.calls:
            first_X = rec.calls[0][0]
        if pid == "P10":
            now = [list(getattr(opt, h)) for h in HIST]
            need(old is None or all(len(a) <= len(b) and all(same(x, y) for x, y in zip(a, b)) for a, b in zip(old, now)), "entries of an earlier run changed in the histories")
            old = copy.deepcopy(now)
        if res is None:
            need(rec.abort is not None, "an exception of the objective function which was not raised")
            continue
        check_run(case, pid, opt, rec, res, h0, bounds, opts, first_X, extra)
    if pid == "P13":
        now = deep(kw)
        for k in keep:
            need(not differs(keep[k], now[k]), "argument %s of the constructor was modified: %r became %r" % (k, keep[k], now[k]))


def check_run(case, pid, opt, rec, res, h0, bounds, opts, first_X, extra):
    n, d = case["n"], case["d"]
    X = [c[0] for c in rec.calls]
    T, C, S = len(X), rec.costs, rec.snaps
    binary = case["cls"] == "BinaryPSO"
    need(T >= 1, "the objective function was never evaluated")
    need(isinstance(res, tuple) and len(res) == 2, "optimize returned %r" % (res,))
    cost, pos = res
    allC = np.concatenate([np.asarray(c).reshape(-1) for c in C])
    allX = np.concatenate([x.reshape(-1, d) for x in X])
    if pid == "P01" and bounds is not None:
        lb, ub = bounds
        ins = lambda A: bool(np.all(np.asarray(A) >= lb) and np.all(np.asarray(A) <= ub))
        for t, x in enumerate(X):
            if not ins(x):
                bad = np.argwhere((x < lb) | (x > ub) | np.isnan(x))[0]
                need(False, "iteration %d evaluates particle %d at %r in dimension %d outside of [%r, %r]"
                     % (t, bad[0], float(x[tuple(bad)]), bad[1], float(lb[bad[1]]), float(ub[bad[1]])))
        need(all(ins(p) for p in opt.pos_history), "the position history leaves the bounds")
        need(ins(pos), "the returned position %s lies outside of the bounds" % pos)
        need(ins(opt.swarm.position), "the final swarm lies outside of the bounds")
    if pid == "P02" and np.any(allC < np.inf):
        best = np.nanmin(allC)
        need(cost == best, "returned cost %r, the best evaluated cost of the run is %r" % (float(cost), float(best)))
        pos = shape(pos, d)
        need(any(same(allX[i], pos) and allC[i] == cost for i in range(len(allC))), "returned position %s was never evaluated to the returned cost %r" % (pos, float(cost)))
    if pid == "P03":
        PC, PP = np.full(n, np.inf), S[0]["pbest_pos"]
        for t in range(T):
            b = C[t] < PC
            PC = np.where(b, C[t], PC)
            PP = np.where(b[:, None], X[t], PP)
            need(same(S[t + 1]["pbest_cost"], PC), "personal best costs after iteration %d: %s" % (t, where_differs(S[t + 1]["pbest_cost"], PC)))
            need(same(S[t + 1]["pbest_pos"], PP), "personal best positions after iteration %d: %s" % (t, where_differs(S[t + 1]["pbest_pos"], PP)))
    if pid in ("P04", "P20"):
        for t in range(T):
            s = S[t + 1]
            base = first_X if (case["static"] or case["top"] == "VonNeumann") else X[t]
            try:
                top_check(case, opt, base, X[t], s, last=t == T - 1)
            except Violation as e:
                raise Violation("iteration %d: %s" % (t, e))
    if pid == "P05":
        if case["vh"] == "adjust":
            for t in range(1, T - 1):
                V = X[t] - X[t - 1]
                V1 = shape(S[t + 1]["velocity"], n, d)
                if case["clamp"]:
                    V = np.clip(V, *case["clamp"])
                need(close(V1, V, np.abs(X[t])), "iteration %d: strategy adjust does not give the (clamped) difference of the last two positions (%s)" % (t, where_differs(V1, V)))
        fresh = []
        for t in range(T - 1):
            s, s1 = S[t], S[t + 1]
            if case["vh"] != "unmodified" or case["clamp"]:
                break
            o, V1 = s1["options"], shape(s1["velocity"], n, d)
            R = V1 - o["w"] * s["velocity"]
            A, B = o["c1"] * (s1["pbest_pos"] - X[t]), o["c2"] * (s1["best_pos"] - X[t])
            tol = RTOL[0] * (np.abs(V1) + np.abs(s["velocity"]) * (1 + abs(o["w"])) + np.abs(A) + np.abs(B) + 1e-12)
            lo, hi = np.minimum(A, 0) + np.minimum(B, 0) - tol, np.maximum(A, 0) + np.maximum(B, 0) + tol
            need(np.all(R >= lo) and np.all(R <= hi), "iteration %d: the velocity is no PSO update of the previous one" % t)
            for Z, W in ((A, B), (B, A)):
                m = (W == 0) & (np.abs(Z) > 1e-3 * (np.abs(s["velocity"]) + 1e-6)) & (np.abs(Z) > RTOL[0] * np.abs(X[t]).max())
                if m.any():
                    r = R[m] / Z[m]
                    need(np.all(r >= -1e-6) and np.all(r <= 1 + 1e-6), "iteration %d: a random weight is outside of [0, 1): %r" % (t, r.tolist()[:3]))
                    fresh += [float(x) for x in r]
        fresh.sort()
        if len(fresh) > 1:
            gap = np.diff(fresh)
            rep = int(np.sum(gap < 1e-10))
            need(rep <= 1 + 0.02 * len(fresh), "random weights of the velocity update are reused (%d of %d coincide)" % (rep, len(fresh)))
    if pid == "P06" and case["clamp"]:
        a, b = case["clamp"]
        for t, s in enumerate(S):
            v = shape(s["velocity"], n, d)
            need(np.all(v >= a) and np.all(v <= b), "velocities before evaluation %d leave the clamp: min %r, max %r" % (t, float(v.min()), float(v.max())))
        for v in opt.velocity_history:
            need(np.all(v >= a) and np.all(v <= b), "the velocity history leaves the clamp")
    if pid == "P07" and not binary:
        for t in range(T - 1):
            Y = X[t] + S[t + 1]["velocity"]
            if not np.all(np.isfinite(Y)) or np.abs(Y).max() > 1e100:
                break
            if bounds is None:
                need(close(X[t + 1], Y, np.abs(X[t])), "iteration %d: position is not old position plus velocity (%s)" % (t, where_differs(X[t + 1], Y)))
            else:
                check_boundary(case["bh"], Y, X[t], bounds[0], bounds[1], X[t + 1], "iteration %d" % t)
    if pid == "P09" and binary:
        for t, x in enumerate(X):
            need(np.all((x == 0) | (x == 1)), "iteration %d evaluates non-binary positions" % t)
        need(np.all((np.asarray(pos) == 0) | (np.asarray(pos) == 1)), "the returned position is not binary")
        need(all(np.all((p == 0) | (p == 1)) for p in opt.pos_history), "the position history is not binary")
        P = opt.swarm.position
        need(P.shape == (n, d) and np.all((P == 0) | (P == 1)), "the final swarm is not binary")
    if pid == "P10":
        names = HIST
        prev = np.inf
        best = np.inf
        for t in range(T):
            need(X[t].shape == (n, d) and same(X[t], S[t]["position"]), "iteration %d does not evaluate the whole current swarm" % t)
            need(list(rec.calls[t][1]) == [h + t for h in h0], "before evaluation %d the histories hold %s entries" % (t, rec.calls[t][1]))
            best = min([best] + [float(c) for c in C[t] if c == c])
            e = [getattr(opt, h)[h0[j] + t] for j, h in enumerate(names) if len(getattr(opt, h)) == h0[j] + T]
            need(len(e) == 5, "%s iterations, history lengths %s" % (T, [len(getattr(opt, h)) - h0[j] for j, h in enumerate(names)]))
            s = S[t + 1]
            need(e[0] == best, "cost_history[%d] is %r, the best cost so far is %r" % (t, float(e[0]), best))
            need(close(e[1], np.mean(s["pbest_cost"]), np.abs(s["pbest_cost"][np.isfinite(s["pbest_cost"])]).sum()), "mean_pbest_history[%d] is %r instead of %r" % (t, float(e[1]), float(np.mean(s["pbest_cost"]))))
            need(e[2] == best, "mean_neighbor_history[%d] is %r instead of %r" % (t, float(e[2]), best))
            need(same(e[3], X[t]), "pos_history[%d] is not the evaluated swarm" % t)
            need(same(e[4], S[t]["velocity"]), "velocity_history[%d] is not the velocity at evaluation" % t)
            need(e[0] <= prev, "the recorded best cost increases in iteration %d" % t)
            prev = e[0]
            hc = rec.hist_copies[t + 1]
            need(all(same(a, b) for a, b in zip(hc, e)), "history entries of iteration %d changed later" % t)
        need(isinstance(rec.kw, list) and all(k == extra for k in rec.kw), "keyword arguments of the objective function changed")
    if pid == "P11":
        hist = [float(v) for v in opt.cost_history[h0[0]:]]
        bests, b = [], np.inf
        for c in C:
            b = min([b] + [float(x) for x in c if x == x])
            bests.append(b)
        ftol, w = (-np.inf if case["ftol"] is None else case["ftol"]), case["ftol_iter"]
        want = case["iters"]
        # the number of iterations actually performed limits what is known about the costs
        small = [None] + [abs(bests[i] - bests[i - 1]) < ftol * (1 + abs(bests[i - 1])) for i in range(1, T)]
        for i in range(T):
            if i >= w and all(small[i - w + 1:i + 1]):
                want = i + 1
                break
        need(T == want, "performed %d iterations, the stopping rule demands %s (best costs %s, ftol %s, window %d)" % (T, want, bests[-6:], ftol, w))
    if pid == "P12" and not binary:
        oh = case["oh"] or {}
        need(not differs(opt.options, opts) and not differs({k: opt.options[k] for k in ("w", "c1", "c2")}, {k: case[k] for k in ("w", "c1", "c2")}), "the options given at construction were modified: %s" % opt.options)
        draws = []
        for t in range(T - 1):
            o = S[t + 1]["options"]
            need(set(o) == set(opts), "options in force: %s" % sorted(o))
            for k in opts:
                if k in oh:
                    v = schedule(oh[k], k, opts, t, case["iters"])
                    if oh[k] == "random":
                        need(v[0] <= o[k] <= v[1], "iteration %d: random option %s is %r" % (t, k, o[k]))
                        draws.append((o[k] - v[0]) / (v[1] - v[0]))
                    else:
                        need(close(o[k], v, 1.0), "iteration %d: option %s is %r instead of %r (%s)" % (t, k, o[k], float(v), oh[k]))
                else:
                    need(o[k] == opts[k], "iteration %d: option %s changed to %r without a strategy" % (t, k, o[k]))
        need(len(draws) < 2 or np.min(np.diff(np.sort(draws))) > 1e-12, "random options are not drawn anew")


def nb_lists(top):
    nb = getattr(top, "neighbor_idx", None)
    return None if nb is None else [[int(x) for x in a] for a in nb]


def top_check(case, opt, base, X, s, last):
    P, PC, G = s["pbest_pos"], s["pbest_cost"], s["best_pos"]
    n, d, top = case["n"], case["d"], case["top"]
    need(s["best_cost"] == np.min(PC), "best cost %r, lowest personal best cost %r" % (float(s["best_cost"]), float(np.min(PC))))
    if top == "Star" or top == "Pyramid" and n <= d + 1:
        check_best_attractor(P, PC, G)
    elif top == "Ring":
        check_knn_attractor(base, P, PC, G, case["k"], case["p"])
    elif top == "VonNeumann":
        check_knn_attractor(base, P, PC, G, delannoy(d, case["r"]), case["p"])
    elif top == "Pyramid":
        if not np.all(np.isfinite(base)) or np.abs(base).max() > 1e300:
            return
        check_delaunay_attractor(P, PC, G, delaunay_nbs(base), base)
    elif top == "Random" and last:
        nb = nb_lists(opt.top)
        if nb is not None:
            check_nb_attractor(P, PC, G, nb)
            check_graph(nb, n, case["k"])


for _p in TRACE_PROPS:
    rac([_p], "trace-" + _p, (lambda f: lambda rng, i: gen_case(rng, i, f))(_p), 900, 9000)(check_trace)
    rac([_p], "long-" + _p, (lambda f: lambda rng, i: gen_long(rng, i, f))(_p), 3, 12)(check_trace)


def g_qhull(rng, i):
    return {"n": rng.randint(4, 16), "d": rng.choice([2, 2, 3, 4]), "scale": rng.choice([1e-12, 1e-6, 1e-3, 1.0, 1e3, 1e5, 1e7, 1e13, 1e120]), "offset": rng.choice([0.0, 0.0, 1.0, 1e3, 1e6]),
            "kind": rng.choice(["free", "free", "clip", "same", "all", "flat"])}


@rac(["P04"], "pyramid-scale", g_qhull, 400, 4000)
def c_qhull(case, pid):
    """the neighbours do not depend on location and scale of the swarm; coinciding and flat swarms do not fail"""
    from pyswarms.backend.topology import Pyramid
    from pyswarms.backend.generators import create_swarm
    n, d = max(case["n"], case["d"] + 2), case["d"]
    r = np.random.RandomState(case["seed"] % (2 ** 31))
    s = create_swarm(n, d, options={"c1": 0.5, "c2": 0.5, "w": 0.5})
    X = r.uniform(-1, 1, (n, d))
    if case["kind"] == "clip":
        X = np.clip(X, -0.3, 0.3)
    elif case["kind"] == "same":
        X[r.randint(n, size=n // 2)] = X[0]
    elif case["kind"] == "all":
        X[:] = X[0]
    elif case["kind"] == "flat":
        X[:, 0] = 0.5
    s.position = case["scale"] * X + case["offset"] * min(1.0, 1e6 * case["scale"])
    s.pbest_pos = r.uniform(-1, 1, (n, d))
    s.pbest_cost = r.uniform(0, 1, n)
    G, bc = Pyramid(static=False).compute_gbest(s)
    need(bc == s.pbest_cost.min(), "best cost %r instead of %r" % (bc, s.pbest_cost.min()))
    check_delaunay_attractor(s.pbest_pos, s.pbest_cost, G, delaunay_nbs(s.position), s.position)
