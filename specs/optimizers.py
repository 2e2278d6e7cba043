"""Contracts of the optimize() methods: loop invariant over ghost histories of evaluated positions and costs"""
from . import base
from .base import *
from .operators import in_bounds
from .contracts import *
import numpy as _np

CLS = {
    "GlobalBestPSO": ("single.global_best", "pyswarms.single.global_best.GlobalBestPSO"),
    "LocalBestPSO": ("single.local_best", "pyswarms.single.local_best.LocalBestPSO"),
    "GeneralOptimizerPSO": ("single.general_optimizer", "pyswarms.single.general_optimizer.GeneralOptimizerPSO"),
    "BinaryPSO": ("discrete.binary", "pyswarms.discrete.binary.BinaryPSO"),
}
HIST = ["cost_history", "mean_pbest_history", "mean_neighbor_history", "pos_history", "velocity_history"]
ITER = "iter"


class Objective:
    """an arbitrary objective function: one arbitrary extended real per particle, NaN included"""

    def __init__(self, g):
        self.g = g

    def evaluate(self, c, x, kw, pool):
        t = c.ghost.get("iter")
        c.events.append(("eval", Record(x=to_arr(x).copy(), kw=kw, pool=pool, t=t)))
        if t is None:
            return sym_arr("stray", (x._shape[0],), kinds=True)
        return mk((x._shape[0],), lambda m: self.g.CE(t, m), "f")

    def __call__(self, x, *a, **kw):
        return self.evaluate(ST.ctx, x, kw, None)


class Ghost:
    def __init__(self, n, d, binary):
        self.xf, self.vf, self.ppf = fresh_fun("XE", 3), fresh_fun("VE", 3), fresh_fun("PP", 3)
        self.cv, self.ck = fresh_fun("CE", 2), fresh_fun("CEk", 2, "i")
        self.pv, self.pk = fresh_fun("PCv", 2), fresh_fun("PCk", 2, "i")
        self.bv, self.bk = fresh_fun("B", 1), fresh_fun("Bk", 1, "i")
        self.n, self.d, self.binary = n, d, binary

    def _ext(self, v, k):
        sink().fact(z3.And(k >= 0, k <= 3))
        return Num(v, k)

    def XE(self, t, m, j):
        return Num(self.xf(t, m, j))

    def CE(self, t, m):
        return self._ext(self.cv(t, m), self.ck(t, m))

    def PC(self, t, m):
        return self._ext(self.pv(t, m), self.pk(t, m))

    def B(self, t):
        return self._ext(self.bv(t), self.bk(t))


def same_pair(b, ref):
    """formula: b is the pair ref (None, or two numbers or arrays)"""
    if b is ref:
        return TRUE
    if ref is None or not isinstance(b, (tuple, list)) or len(b) != 2:
        return FALSE
    fs = []
    for x, y in zip(b, ref):
        if x is y:
            continue
        if isinstance(y, Arr):
            fs.append(same_arr(x, y._shape, y.copy().at) if isinstance(x, Arr) else FALSE)
        else:
            fs.append(toF(to_num(x) == y) if isinstance(x, (Num, int, float)) else FALSE)
    return fand(*fs)


class OptLoop(LoopSpec):
    """for i in range(iters): at the head of iteration t the swarm is described by the ghost functions"""

    def __init__(self, c, opt, g, n, d, iters, qname, bounds, clamp, PP0, ftol, ftol_iter, h0):
        self.__dict__.update(locals())
        self.q = qname
        self.ended = False
        self.broken = False
        self.t = None
        self.exit = False
        self.seq_n = None

    def matches(self, c, q, line, seq):
        return isinstance(seq, SRange) and q.startswith(self.q) and size_same(norm_size(seq.n), norm_size(self.iters)) and \
            isinstance(seq.lo, int) and seq.lo == 0

    # ------------------------------------------------------------ invariant
    def inv(self, PC, PP, B, T):
        """the personal bests and the best cost describe the first T iterations"""
        g, n, d = self.g, self.n, self.d
        past = lambda f: forall_range([(0, T, ITER)], lambda i: f(i))
        some = lambda f: F("exists", [(0, T, ITER)], lambda i: f(i))
        yield "no personal best cost is NaN", forall([n], lambda m: fnot(toF(isnan(PC.at(m))))), ["P03"]
        yield "no earlier evaluation of a particle beats its personal best cost", forall([n], lambda m: past(
            lambda i: fnot(toF(g.CE(i, m) < PC.at(m))))), ["P03", "P02"]
        yield "the personal best is the first evaluation with that cost, cost and position together", forall([n], lambda m: fimp(
            toF(PC.at(m) < INF), some(lambda i: fand(
                toF(g.CE(i, m) == PC.at(m)),
                forall([d], lambda j: toF(PP.at(m, j) == g.XE(i, m, j))),
                past(lambda q: fimp(fz(q < i), fnot(toF(g.CE(q, m) <= PC.at(m))))))))), ["P03", "P02"]
        yield "a particle never evaluated below infinity keeps its initial best position", forall([n, d], lambda m, j: fimp(
            toF(PC.at(m) == INF), toF(PP.at(m, j) == self.PP0.at(m, j)))), ["P03"]
        if self.bounds is not None:
            yield "personal best positions lie inside the bounds", in_bounds(PP, self.bounds, n, d), ["P01"]
        if g.binary:
            yield "personal best positions are binary", forall([n, d], lambda m, j: for_(toF(PP.at(m, j) == 0), toF(PP.at(m, j) == 1))), ["P09"]
        yield "the best cost is not above any personal best cost", forall([n], lambda m: toF(B <= PC.at(m))), ["P02", "P10", "P04"]
        yield "the best cost is the personal best cost of a particle", exists([n], lambda m: toF(B == PC.at(m))), ["P02", "P10", "P04"]

    def delta(self, i):
        """did iteration i change the best cost by less than the tolerance?"""
        a, b = self.g.B(i), self.g.B(simp(i + 1))
        return self.small(a, b)

    def small(self, before, after):
        return num_abs(to_num(after) - before) < self.ftol * (1 + num_abs(to_num(before)))

    def head_state(self, c, t):
        """describes the state at the head of iteration t >= 1"""
        g, n, d, opt = self.g, self.n, self.d, self.opt
        s = opt.swarm
        rng = z3.BoolVal(True)

        def pos(m, j):
            v = g.XE(t, m, j)
            self.pos_fact(v, m, j)
            return v

        def vel(m, j):
            v = Num(g.vf(t, m, j))
            self.vel_fact(v, m, j)
            return v
        s.position = mk((n, d), memo(pos), "i" if g.binary else "f")
        s.velocity = mk((n, d), memo(vel), "f")
        s.pbest_pos = mk((n, d), lambda m, j: Num(g.ppf(t, m, j)), "f")
        s.pbest_cost = mk((n,), lambda m: g.PC(t, m), "f")
        s.current_cost = mk((n,), lambda m: g.CE(simp(t - 1), m), "f")
        B = g.B(t)
        s.best_cost = Num(B.v, B.k, np=True)
        s.best_pos = sym_arr("bestpos", self.best_shape)
        if not g.binary:
            s.options = {k: sym_real("o_" + k) for k in opt.options}
        for lab, f, tags in self.inv(s.pbest_cost.copy(), s.pbest_pos.copy(), B, t):
            c.assume(f)
        if hasattr(opt, "bh"):
            opt.bh.memory = sym_arr("bhmem", (n, d))
            if self.bounds is not None:
                c.assume(in_bounds(opt.bh.memory, self.bounds, n, d))
        opt.vh.memory = sym_arr("vhmem", (n, d))
        opt.top.neighbor_idx = Poison("neighbor_idx")
        for h in HIST:
            L = self.lists[h]
            setattr(opt, h, L)
            L.n0, L.tail = norm_size(self.h0 + Num(t)), []
        if self.dq is not None:
            self.dq.n0, self.dq.tail = norm_size(Num(t)), []
            self.dq.old = self.delta
        sink().term(ITER, t)
        self.delta_keys(c, t)

    def delta_keys(self, c, t):
        sink().term("deque", t)
        sink().term("deque", simp(t - 1))

    def pos_fact(self, v, m, j):
        g = self.g
        r = z3.And(in_range(m, 0, self.n), in_range(j, 0, self.d))
        if self.bounds is not None:
            lb, ub = self.bounds
            sink().fact(z3.Implies(r, z3.And(bool_z(v >= lb.at(j)), bool_z(v <= ub.at(j)))))
        if g.binary:
            sink().fact(z3.Implies(r, z3.Or(v.v == 0, v.v == 1)))

    def vel_fact(self, v, m, j):
        r = z3.And(in_range(m, 0, self.n), in_range(j, 0, self.d))
        if self.clamp is not None:
            sink().fact(z3.Implies(r, z3.And(bool_z(v >= self.clamp[0]), bool_z(v <= self.clamp[1]))))

    def find_dq(self, loc):
        ds = [v for v in loc.values() if isinstance(v, SDeque)]
        return ds[0] if len(ds) == 1 else None

    def init(self, c, loop):
        if self.t is not None or self.exit:
            raise Unsupported("second iteration loop")
        self.dq = self.find_dq(loop.loc0)
        bad = [h for h in HIST if not isinstance(getattr(self.opt, h), SList)]
        if bad:
            c.oblige("histories are kept [%s]" % ",".join(bad), FALSE, tags=["P10"])
            raise PathEnd()
        for h in HIST:
            L = getattr(self.opt, h)
            if L is not self.lists[h] or L.tail:
                c.oblige("nothing is recorded before the first iteration", FALSE, tags=["P10"])
                raise PathEnd()
        # best cost before the first iteration: only used by the tolerance in iteration 0
        self.snap0 = None

    def havoc(self, c, t, loc, loop):
        s = self.opt.swarm
        g = self.g
        if loop.mode == "exit":
            self.exit = True
            self.T = t
            self.head_state(c, t)
            return {}, []
        self.loop = loop
        self.t = t
        c.ghost["iter"] = t
        first = bool(Bool(t == 0))
        sink().term(ITER, t)
        if first:
            X0 = s.position.copy()
            c.assume(forall([self.n, self.d], lambda m, j: fz(g.xf(t, m, j) == X0.at(m, j).v)))
            b0 = to_num(s.best_cost)
            self.B0 = b0
            over = None
        else:
            self.head_state(c, t)
            self.B0 = g.B(t)
            over = {k: v for k, v in loc.items() if v is self.dq and k in loop.names}
        self.first = first
        self.X, self.V = s.position.copy(), s.velocity.copy()
        self.Xobj, self.Vobj = s.position, s.velocity
        self.sopt = s.options
        self.nev = len(c.events)
        self.known = [x for x in (s.position, s.velocity, s.pbest_pos, s.pbest_cost, s.best_pos, s.current_cost) if isinstance(x, Arr)]
        o = self.opt
        decl = [(s, k) for k in ("position", "velocity", "pbest_pos", "pbest_cost", "best_pos", "best_cost", "current_cost", "options")]
        decl += [(getattr(o, h), "<items>") for h in HIST] + [(o, h) for h in HIST]
        decl += [(o.vh, "memory"), (o.top, "neighbor_idx"), (o.rep, "t")]
        if hasattr(o, "bh"):
            decl.append((o.bh, "memory"))
        if self.dq is not None:
            decl.append((self.dq, "<items>"))
        return over, decl

    def undeclared(self, c, o, k, loop):
        if k == "<elements>" and any(o is x.buf for x in self.known):
            c.oblige("arrays of the swarm are not overwritten (they are in the histories)", FALSE, tags=["P10", "P03"], kind="frame")
            return
        if o is self.opt.options or o is self.caller_options:
            c.oblige("the caller's options are not modified", FALSE, tags=["P12", "P13"], kind="frame")
            return
        LoopSpec.undeclared(self, c, o, k, loop)

    # ------------------------------------------------- one iteration
    def iteration(self, c):
        """obligations of the evaluated part of iteration t; returns the new state"""
        opt, g, n, d, t = self.opt, self.g, self.n, self.d, self.t
        s = opt.swarm
        ev = c.events[self.nev:]
        kind = lambda k: [e for kk, e in ev if kk == k]
        evals = kind("eval")
        c.oblige("the objective function is evaluated exactly once per iteration", TRUE if len(evals) == 1 else FALSE, tags=["P10", "P14", "P11"])
        if len(evals) != 1:
            raise PathEnd()
        e = evals[0]
        c.oblige("the whole current swarm is evaluated", same_arr(e.x, (n, d), self.X.at), tags=["P10", "P02", "P03"])
        okkw = isinstance(e.kw, dict) and set(e.kw) == set(self.kwargs) and all(e.kw[x] is self.kwargs[x] for x in self.kwargs)
        c.oblige("extra keyword arguments reach the objective function unchanged", TRUE if okkw else FALSE, tags=["P14"])
        if self.nproc is None:
            c.oblige("evaluation without processes is serial", TRUE if e.pool is None else FALSE, tags=["P14"])
        else:
            okp = isinstance(e.pool, runtime.SymPool)
            c.oblige("the pool has the requested number of processes", toF(to_num(e.pool._processes) == self.nproc) if okp else FALSE, tags=["P14"])
        if self.bounds is not None:
            c.oblige("evaluated positions lie inside the bounds", in_bounds(e.x, self.bounds, n, d), tags=["P01"])
        if g.binary:
            c.oblige("evaluated positions are binary", forall([n, d], lambda m, j: for_(toF(e.x.at(m, j) == 0), toF(e.x.at(m, j) == 1))), tags=["P09"])
        PC1, PP1, B1 = s.pbest_cost, s.pbest_pos, s.best_cost
        ok = is_arr(PC1, n) and is_arr(PP1, n, d) and isinstance(B1, (Num, int, float))
        c.oblige("personal bests and best cost are kept", TRUE if ok else FALSE, tags=["P03", "P02"])
        if not ok:
            raise PathEnd()
        PC1, PP1, B1 = PC1.copy(), PP1.copy(), to_num(B1)
        T1 = simp(t + 1)
        sink().term(ITER, t)
        if getattr(opt, "swarm") is not s or s is not self.swarm0:
            raise Unsupported("swarm object replaced")
        for lab, f, tags in self.inv(PC1, PP1, B1, T1):
            lemma(c, lab, f, tags, kind="inv")
        if not self.first:
            c.oblige("the best cost never increases", toF(B1 <= self.B0), tags=["P10", "P02"])
        # topology
        gb = kind("gbest")
        okg = len(gb) >= 1 and gb[-1].top is opt.top and gb[-1].swarm is s
        c.oblige("the topology determines the attractors from the current personal bests", fand(
            same_arr(gb[-1].PC, (n,), PC1.at), same_arr(gb[-1].P, (n, d), PP1.at), same_arr(gb[-1].X, (n, d), self.X.at)) if okg else FALSE, tags=["P04", "P20"])
        if okg:
            want = self.top_args
            got = gb[-1].extra
            c.oblige("the topology gets its parameters", fand(*[toF(to_num(got[x]) == want[x]) if x in got else FALSE for x in want]), tags=["P04", "P19", "P23"])
            c.oblige("the reported best cost of the topology is kept", fz(same_z(to_num(gb[-1].bc), B1)), tags=["P02", "P10", "P04"])
        self.G = gb[-1].G if okg else None
        # histories
        mean = to_num(npshim.r_mean(PC1))
        vals = {"cost_history": B1, "mean_pbest_history": mean, "mean_neighbor_history": B1}
        for h in HIST:
            L = getattr(opt, h)
            ok = isinstance(L, SList) and L.root is self.lists[h] and len(L.tail) == 1
            c.oblige("exactly one entry is appended to %s" % h, TRUE if ok else FALSE, tags=["P10"])
            if not ok:
                continue
            v = L.tail[0]
            if h in vals:
                c.oblige("%s records the documented value" % h,
                         fz(same_z(to_num(v), vals[h])) if isinstance(v, (Num, int, float)) else FALSE, tags=["P10"])
            else:
                ref = self.X if h == "pos_history" else self.V
                c.oblige("%s records the evaluated swarm" % h, same_arr(v, (n, d), ref.at) if isinstance(v, Arr) else FALSE, tags=["P10"])
        return PC1, PP1, B1

    def rule(self, B1):
        """the documented stopping rule at the end of iteration t"""
        t, w = self.t, self.ftol_iter

        def d(i):
            e = self.delta(i) if not self.first else Bool(z3.BoolVal(True))
            return fand(fimp(fz(i < t), e.f), fimp(fz(i == t), self.small(self.B0, B1).f))
        wz = zint(w)
        win = forall_range([(simp(t + 1 - wz), simp(t + 1), "deque")], lambda i: d(i))
        return fand(fz(t >= wz), win)

    def end(self, c, loop):
        """the iteration finished without stopping"""
        opt, g, n, d, t = self.opt, self.g, self.n, self.d, self.t
        s = opt.swarm
        self.ended = True
        frame(c, self.outer, ["P13", "P12"], allowed=[(opt.top, "neighbor_idx")], label="the caller's arguments are not modified by an iteration")
        frame(c, self.others, ["P21"], label="an iteration changes no other optimizer, module, class or default argument")
        ev = c.events[self.nev:]
        kind = lambda k: [e for kk, e in ev if kk == k]
        PC1, PP1, B1 = self.iteration(c)
        c.oblige("the run continues only if the stopping rule does not hold", fnot(self.rule(B1)), tags=["P11"])
        # tolerance window
        dq = self.dq
        if dq is not None:
            ok = len(dq.tail) == 1
            c.oblige("tolerance window records this iteration", fiff(toF(to_bool(dq.tail[0])), self.small(self.B0, B1).f) if ok else FALSE, tags=["P11"], kind="inv")
        # options
        if not g.binary:
            oh = kind("options")
            ok = len(oh) == 1 and oh[0].oh is opt.oh and isinstance(oh[0].start, dict) and set(oh[0].start) == set(self.options0) and set(oh[0].kw) == {"iternow", "itermax"}
            c.oblige("options are scheduled from the initial options for iteration i of n", fand(
                *[toF(to_num(oh[0].start[x]) == v) for x, v in self.options0.items()],
                toF(to_num(oh[0].kw["iternow"]) == Num(t)), toF(to_num(oh[0].kw["itermax"]) == self.iters)) if ok else FALSE, tags=["P12"])
        vs = kind("velocity")
        ok = len(vs) == 1
        c.oblige("the velocity is updated once", TRUE if ok else FALSE, tags=["P05", "P06"])
        if not ok:
            raise PathEnd()
        v = vs[0]
        opts = oh[0].result if not g.binary and oh else self.sopt
        okopt = isinstance(v.options, dict)
        c.oblige("the velocity update uses the scheduled options", fand(
            *[toF(to_num(v.options[x]) == opts[x]) if x in v.options else FALSE for x in ("c1", "c2", "w")]) if okopt else FALSE, tags=["P12", "P05"])
        c.oblige("the velocity update uses the current positions, velocities and personal bests", fand(
            same_arr(v.X, (n, d), self.X.at), same_arr(v.V, (n, d), self.V.at), same_arr(v.P, (n, d), PP1.at)), tags=["P05"])
        if self.G is not None:
            c.oblige("the velocity update uses the attractors of the topology", same_arr(v.G, self.G._shape, self.G.at), tags=["P05", "P04"])
        c.oblige("the velocity update uses the velocity clamp", same_pair(v.clamp, self.clamp), tags=["P06", "P05"])
        c.oblige("the velocity update uses the velocity strategy of the optimizer", TRUE if v.vh is opt.vh else FALSE, tags=["P05", "P06"])
        if not g.binary:
            c.oblige("the velocity update uses the bounds", same_pair(v.bounds, self.bounds), tags=["P05"])
        if self.vh_strategy == "adjust" and self.first:
            c.oblige("the adjust strategy starts from the initial positions", same_arr(v.memory, (n, d), self.X.at) if isinstance(v.memory, Arr) else FALSE, tags=["P05"])
        c.oblige("the new velocities are kept", same_arr(s.velocity, (n, d), v.result.at) if isinstance(s.velocity, Arr) else FALSE, tags=["P05", "P06"])
        if self.clamp is not None:
            sv = s.velocity.copy()
            c.oblige("new velocities lie inside the clamp", forall([n, d], lambda m, j: fand(
                toF(sv.at(m, j) >= self.clamp[0]), toF(sv.at(m, j) <= self.clamp[1]))), tags=["P06"], kind="inv")
        if g.binary:
            return self.end_binary(c)
        ps = kind("position")
        ok = len(ps) == 1
        c.oblige("the position is updated once", TRUE if ok else FALSE, tags=["P07", "P01"])
        if not ok:
            raise PathEnd()
        p = ps[0]
        c.oblige("the position update starts from the current positions and new velocities", fand(
            same_arr(p.X, (n, d), self.X.at), same_arr(p.V, (n, d), v.result.at)), tags=["P07"])
        c.oblige("the position update uses bounds and boundary strategy of the optimizer", same_pair(p.bounds, self.bounds) if p.bh is opt.bh else FALSE, tags=["P07", "P01"])
        if self.first and among(self.bh_strategy, "shrink", "intermediate") and self.bounds is not None:
            c.oblige("the boundary strategy starts from the initial positions", same_arr(p.memory, (n, d), self.X.at) if isinstance(p.memory, Arr) else FALSE, tags=["P07"])
        c.oblige("the new positions are kept", same_arr(s.position, (n, d), p.result.at) if isinstance(s.position, Arr) else FALSE, tags=["P07", "P01"])
        if self.bounds is not None and isinstance(s.position, Arr):
            c.oblige("new positions lie inside the bounds", in_bounds(s.position.copy(), self.bounds, n, d), tags=["P01"], kind="inv")
            mem = opt.bh.memory
            c.oblige("remembered positions lie inside the bounds", in_bounds(mem.copy(), self.bounds, n, d) if is_arr(mem, n, d) else FALSE, tags=["P01", "P07"], kind="inv")

    def end_binary(self, c):
        opt, n, d = self.opt, self.n, self.d
        s = opt.swarm
        x = s.position
        ok = is_arr(x, n, d)
        c.oblige("new positions are binary", forall([n, d], lambda m, j: for_(toF(x.at(m, j) == 0), toF(x.at(m, j) == 1))) if ok else FALSE, tags=["P09"], kind="inv")
        ev = [e for kk, e in c.events[self.nev:] if kk == "binary"]
        ok = len(ev) == 1
        c.oblige("positions are drawn once from the new velocities", fand(
            same_arr(ev[0].V, (n, d), s.velocity.at), same_arr(x, (n, d), ev[0].result.at)) if ok and is_arr(x, n, d) else FALSE, tags=["P09"])


class BinaryPosition:
    """contract of BinaryPSO._compute_position (task binary_position)"""

    def apply(self, c, f, a, k):
        s = bind(f, a, k)["swarm"]
        n, d = s.position._shape
        fu = fresh_fun("bit", 2, "i")

        def el(m, j):
            v = fu(m, j)
            sink().fact(z3.Or(v == 0, v == 1))
            return Num(v)
        r = mk((n, d), el, "i")
        c.events.append(("binary", Record(swarm=s, V=s.velocity.copy(), result=r)))
        return r


class CreateSwarm:
    """contract of create_swarm (task create_swarm)"""

    def __init__(self, pre):
        self.pre = pre

    def apply(self, c, f, a, k):
        b = bind(f, a, k)
        S = imp("backend.swarms").Swarm
        n, d = b["n_particles"], b["dimensions"]
        binary = b["discrete"] and b["binary"]
        nn, dd = norm_size(n), norm_size(d)
        rd = sym_arr("X0", (n, d), "i" if binary else "f").reader()

        def pos(m, j):
            v = rd(m, j)
            r = z3.And(in_range(m, 0, n), in_range(j, 0, d))
            if b["bounds"] is not None and not b["discrete"]:
                sink().fact(z3.Implies(r, z3.And(bool_z(v >= b["bounds"][0].at(j)), bool_z(v <= b["bounds"][1].at(j)))))
            if binary:
                sink().fact(z3.Implies(r, z3.Or(v.v == 0, v.v == 1)))
            return v
        rv = sym_arr("V0", (n, d)).reader()

        def vel(m, j):
            v = rv(m, j)
            if b["clamp"] is not None:
                r = z3.And(in_range(m, 0, n), in_range(j, 0, d))
                sink().fact(z3.Implies(r, z3.And(bool_z(v >= b["clamp"][0]), bool_z(v <= b["clamp"][1]))))
            return v
        s = S(mk((n, d), memo(pos), "i" if binary else "f"), mk((n, d), memo(vel), "f"), options=b["options"])
        c.events.append(("create", Record(args=dict(b), swarm=s)))
        return s


INF = float("inf")


# Optional arguments of a run. Covering arrays over the factors bounds, velocity clamp, processes, verbose, extra keyword arguments,
# option schedules, initial positions (and center), earlier run on the optimizer, adjust strategy, strategy with memory, static topology:
# every pair of settings occurs (quick), every triple (thorough). Everything else is symbolic.
FACTORS = ("bounded", "clamped", "par", "verbose", "kwargs", "scheduled", "init", "again", "adjust", "memory", "static")
PAIRS = ["11011000111", "10001101100", "01000011101", "10110010111", "00010111011", "11100100000", "00111000000", "11101011010"]
TRIPLES = ["11100110101", "10000001000", "00111100011", "10001100101", "01011111110", "11111011001", "11001010011", "00100111100", "01111001100",
           "10011111001", "10011000110", "01010101101", "01000001011", "11100100010", "00000010111", "01110010000", "01101011010", "10110011110"]


def config(c):
    rows = PAIRS if base.TIER == "quick" else TRIPLES
    r = Record(**dict(zip(FACTORS, (x == "1" for x in rows[c.choose(len(rows))]))))
    r.vh = "adjust" if r.adjust else AnyOf(c, "unmodified", "invert", "zero")
    r.bh = AnyOf(c, "shrink", "intermediate") if r.memory else AnyOf(c, "periodic", "nearest", "random", "reflective")
    return r


def mk_top(top, static):
    K = getattr(imp("backend.topology"), top)
    return K(static=static) if top in ("Ring", "Pyramid", "Random") else K()


def build(c, cls, top=None, bounded=True, clamped=True, vh="unmodified", bh="periodic", static=False, init=False, scheduled=False, **over):
    """an optimizer made by the real constructor; its arguments"""
    n, d = sym_int("n", 1), sym_int("d", 1)
    M = imp(CLS[cls][0])
    K = getattr(M, cls)
    kw = {"n_particles": n, "dimensions": d}
    o = {x: sym_real(x) for x in ("c1", "c2", "w")}
    if cls in ("LocalBestPSO", "BinaryPSO") or cls == "GeneralOptimizerPSO" and top in ("Ring",):
        o["k"] = sym_int("k", 1)
        o["p"] = sym_int("p", 1, 3)
        c.assume(toF(o["k"] <= n))
    if top == "VonNeumann":
        o["p"], o["r"] = sym_int("p", 1, 3), sym_int("r", 1)
    if top == "Random":
        o["k"] = sym_int("k", 1)
    kw["options"] = o
    kw["ftol"] = sym_real("ftol", ext=True)
    kw["ftol_iter"] = sym_int("ftol_iter", 1)
    bounds = mk_bounds(c, d) if bounded and cls != "BinaryPSO" else None
    clamp = None
    if clamped:
        lo, hi = sym_real("vmin"), sym_real("vmax")
        c.assume(lo <= hi)
        clamp = (lo, hi)
    kw["velocity_clamp"] = clamp
    kw["vh_strategy"] = vh
    if cls != "BinaryPSO":
        kw["bounds"] = bounds
        kw["bh_strategy"] = bh
    if top is not None:
        kw["topology"] = mk_top(top, static)
    elif cls == "LocalBestPSO" and static:
        kw["static"] = True
    if init:
        kw["init_pos"] = sym_arr("initpos", (n, d), "i" if cls == "BinaryPSO" else "f")
        c.assume(in_bounds(kw["init_pos"], bounds, n, d) if bounds is not None else TRUE)
        if cls == "BinaryPSO":
            c.assume(forall([n, d], lambda m, j: for_(toF(kw["init_pos"].at(m, j) == 0), toF(kw["init_pos"].at(m, j) == 1))))
        else:
            kw["center"] = sym_real("center")
    if scheduled and cls != "BinaryPSO":
        kw["oh_strategy"] = {"w": "exp_decay", "c1": "lin_variation", "c2": "nonlin_mod"}
    kw.update(over)
    return n, d, K, kw, bounds, clamp, o


def _mk_opt(cls, top=None, whole=False):
    name = "optimize[%s%s]" % (cls, "" if top is None else "," + top + (",simplex" if whole and top == "Pyramid" else ""))
    q = CLS[cls][1] + ".optimize"
    cons = optimizer_contracts()
    cons["pyswarms.backend.generators.create_swarm"] = CreateSwarm(None)
    cons["pyswarms.discrete.binary.BinaryPSO._compute_position"] = BinaryPosition()
    if whole and top == "Pyramid":
        cons[TPQ + "pyramid.Pyramid.compute_gbest"] = Gbest("whole")
    props = ["P02", "P03", "P04", "P05", "P06", "P10", "P11", "P13", "P14", "P20", "P21"] + (["P09"] if cls == "BinaryPSO" else ["P01", "P07", "P12"])
    props += {"Random": ["P19"], "VonNeumann": ["P23"]}.get(top, [])

    @task(name, props, [q], opts={"contracts": cons})
    def t(c):
        cf = config(c)
        verbose, par = cf.verbose, cf.par
        n, d, K, kw, bounds, clamp, o = build(c, cls, top, cf.bounded, cf.clamped, cf.vh, cf.bh, cf.static, cf.init, cf.scheduled)
        vh, bh = cf.vh, cf.bh
        other = no_raise(c, call(c, K, **dict(kw, topology=mk_top(top, cf.static)) if top else kw), ["P21"], "construction")
        opt = no_raise(c, call(c, K, **kw), ["P21"], "construction")
        s = opt.swarm
        # arbitrary earlier use of the optimizer
        again = cf.again
        h0 = 0
        if again:
            h0 = sym_int("h0", 0)
            s.pbest_cost = sym_arr("oldPC", (n,), kinds=True)
            pp = sym_arr("oldPP", (n, d))
            if bounds is not None:
                c.assume(in_bounds(pp, bounds, n, d))
            if cls == "BinaryPSO":
                c.assume(forall([n, d], lambda m, j: for_(toF(pp.at(m, j) == 0), toF(pp.at(m, j) == 1))))
            s.pbest_pos = pp
            bc = sym_real("oldB", ext=True)
            c.assume(fnot(toF(isnan(bc))))
            bc.np = True
            s.best_cost = bc
            s.best_pos = sym_arr("oldG", (d,) if cls == "GlobalBestPSO" or whole else (n, d))
            s.current_cost = sym_arr("oldC", (n,), kinds=True)
            opt.vh.memory = sym_arr("oldvm", (n, d))
            if hasattr(opt, "bh"):
                opt.bh.memory = sym_arr("oldbm", (n, d))
            opt.top.neighbor_idx = Poison("neighbor_idx")
        lists = {}
        for h in HIST:
            old = getattr(opt, h, None)
            c.oblige("%s is empty after construction" % h, TRUE if isinstance(old, list) and not old else FALSE, tags=["P21", "P10"])
            lists[h] = SList(h0, lambda i: Poison("history"), h)
            setattr(opt, h, lists[h])
        iters = sym_int("iters", 1)
        g = Ghost(n, d, cls == "BinaryPSO")
        spec = OptLoop(c, opt, g, n, d, iters, q, bounds, clamp, s.pbest_pos.copy(), kw["ftol"], kw["ftol_iter"], to_num(h0))
        spec.lists, spec.swarm0, spec.caller_options = lists, s, o
        spec.best_shape = (d,) if cls == "GlobalBestPSO" or whole else (n, d)
        spec.vh_strategy, spec.bh_strategy = vh, bh
        spec.top_args = {x: o[x] for x in ("k", "p", "r") if x in o}
        obj = Objective(g)
        extra = {"alpha": Obj(tag="alpha")} if cf.kwargs else {}
        spec.kwargs = extra
        nproc = sym_int("nproc", 1) if par else None
        spec.nproc = nproc
        c.opts = dict(c.opts, loops=[spec])
        roots = [o, bounds, clamp, extra, kw]
        snap = spec.outer = Snapshot(roots)
        spec.options0 = dict(o)
        glob = spec.others = Snapshot(global_state() + [other])
        nev = len(c.events)
        out = call(c, opt.optimize, obj, iters, n_processes=nproc, verbose=verbose, **extra)
        r = no_raise(c, out, ["P02", "P10", "P11"], "optimize returns")
        stray = [e for k, e in c.events[nev:] if k == "eval" and e.t is None]
        c.oblige("no evaluation outside of the iterations", TRUE if not stray else FALSE, tags=["P10", "P11"])
        if spec.exit:
            T = spec.T
            PC, PP, B = s.pbest_cost, s.pbest_pos, s.best_cost
            c.oblige("without stopping all requested iterations are performed", toF(Num(T) == iters), tags=["P11"])
            for h in HIST:
                L = getattr(opt, h)
                c.oblige("nothing is recorded after the last iteration", TRUE if L is lists[h] and not L.tail else FALSE, tags=["P10"])
        elif spec.t is not None and not spec.ended:
            PC, PP, B = spec.iteration(c)
            T = simp(spec.t + 1)
            c.oblige("the run stops early only if the stopping rule holds", spec.rule(B), tags=["P11"])
        else:
            raise Unsupported("no iteration loop over range(iters)")
        ok = isinstance(r, (tuple, list)) and len(r) == 2 and isinstance(r[0], (Num, int, float)) and is_arr(r[1], d)
        c.oblige("returns (cost, position)", TRUE if ok else FALSE, tags=["P02"])
        if not ok:
            raise PathEnd()
        cost, pos = to_num(r[0]), r[1].copy()
        PCf, PPf = PC.copy(), PP.copy()

        def pair(cost, pos, PC, PP, B):
            """what the loop guarantees about the returned pair; the guarantees of P02"""
            inv = {lab: f for lab, f, tags in spec.inv(PC, PP, B, T)}
            one = exists([n], lambda m: fand(toF(cost == PC.at(m)), forall([d], lambda j: toF(pos.at(j) == PP.at(m, j)))))
            low = forall([n], lambda m: toF(cost <= PC.at(m)))
            best = forall_range([(0, T, ITER), (0, n, key_of(n))], lambda i, m: fnot(toF(g.CE(i, m) < cost)))
            where = fimp(toF(cost < INF), F("exists", [(0, n, key_of(n))], lambda m: F("exists", [(0, T, ITER)], lambda i: fand(
                toF(g.CE(i, m) == cost), forall([d], lambda j: toF(pos.at(j) == g.XE(i, m, j)))))))
            return (one, inv["the personal best is the first evaluation with that cost, cost and position together"],
                    low, inv["no earlier evaluation of a particle beats its personal best cost"], best, where)
        one, _, low, _, _, _ = pair(cost, pos, PCf, PPf, to_num(B))
        c.oblige("the returned cost and position are the personal best of one particle", one, ["P02", "P10"])
        c.oblige("the returned cost is not above any personal best cost", low, ["P02", "P10"])
        # from these and the invariant, for any values of the variables
        one, first, low, hist, best, where = pair(sym_real("gcost", ext=True), sym_arr("gpos", (d,)), sym_arr("gPC", (n,), kinds=True), sym_arr("gPP", (n, d)),
                                                  sym_real("gB", ext=True))
        c.oblige("no evaluated cost of the run is below the returned cost", best, tags=["P02"], hyps=[low, hist])
        c.oblige("the returned cost was evaluated at the returned position in this run", where, tags=["P02"], hyps=[one, first])
        c.oblige("the returned cost is the recorded best cost", fz(same_z(cost, to_num(B))), tags=["P02", "P10"])
        if bounds is not None:
            lb, ub = bounds
            c.oblige("the returned position lies inside the bounds", forall([d], lambda j: fand(toF(pos.at(j) >= lb.at(j)), toF(pos.at(j) <= ub.at(j)))), tags=["P01"])
        if g.binary:
            c.oblige("the returned position is binary", forall([d], lambda j: for_(toF(pos.at(j) == 0), toF(pos.at(j) == 1))), tags=["P09"])
        fresh = all(r[1].buf is not x.buf for x in (s.position, s.pbest_pos, s.best_pos) if isinstance(x, Arr))
        c.oblige("the returned position is a copy", TRUE if fresh else FALSE, tags=["P10", "P21"])
        frame(c, snap, ["P13", "P12"], allowed=[(kw.get("topology"), "neighbor_idx")])
        frame(c, glob, ["P21"], label="running an optimizer changes no other optimizer, module, class or default argument")


_mk_opt("GlobalBestPSO", whole=True)
_mk_opt("LocalBestPSO")
for _t in ("Star", "Ring", "VonNeumann", "Random", "Pyramid"):
    _mk_opt("GeneralOptimizerPSO", _t, whole=_t == "Star")
_mk_opt("GeneralOptimizerPSO", "Pyramid", whole=True)
_mk_opt("BinaryPSO")


# ------------------------------------------------------------ positions of a binary swarm
@task("binary_position", ["P09", "P13"], [CLS["BinaryPSO"][1] + "._compute_position", CLS["BinaryPSO"][1] + "._sigmoid"],
      opts={"contracts": dict(reporter_contracts(), **{"pyswarms.backend.generators.create_swarm": CreateSwarm(None)})})
def t_binpos(c):
    from .operators import unit_slots
    n, d, K, kw, bounds, clamp, o = build(c, "BinaryPSO")
    opt = no_raise(c, call(c, K, **kw), ["P09"], "construction")
    s = opt.swarm
    s.velocity = sym_arr("V", (n, d), kinds=True)
    V = s.velocity.copy()
    snap = Snapshot([opt])
    c.draws[:] = []
    r = no_raise(c, call(c, opt._compute_position, s), ["P09"])
    ok = is_arr(r, n, d)
    c.oblige("returns a position matrix", TRUE if ok else FALSE, ["P09"])
    if not ok:
        raise PathEnd()
    c.oblige("positions are 0 or 1", forall([n, d], lambda m, j: for_(toF(to_num(r.at(m, j)) == 0), toF(to_num(r.at(m, j)) == 1))), ["P09"])
    prob = lambda m, j: to_num(1) / (to_num(1) + NP.exp(-V.at(m, j)))
    c.oblige("a coordinate is 1 exactly when a fresh uniform number is below the sigmoid of its velocity", for_(*[forall([n, d], lambda m, j, u=u: fiff(
        toF(to_num(r.at(m, j)) == 1), toF(u(m, j) < prob(m, j)))) for u in unit_slots(c, n, d)] or [FALSE]), ["P09"])
    frame(c, snap, ["P09", "P13"])
