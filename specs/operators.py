"""Contracts of pyswarms.backend.operators"""
from .base import *

OPS = "pyswarms.backend.operators."


def better(c, p):
    """strict improvement (false for NaN)"""
    return to_num(c) < to_num(p)


@task("compute_pbest", ["P03", "P13", "P02"], [OPS + "compute_pbest"])
def t_pbest(c):
    n, d = sym_int("n", 1), sym_int("d", 1)
    s = mk_swarm(c, n, d)
    X, P, PC, C = s.position.copy(), s.pbest_pos.copy(), s.pbest_cost.copy(), s.current_cost.copy()
    snap = Snapshot([s])
    out = call(c, imp("backend.operators").compute_pbest, s)
    v = no_raise(c, out, ["P03"])
    ok = isinstance(v, (tuple, list)) and len(v) == 2 and is_arr(v[0], n, d) and is_arr(v[1], n)
    c.oblige("returns (positions, costs)", TRUE if ok else FALSE, tags=["P03"])
    if not ok:
        raise PathEnd()
    c.oblige("new personal best cost is the smaller one, ties and NaN keep the old",
             same_arr(v[1], (n,), lambda i: ite(better(C.at(i), PC.at(i)), C.at(i), PC.at(i))), tags=["P03", "P02"])
    c.oblige("new personal best position belongs to the new cost",
             same_arr(v[0], (n, d), lambda i, j: ite(better(C.at(i), PC.at(i)), X.at(i, j), P.at(i, j))), tags=["P03", "P02"])
    frame(c, snap, ["P13"])


# ------------------------------------------------------------ velocity
def out_F(pos, bounds, d):
    """particle i is outside of the bounds in some dimension"""
    lb, ub = bounds
    return lambda i: exists([d], lambda j: for_((pos.at(i, j) < lb.at(j)).f, (pos.at(i, j) > ub.at(j)).f))


def clamp_of(v, clamp):
    """the documented clamp of one component"""
    if clamp is None:
        return v
    lo, hi = clamp
    return ite(v < lo, lo, ite(v > hi, hi, v))


def once(f):
    """name a (possibly quantified) condition per particle so that it is one fact per index"""
    p = fresh_fun("cond", 1, "b")

    def g(i):
        s = sink()
        e = p(i)
        if not s.seen("once", (id(f), e.get_id())):
            s.fact(z3.Implies(e, GR.ground(f(i), True)))
            s.fact(z3.Implies(z3.Not(e), GR.ground(f(i), False)))
        return fz(e)
    return g


def spec_strategy(c, strategy, v, pos, bounds, d, memory, z):
    """velocity after the strategy, before the clamp: function of (i, j)"""
    if strategy == "unmodified":
        return lambda i, j: v.at(i, j)
    if strategy == "adjust":
        if memory is None:
            return lambda i, j: v.at(i, j)
        return lambda i, j: pos.at(i, j) - memory.at(i, j)
    o = once(out_F(pos, bounds, d))
    if strategy == "invert":
        return lambda i, j: ite(o(i), (-z) * v.at(i, j), v.at(i, j))
    return lambda i, j: ite(o(i), to_num(0), v.at(i, j))


def vh_cases():
    for s in ("unmodified", "adjust", "invert", "zero"):
        for cl in ("clamp", "noclamp"):
            for mem in (("first", "later") if s == "adjust" else ("",)):
                for z in (("z", "") if s == "invert" else ("",)):
                    yield s, cl, mem, z


def mk_clamp(c, d, per_dim=False):
    if per_dim:
        lo, hi = sym_arr("vmin", (d,)), sym_arr("vmax", (d,))
        c.assume(forall([d], lambda j: lo.at(j) <= hi.at(j)))
        return lo, hi
    lo, hi = sym_real("vmin"), sym_real("vmax")
    c.assume(lo <= hi)
    return lo, hi


def _mk_vh(s, cl, mem, z):
    name = "velocity_handler[%s]" % ",".join(x for x in (s, cl, mem, z) if x)

    @task(name, ["P05", "P06", "P13"], ["pyswarms.backend.handlers.VelocityHandler." + s,
                                        "pyswarms.backend.handlers.VelocityHandler.__call__",
                                        "pyswarms.backend.handlers.VelocityHandler.__apply_clamp",
                                        "pyswarms.backend.handlers.HandlerMixin._out_of_bounds"])
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        vh = imp("backend.handlers").VelocityHandler(strategy=s)
        v, pos = sym_arr("V", (n, d)), sym_arr("X", (n, d))
        v0, pos0 = v.copy(), pos.copy()
        bounds = mk_bounds(c, d) if s in ("invert", "zero") or c.choose(2) == 0 else None
        clamp = mk_clamp(c, d) if cl == "clamp" else None
        memory = None
        if mem == "later":
            memory = sym_arr("XM", (n, d))
            vh.memory = memory
        mem0 = None if memory is None else memory.copy()
        kw = {"position": pos, "bounds": bounds}
        zz = to_num(Fraction(1, 2))
        if z:
            zz = sym_real("z")
            kw["z"] = zz
        snap = Snapshot([pos, bounds, clamp])
        out = call(c, vh, v, clamp, **kw)
        r = no_raise(c, out, ["P05", "P06"])
        spec = spec_strategy(c, s, v0, pos0, bounds, d, mem0, zz)
        c.oblige("result is clamp(strategy(velocity))",
                 same_arr(r, (n, d), lambda i, j: clamp_of(spec(i, j), clamp)), tags=["P05"])
        if clamp is not None:
            c.oblige("every component lies inside the clamp",
                     forall([n, d], lambda i, j: fand((r.at(i, j) >= clamp[0]).f, (r.at(i, j) <= clamp[1]).f)), tags=["P06"])
            c.oblige("components inside the clamp are unchanged",
                     forall([n, d], lambda i, j: fimp(fand((spec(i, j) >= clamp[0]).f, (spec(i, j) <= clamp[1]).f),
                                                      (r.at(i, j) == spec(i, j)).f)), tags=["P06"])
        if s == "adjust":
            c.oblige("remembers the position for the next call", same_arr(vh.memory, (n, d), pos0.at), tags=["P05"])
        frame(c, snap, ["P13"])


for _c in vh_cases():
    _mk_vh(*_c)


# ------------------------------------------------------------ velocity equation
class Opaque:
    """an arbitrary handler: records its arguments and returns an arbitrary result"""

    def __init__(self, result):
        self.calls, self.result = [], result

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        return self.result


def unit_slots(c, *shape):
    """candidate fresh uniform [0,1) random arrays of the given shape: list of element functions"""
    out = []
    nd = len(shape)
    for kind, sh, v in c.draws:
        if kind != "unit":
            continue
        if not isinstance(v, Arr):
            continue
        if len(sh) == nd and all(size_same(norm_size(x), norm_size(y)) for x, y in zip(sh, shape)):
            out.append(v.at)
        elif len(sh) == nd + 1 and isinstance(norm_size(sh[0]), int) and \
                all(size_same(norm_size(x), norm_size(y)) for x, y in zip(sh[1:], shape)):
            for k in range(norm_size(sh[0])):
                out.append((lambda v, k: lambda *ix: v.at(k, *ix))(v, k))
    return out


def same_pair(a, b):
    """the same limits, whether or not in the same tuple"""
    return a is b or b is not None and isinstance(a, (tuple, list)) and len(a) == 2 and a[0] is b[0] and a[1] is b[1]


@task("compute_velocity", ["P05", "P13"], [OPS + "compute_velocity"])
def t_vel(c):
    n, d = sym_int("n", 1), sym_int("d", 1)
    star = c.choose(2)
    s = mk_swarm(c, n, d, best_pos=sym_arr("G", (d,)) if star else sym_arr("G", (n, d)))
    given = c.choose(5)
    bounds = mk_bounds(c, d) if given != 1 else None
    clamp = mk_clamp(c, d) if given != 2 else None
    if given == 1:          # options with further keys
        s.options = dict(s.options, k=sym_int("k", 1), p=sym_int("p", 1, 3))
    if given == 3:          # a binary swarm
        s.position, s.pbest_pos = sym_arr("XI", (n, d), "i"), sym_arr("PI", (n, d), "i")
        s.best_pos = sym_arr("GI", (d,), "i") if star else sym_arr("GI", (n, d), "i")
    if given == 4:          # integer velocities
        s.velocity = sym_arr("VI", (n, d), "i")
    X, V, P, G = s.position.copy(), s.velocity.copy(), s.pbest_pos.copy(), s.best_pos.copy()
    w, c1, c2 = (s.options[k] for k in ("w", "c1", "c2"))
    g = (lambda i, j: G.at(j)) if star else G.at
    vh = Opaque(sym_arr("R", (n, d)))
    snap = Snapshot([s, bounds, clamp])
    out = call(c, imp("backend.operators").compute_velocity, s, clamp, vh, bounds)
    r = no_raise(c, out, ["P05"])
    ok = len(vh.calls) == 1 and isinstance(r, Arr)
    c.oblige("the velocity strategy is applied once and its result returned", same_arr(r, (n, d), vh.result.at) if ok else FALSE, tags=["P05", "P06"])
    if not ok:
        raise PathEnd()
    a, k = vh.calls[0]
    k = dict(k)
    for nm, v in zip(("velocity", "clamp"), a):
        k[nm] = v
    okc = same_pair(k.get("clamp"), clamp)
    c.oblige("the strategy gets the clamp", TRUE if okc else FALSE, tags=["P05", "P06"])
    b = k.get("bounds")
    okb = same_pair(b, bounds)
    c.oblige("the strategy gets the bounds", TRUE if okb else FALSE, tags=["P05"])
    px = k.get("position")
    c.oblige("the strategy gets the current positions", same_arr(px, (n, d), X.at) if px is not None else FALSE, tags=["P05"])
    v = k.get("velocity")
    slots = unit_slots(c, n, d)
    opts = []
    for p in range(len(slots)):
        for q in range(len(slots)):
            if p != q:
                def f(i, j, r1=slots[p], r2=slots[q]):
                    return w * V.at(i, j) + c1 * r1(i, j) * (P.at(i, j) - X.at(i, j)) + c2 * r2(i, j) * (g(i, j) - X.at(i, j))
                opts.append(same_arr(v, (n, d), f))
    c.oblige("velocity equation with two different fresh random matrices", for_(*opts) if opts else FALSE, tags=["P05"])
    frame(c, snap, ["P13"])


@task("compute_position", ["P07", "P10", "P13", "P01"], [OPS + "compute_position"])
def t_pos(c):
    n, d = sym_int("n", 1), sym_int("d", 1)
    s = mk_swarm(c, n, d)
    if c.choose(2):         # positions, or positions and velocities, may be integers
        s.position = sym_arr("XI", (n, d), "i")
        if c.choose(2):
            s.velocity = sym_arr("VI", (n, d), "i")
    bounded = c.choose(2)
    bounds = mk_bounds(c, d) if bounded else None
    X, V = s.position.copy(), s.velocity.copy()
    bh = Opaque(sym_arr("R", (n, d)))
    snap = Snapshot([s, bounds])
    out = call(c, imp("backend.operators").compute_position, s, bounds, bh)
    r = no_raise(c, out, ["P07"])
    if not bounded:
        c.oblige("without bounds: position plus velocity", same_arr(r, (n, d), lambda i, j: X.at(i, j) + V.at(i, j)), tags=["P07"])
    else:
        ok = len(bh.calls) == 1 and isinstance(r, Arr)
        c.oblige("the boundary strategy is applied once and its result returned", same_arr(r, (n, d), bh.result.at) if ok else FALSE, tags=["P07", "P01"])
        if not ok:
            raise PathEnd()
        a, k = bh.calls[0]
        k = dict(k)
        for nm, v in zip(("position", "bounds"), a):
            k[nm] = v
        b = k.get("bounds")
        okb = same_pair(b, bounds)
        c.oblige("the strategy gets the bounds", TRUE if okb else FALSE, tags=["P07", "P01"])
        c.oblige("the strategy gets position plus velocity",
                 same_arr(k["position"], (n, d), lambda i, j: X.at(i, j) + V.at(i, j)) if "position" in k else FALSE, tags=["P07"])
        c.oblige("the strategy can write any coordinate into its argument (a float array)",
                 TRUE if isinstance(k.get("position"), Arr) and k["position"].dt == "f" else FALSE, tags=["P07", "P01"])
        fresh = isinstance(k.get("position"), Arr) and id(k["position"].buf) not in snap.objs
        c.oblige("the strategy may overwrite its argument (a fresh array)", TRUE if fresh else FALSE, tags=["P10", "P13", "P07"])
    c.oblige("the result is not an array of the swarm", TRUE if isinstance(r, Arr) and id(r.buf) not in snap.objs else FALSE, tags=["P10"])
    frame(c, snap, ["P10", "P13"])


# ------------------------------------------------------------ boundary strategies
def in_bounds(a, bounds, n, d):
    lb, ub = bounds
    return forall([n, d], lambda i, j: fand((a.at(i, j) >= lb.at(j)).f, (a.at(i, j) <= ub.at(j)).f))


@task("mirror_lemmas", ["P07", "P01"], ["pyswarms.backend.handlers.BoundaryHandler.reflective"])
def t_mirror_lemmas(c):
    """the facts that Mirror uses, for y = (value - lower bound) / (2 * width): the mirrored value of y with floor k is m = y - k
    or 1 - m, whichever is at most a half"""
    y, k, q = z3.FreshReal("y"), z3.FreshInt("k"), z3.FreshInt("q")
    R = z3.ToReal
    floor = lambda y, k: z3.And(R(k) <= y, y < R(k) + 1)
    half = z3.Q(1, 2)
    tri = lambda y, k: z3.If(y - R(k) <= half, y - R(k), 1 - (y - R(k)))
    c.assume(fz(floor(y, k)))
    for label, z, kz in [
            ("mirroring at the lower bound keeps the result", -y, z3.If(y == R(k), -k, -k - 1)),
            ("mirroring at the upper bound keeps the result", 1 - y, z3.If(y == R(k), 1 - k, -k)),
            ("whole cycles keep the result", y + R(q), k + q)]:
        c.oblige(label, fz(z3.And(floor(z, kz), tri(z, kz) == tri(y, k))), tags=["P07", "P01"], kind="lemma")
    c.oblige("a value inside the bounds is its own mirror image", fz(z3.Implies(z3.And(y >= 0, y <= half), z3.And(k == 0, tri(y, k) == y))), tags=["P07", "P01"], kind="lemma")
    c.oblige("the result lies inside the bounds", fz(z3.And(tri(y, k) >= 0, tri(y, k) <= half)), tags=["P07", "P01"], kind="lemma")


class Mirror:
    """mirror(j, v): the result of repeatedly mirroring v at the bounds of dimension j; the facts about it are the mirror
    lemmas, scaled to the bounds"""

    def __init__(self, bounds):
        self.lb, self.ub = bounds
        self.f = z3.Function("mirror", z3.IntSort(), z3.RealSort(), z3.RealSort())

    def __call__(self, j, v, start=False):
        """start: v is a position before the reflections, from which whole cycles may be taken off"""
        v = to_num(v)
        s = sink()
        e = self.f(zint(j), zreal(v.v))
        if not s.seen("mirror%d" % start, e.get_id()):
            g = lambda x: self.f(zint(j), zreal(to_num(x).v))
            lb, ub = self.lb.at(j), self.ub.at(j)
            w = ub - lb
            s.fact(z3.Implies(z3.And(v.v >= lb.v, v.v <= ub.v), e == v.v))
            s.fact(z3.And(e >= lb.v, e <= ub.v))
            for x in (2 * lb - v, 2 * ub - v):
                s.fact(g(x) == e)
            if start:
                m = (v - lb) % (2 * w)
                s.fact(e == ite(m <= w, lb + m, lb + 2 * w - m).v)
                for x in (lb - (lb - v) % (2 * w), ub + (v - ub) % (2 * w), lb + m):
                    s.fact(g(x) == e)
        return Num(e)


class Reflect(LoopSpec):
    """while loop of the reflective strategy: every coordinate keeps its mirror image, those inside the bounds their value;
    at the head of round t no coordinate is further out than max(0, 2 - t) widths (so there are at most two rounds)"""

    def __init__(self, pos, bounds, n, d):
        self.pos, self.bounds, self.n, self.d = pos, bounds, n, d
        self.p0 = pos.copy()
        self.f = fresh_fun("R", 2)
        self.mirror = Mirror(bounds)
        self.t = None

    def inv(self, a, i, j):
        x = self.p0.at(i, j)
        return fand((self.mirror(j, a) == self.mirror(j, x, True)).f, fimp(fz(self.inside(i, j)), (a == x).f))

    def limits(self, j, t):
        lb, ub = self.bounds[0].at(j), self.bounds[1].at(j)
        w = ub - lb
        w = Num(z3.If(t <= 0, (2 * w).v, z3.If(t == 1, w.v, z3.RealVal(0))))
        return lb - w, ub + w

    def within(self, a, j, t):
        lo, hi = self.limits(j, t)
        return fand((a >= lo).f, (a <= hi).f)

    def R(self, i, j):
        """the coordinates at the head of the round: the invariant holds for each that occurs"""
        a = Num(self.f(i, j))
        s = sink()
        if not s.seen("R", a.v.get_id()):
            x = self.p0.at(i, j)
            s.fact(self.mirror(j, a).v == self.mirror(j, x, True).v)
            s.fact(z3.Implies(self.inside(i, j), a.v == x.v))
            lo, hi = self.limits(j, self.t)
            s.fact(z3.And(a.v >= lo.v, a.v <= hi.v))
        return a

    def inside(self, i, j):
        x = self.p0.at(i, j).v
        return z3.And(x >= self.bounds[0].at(j).v, x <= self.bounds[1].at(j).v)

    def matches(self, c, q, line, seq):
        return seq is None and q.endswith(".reflective")

    def _masks(self, a):
        lb, ub = self.bounds
        return runtime.NP.nonzero(a < lb), runtime.NP.nonzero(a > ub)

    def _classify(self, loc, a, names):
        """local variables that hold the positions / the out-of-bounds index tuples of the positions"""
        lo, hi = self._masks(a)
        kinds = {}
        for n, v in loc.items():
            if n not in names:
                continue
            if isinstance(v, tuple) and v and isinstance(v[0], Arr) and v[0].nz is not None:
                if v[0].nz[0] is lo[0].nz[0]:
                    kinds[n] = "lo"
                elif v[0].nz[0] is hi[0].nz[0]:
                    kinds[n] = "hi"
        return kinds

    def arr_of(self, loc):
        cand = [v for k, v in loc.items() if isinstance(v, Arr) and v.buf is self.pos.buf]
        return cand[0] if cand else None

    def init(self, c, loop):
        a = self.arr_of(loop.loc0)
        if a is None:
            raise Unsupported("reflective loop does not work on its argument")
        self.establish(c, a, z3.IntVal(0), "before the first round")

    def establish(self, c, a, t, when):
        c.oblige("the coordinates keep their mirror images " + when, forall([self.n, self.d], lambda i, j: self.inv(a.at(i, j), i, j)), tags=["P07"], kind="inv")
        # termination: not an obligation of a property, so that other ways to end the loop are no violation
        c.oblige("the coordinates come closer to the bounds " + when, forall([self.n, self.d], lambda i, j: self.within(a.at(i, j), j, t)), kind="inv")

    def havoc(self, c, t, loc, loop):
        a = self.arr_of(loc)
        self.kinds = self._classify(loc, a, loop.names)
        self.t = t
        a.buf.write(memo(self.R))
        lo, hi = self._masks(a)
        d = {n: lo if k == "lo" else hi for n, k in self.kinds.items()}
        return d, [(a.buf, "<elements>")]

    def end(self, c, loop):
        a = self.arr_of(loop.loc_end)
        self.establish(c, a, self.t + 1, "after a round")
        k2 = self._classify(loop.loc_end, a, loop.names)
        ok = all(k2.get(n) == k for n, k in self.kinds.items())
        c.oblige("index tuples describe the new positions", TRUE if ok else FALSE, tags=["P07", "P01"], kind="inv")


BH = ["nearest", "random", "shrink", "reflective", "intermediate", "periodic"]


def _mk_bh(strategy):
    @task("boundary_handler[%s]" % strategy, ["P01", "P07", "P10", "P13"],
          ["pyswarms.backend.handlers.BoundaryHandler." + strategy, "pyswarms.backend.handlers.BoundaryHandler.__call__",
           "pyswarms.backend.handlers.HandlerMixin._out_of_bounds"])
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        bh = imp("backend.handlers").BoundaryHandler(strategy=strategy)
        pos = sym_arr("X", (n, d))
        X = pos.copy()
        bounds = lb, ub = mk_bounds(c, d)
        mem = None
        if strategy in ("shrink", "intermediate") and c.choose(2):
            # no positions remembered yet
            snap = Snapshot([bounds])
            r = no_raise(c, call(c, bh, pos, bounds), ["P07"])
            ok = is_arr(r, n, d)
            inside = lambda i: forall([d], lambda j: fand((X.at(i, j) >= lb.at(j)).f, (X.at(i, j) <= ub.at(j)).f))
            c.oblige("particles inside the bounds are unchanged",
                     forall([n], lambda i: fimp(inside(i), forall([d], lambda j: (r.at(i, j) == X.at(i, j)).f))) if ok else FALSE, tags=["P07"])
            c.oblige("remembers the returned positions", same_arr(bh.memory, (n, d), r.at) if ok and isinstance(bh.memory, Arr) else FALSE, tags=["P07"])
            frame(c, snap, ["P10", "P13"])
            return
        if strategy in ("shrink", "intermediate"):
            mem = sym_arr("XM", (n, d))
            bh.memory = mem
            c.assume(in_bounds(mem, bounds, n, d))
            M = mem.copy()
        if strategy == "reflective":
            refl = Reflect(pos, bounds, n, d)
            c.opts = dict(c.opts, loops=[refl])
        snap = Snapshot([bounds, mem])
        out = call(c, bh, pos, bounds)
        r = no_raise(c, out, ["P01", "P07"])
        if not is_arr(r, n, d):
            c.oblige("returns an array of positions", FALSE, tags=["P01", "P07"])
            raise PathEnd()
        x = X.at
        c.oblige("every coordinate lies inside the bounds", in_bounds(r, bounds, n, d), tags=["P01"])
        inside = lambda i: forall([d], lambda j: fand((x(i, j) >= lb.at(j)).f, (x(i, j) <= ub.at(j)).f))
        c.oblige("particles inside the bounds are unchanged",
                 forall([n], lambda i: fimp(inside(i), forall([d], lambda j: (r.at(i, j) == x(i, j)).f))), tags=["P07"])
        below = lambda i, j: x(i, j) < lb.at(j)
        above = lambda i, j: x(i, j) > ub.at(j)
        if strategy == "nearest":
            f = lambda i, j: ite(below(i, j), lb.at(j), ite(above(i, j), ub.at(j), x(i, j)))
        elif strategy == "intermediate":
            h = Fraction(1, 2)
            f = lambda i, j: ite(below(i, j), h * (M.at(i, j) + lb.at(j)), ite(above(i, j), h * (M.at(i, j) + ub.at(j)), x(i, j)))
        elif strategy == "periodic":
            def f(i, j):
                s = num_abs(ub.at(j) - lb.at(j))
                return ite(below(i, j), ub.at(j) - (lb.at(j) - x(i, j)) % s, ite(above(i, j), lb.at(j) + (x(i, j) - ub.at(j)) % s, x(i, j)))
        elif strategy == "reflective":
            f = lambda i, j: refl.mirror(j, x(i, j), True)
        elif strategy == "shrink":
            sg = fresh_fun("sigma", 1)
            w = fresh_fun("sigma_at", 1, "i")

            def sig(i, j):
                v = x(i, j) - M.at(i, j)
                return ite(below(i, j), (lb.at(j) - M.at(i, j)) / v, ite(above(i, j), (ub.at(j) - M.at(i, j)) / v, to_num(1)))

            def S(i):
                s = sink()
                e = sg(i)
                if not s.seen("S", e.get_id()):
                    s.fact(z3.And(w(i) >= 0, w(i) < zint(d)))
                    s.term(key_of(d), w(i))
                    s.fact(same_z(sig(i, w(i)), Num(e)))
                    s.qfact(Q([(0, d, key_of(d))], lambda j: (Num(e) <= sig(i, j)).f))
                return Num(e)
            vel = lambda i, j: x(i, j) - M.at(i, j)
            lemma(c, "shrinking factors are not negative", forall([n, d], lambda i, j: fand(isfinite(sig(i, j)), (sig(i, j) >= 0).f)), ["P07"])
            lemma(c, "shrinking factor between 0 and 1 for particles outside",
                  forall([n], lambda i: fand((S(i) >= 0).f, (S(i) <= 1).f)), ["P07"])
            lemma(c, "shrunk step stays inside the bounds", forall([n, d], lambda i, j: fand(
                (M.at(i, j) + S(i) * vel(i, j) >= lb.at(j)).f, (M.at(i, j) + S(i) * vel(i, j) <= ub.at(j)).f)), ["P07"])
            outs = once(out_F(X, bounds, d))
            f = lambda i, j: ite(outs(i), M.at(i, j) + S(i) * (x(i, j) - M.at(i, j)), x(i, j))
        if strategy == "random":
            slots = unit_slots(c, d)
            slots = [(lambda s: lambda i, j: s(j))(s) for s in slots]
            slots += [(lambda s: lambda i, j: s(0, j))(s) for s in unit_slots(c, 1, d)] + unit_slots(c, n, d)
            o = out_F(X, bounds, d)
            c.oblige("particles outside get a uniformly random point between the bounds", forall([n], lambda i: fimp(o(i), for_(
                *[forall([d], lambda j, s=s: (r.at(i, j) == lb.at(j) + (ub.at(j) - lb.at(j)) * s(i, j)).f) for s in slots] or [FALSE]))), tags=["P07"])
        else:
            c.oblige("documented formula of the strategy", same_arr(r, (n, d), f), tags=["P07"])
        if mem is not None:
            c.oblige("remembers the returned positions", same_arr(bh.memory, (n, d), r.at) if isinstance(bh.memory, Arr) else FALSE, tags=["P07"])
        frame(c, snap, ["P10", "P13"])


for _s in BH:
    _mk_bh(_s)
