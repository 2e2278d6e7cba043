"""Contracts of the swarm generators (P08) and of construction, reset and isolation of the optimizers (P21).

The same postconditions are proved for the generator functions, for create_swarm, and for the swarm left by the
constructor and by reset() of every optimizer (after arbitrary earlier use)."""
from .base import *
from .operators import unit_slots
from .optimizers import CLS, HIST, build
from .contracts import reporter_contracts

G = "pyswarms.backend.generators."
CON = reporter_contracts()


def shape_ok(c, r, n, d, tags, what="positions"):
    ok = is_arr(r, n, d)
    c.oblige("%s: one row per particle, one column per dimension" % what,
             fand(*[fz(zint(a) == zint(b)) for a, b in zip(r._shape, (n, d))]) if ok else FALSE, tags=tags)
    if not ok:
        raise PathEnd()


def check_positions(c, n, d, make, tags, after=lambda: None):
    """make(**kw) -> (kind, positions); kw: center, bounds, init_pos"""
    case = c.choose(4)
    if case == 0:
        kind = c.choose(3)
        center = [1, sym_real("center"), sym_arr("center", (d,))][kind]
        if kind == 1:
            c.assume(center > 0)
        if kind == 2:
            c.assume(forall([d], lambda j: (center.at(j) > 0).f))
        cj = lambda j: center.at(j) if isinstance(center, Arr) else to_num(center)
        snap = Snapshot([center])
        r = no_raise(c, make(center=center) if kind else make(), tags)
        shape_ok(c, r, n, d, tags)
        c.oblige("positions lie in [0, center)", forall([n, d], lambda i, j: fand((r.at(i, j) >= 0).f, (r.at(i, j) < cj(j)).f)), tags=tags)
        slots = unit_slots(c, n, d)
        c.oblige("uniform over the range", for_(*[same_arr(r, (n, d), lambda i, j, u=u: cj(j) * u(i, j)) for u in slots] or [FALSE]), tags=tags)
    elif case == 1:
        lb, ub = mk_bounds(c, d)
        snap = Snapshot([lb, ub])
        r = no_raise(c, make(bounds=(lb, ub)), tags)
        shape_ok(c, r, n, d, tags)
        c.oblige("positions lie inside the bounds", forall([n, d], lambda i, j: fand(
            (r.at(i, j) >= lb.at(j)).f, (r.at(i, j) <= ub.at(j)).f)), tags=tags + ["P01"])
        slots = unit_slots(c, n, d)
        c.oblige("uniform between the bounds", for_(*[same_arr(r, (n, d), lambda i, j, u=u: lb.at(j) + (ub.at(j) - lb.at(j)) * u(i, j))
                                                      for u in slots] or [FALSE]), tags=tags)
    elif case == 2:
        init = sym_arr("I", (n, d), kinds=True)
        I0 = init.copy()
        snap = Snapshot([init])
        r = no_raise(c, make(init_pos=init), tags)
        c.oblige("initial positions are used verbatim", same_arr(r, (n, d), I0.at), tags=tags)
    else:
        lb, ub = mk_bounds(c, d)
        init = sym_arr("I", (n, d), kinds=True)
        I0 = init.copy()
        # not-a-number coordinates are neither inside nor outside
        c.assume(forall([n, d], lambda i, j: (I0.at(i, j) == I0.at(i, j)).f))
        bad = exists([n, d], lambda i, j: fnot(fand((I0.at(i, j) >= lb.at(j)).f, (I0.at(i, j) <= ub.at(j)).f)))
        snap = Snapshot([init, lb, ub])
        kind, r = make(bounds=(lb, ub), init_pos=init)
        if kind == "raise":
            c.oblige("initial positions are rejected only when outside the bounds, with ValueError",
                     bad if type(r).__name__ == "ValueError" else FALSE, tags=tags)
            frame(c, snap, ["P13"])
            return
        c.oblige("initial positions outside the bounds are rejected", fnot(bad), tags=tags + ["P01"])
        c.oblige("initial positions are used verbatim", same_arr(r, (n, d), I0.at), tags=tags)
    frame(c, snap, ["P13"])
    after()


def check_velocity(c, n, d, make, tags):
    """make(**kw) -> (kind, velocities); kw: clamp"""
    case = c.choose(3)
    if case == 0:
        r = no_raise(c, make(), tags)
        lo_, hi_ = (lambda j: to_num(0)), (lambda j: to_num(1))
    elif case == 1:
        lo, hi = sym_real("vmin"), sym_real("vmax")
        c.assume(lo <= hi)
        r = no_raise(c, make(clamp=(lo, hi)), tags)
        lo_, hi_ = (lambda j: lo), (lambda j: hi)
    else:
        lo, hi = sym_arr("vmin", (d,)), sym_arr("vmax", (d,))
        c.assume(forall([d], lambda j: (lo.at(j) <= hi.at(j)).f))
        snap = Snapshot([lo, hi])
        r = no_raise(c, make(clamp=(lo, hi)), tags)
        lo_, hi_ = lo.at, hi.at
        frame(c, snap, ["P13"])
    shape_ok(c, r, n, d, tags + ["P06"], "velocities")
    c.oblige("initial velocities lie inside the clamp", forall([n, d], lambda i, j: fand((r.at(i, j) >= lo_(j)).f, (r.at(i, j) <= hi_(j)).f)), tags=tags + ["P06"])
    if case == 0:
        c.oblige("initial velocities lie in [0, 1)", forall([n, d], lambda i, j: (r.at(i, j) < 1).f), tags=tags)
    slots = unit_slots(c, n, d)
    c.oblige("uniform over the clamp", for_(*[same_arr(r, (n, d), lambda i, j, u=u: lo_(j) + (hi_(j) - lo_(j)) * u(i, j)) for u in slots] or [FALSE]), tags=tags)


def check_discrete(c, n, d, make, tags, binary_only=False):
    """make(**kw) -> (kind, positions); kw: binary, init_pos"""
    case = (0, 3)[c.choose(2)] if binary_only else c.choose(4)
    if case == 0:
        r = no_raise(c, make(binary=True), tags + ["P09"])
        shape_ok(c, r, n, d, tags + ["P09"])
        c.oblige("binary positions are 0 or 1", forall([n, d], lambda i, j: for_((r.at(i, j) == 0).f, (r.at(i, j) == 1).f)), tags=tags + ["P09"])
    elif case == 1:
        r = no_raise(c, make(), tags)
        shape_ok(c, r, n, d, tags)
        c.oblige("entries are 0..dimensions-1", forall([n, d], lambda i, j: fand((r.at(i, j) >= 0).f, (r.at(i, j) < d).f)), tags=tags)
        c.oblige("rows are permutations", forall([n, d, d], lambda i, j, k: fimp((Num(j) != Num(k)).f, (r.at(i, j) != r.at(i, k)).f)), tags=tags)
    else:
        init = sym_arr("I", (n, d), "i")
        I0 = init.copy()
        snap = Snapshot([init])
        if case == 2:
            r = no_raise(c, make(init_pos=init), tags)
        else:
            # two witnesses cover all values
            two = F("exists", [(0, n, key_of(n)), (0, d, key_of(d)), (0, n, key_of(n)), (0, d, key_of(d))],
                    lambda a, b, a2, b2: forall([n, d], lambda i, j: for_((I0.at(i, j) == I0.at(a, b)).f, (I0.at(i, j) == I0.at(a2, b2)).f)))
            kind, r = make(binary=True, init_pos=init)
            if kind == "raise":
                c.oblige("binary initial positions are rejected only with more than two distinct values, with ValueError",
                         fnot(two) if type(r).__name__ == "ValueError" else FALSE, tags=tags)
                frame(c, snap, ["P13"])
                return
            no3 = forall([n, d, n, d, n, d], lambda a, b, a2, b2, a3, b3: for_(
                (I0.at(a, b) == I0.at(a2, b2)).f, (I0.at(a2, b2) == I0.at(a3, b3)).f, (I0.at(a, b) == I0.at(a3, b3)).f))
            c.oblige("binary initial positions with more than two distinct values are rejected", no3, tags=tags)
        c.oblige("initial positions are used verbatim", same_arr(r, (n, d), I0.at), tags=tags)
        frame(c, snap, ["P13"])


def fresh_swarm(c, s, n, d, options, tags):
    """nothing has been evaluated yet"""
    zero = lambda a: isinstance(a, (Arr, npshim._np.ndarray)) and to_arr(a).ndim == 1 and size_is(to_arr(a)._shape[0], 0)
    c.oblige("a new swarm has no best cost", toF(to_num(s.best_cost) == float("inf")), tags=tags)
    for k in ("best_pos", "pbest_cost", "current_cost"):
        c.oblige("a new swarm has no %s" % k, TRUE if zero(getattr(s, k)) else FALSE, tags=tags)
    c.oblige("a new swarm's personal best positions are its positions", same_arr(s.pbest_pos, (n, d), s.position.at), tags=tags)
    c.oblige("the swarm has the requested size", fand(toF(to_num(s.n_particles) == n), toF(to_num(s.dimensions) == d)), tags=tags)
    o = s.options
    c.oblige("the swarm has the given options", fand(*[toF(to_num(o[k]) == options[k]) if k in o else FALSE for k in options] + [
        TRUE if set(o) == set(options) else FALSE]) if isinstance(o, dict) else FALSE, tags=tags)


# ------------------------------------------------------------------ functions
def field(out, name):
    return (out[0], getattr(out[1], name)) if out[0] == "ok" else out


@task("generate_swarm", ["P08", "P01", "P13"], [G + "generate_swarm"], opts={"contracts": CON})
def t_gs(c):
    n, d = sym_int("n", 1), sym_int("d", 1)
    check_positions(c, n, d, lambda **k: call(c, imp("backend.generators").generate_swarm, n, d, **k), ["P08"])


@task("generate_velocity", ["P08", "P06", "P13"], [G + "generate_velocity"], opts={"contracts": CON})
def t_gv(c):
    n, d = sym_int("n", 1), sym_int("d", 1)
    check_velocity(c, n, d, lambda **k: call(c, imp("backend.generators").generate_velocity, n, d, **k), ["P08"])


@task("generate_discrete_swarm", ["P08", "P09", "P13"], [G + "generate_discrete_swarm"], opts={"contracts": CON})
def t_gd(c):
    n, d = sym_int("n", 1), sym_int("d", 1)
    check_discrete(c, n, d, lambda **k: call(c, imp("backend.generators").generate_discrete_swarm, n, d, **k), ["P08"])


@task("create_swarm", ["P08", "P01", "P06", "P09", "P13", "P21"], [G + "create_swarm", "pyswarms.backend.swarms.Swarm"], opts={"contracts": CON})
def t_cs(c):
    n, d = sym_int("n", 1), sym_int("d", 1)
    f = imp("backend.generators").create_swarm
    opts = {"c1": sym_real("c1"), "w": sym_real("w")}
    which = c.choose(4)
    if which == 0:
        check_positions(c, n, d, lambda **k: field(call(c, f, n, d, **k), "position"), ["P08"])
    elif which == 1:
        disc = bool(c.choose(2))
        check_velocity(c, n, d, lambda **k: field(call(c, f, n, d, discrete=disc, binary=disc, **k), "velocity"), ["P08"])
    elif which == 2:
        check_discrete(c, n, d, lambda **k: field(call(c, f, n, d, discrete=True, **k), "position"), ["P08"])
    else:
        snap = Snapshot([opts])
        disc, binary = [(False, False), (True, False), (True, True)][c.choose(3)]
        given = c.choose(2)
        kw = {"options": opts} if given else {}
        s = no_raise(c, call(c, f, n, d, discrete=disc, binary=binary, **kw), ["P08", "P21"])
        fresh_swarm(c, s, n, d, opts if given else {}, ["P08", "P21"])
        frame(c, snap, ["P13"])


# ------------------------------------------------------------------ optimizers
def args(c, cls, n, d, top=None):
    o = {x: sym_real(x) for x in ("c1", "c2", "w")}
    if cls in ("LocalBestPSO", "BinaryPSO"):
        o["k"], o["p"] = sym_int("k", 1), sym_int("p", 1, 3)
    kw = {"n_particles": n, "dimensions": d, "options": o}
    if cls == "GeneralOptimizerPSO":
        kw["topology"] = imp("backend.topology").Pyramid() if top is None else top
    return kw


def klass(cls):
    return getattr(imp(CLS[cls][0]), cls)


def dirty(c, opt, n, d):
    """an arbitrary state left by earlier runs"""
    s = opt.swarm
    binary = not hasattr(opt, "bh")
    s.position, s.velocity = sym_arr("dX", (n, d), "i" if binary else "f"), sym_arr("dV", (n, d))
    s.pbest_pos, s.pbest_cost = sym_arr("dP", (n, d)), sym_arr("dPC", (n,), kinds=True)
    s.best_pos, s.best_cost = sym_arr("dG", (d,)), Num(fresh_real("dB"), np=True)
    s.current_cost = sym_arr("dC", (n,), kinds=True)
    s.options = {k: sym_real("d_" + k) for k in opt.options}
    for h in HIST:
        setattr(opt, h, SList(sym_int("len", 0), lambda i: Poison("history"), h))
    opt.vh.memory = sym_arr("dvm", (n, d))
    if not binary:
        opt.bh.memory = sym_arr("dbm", (n, d))


def clamp_kw(k):
    k = dict(k)
    if "clamp" in k:
        k["velocity_clamp"] = k.pop("clamp")
    return k


def _mk_life(cls):
    q = CLS[cls][1]
    base = "pyswarms.base.base_discrete.DiscreteSwarmOptimizer." if cls == "BinaryPSO" else "pyswarms.base.base_single.SwarmOptimizer."

    @task("swarm_of[%s]" % cls, ["P08", "P01", "P06", "P09", "P13", "P21"] if cls == "BinaryPSO" else ["P08", "P01", "P06", "P13", "P21"],
          [q + ".__init__", base + "__init__", base + "reset"], opts={"contracts": CON})
    def t(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        K = klass(cls)
        reset = c.choose(2)

        def make(attr):
            def f(**k):
                k = clamp_kw(k)
                k.pop("binary", None)
                out = call(c, K, **dict(args(c, cls, n, d), **k))
                if out[0] == "raise":
                    return out
                opt = out[1]
                if reset:
                    dirty(c, opt, n, d)
                    c.draws[:] = []
                    out = call(c, opt.reset)
                    if out[0] == "raise":
                        return out
                return "ok", getattr(opt.swarm, attr)
            return f
        tags = ["P08", "P21"]
        if c.choose(2):
            check_velocity(c, n, d, make("velocity"), tags)
        elif cls == "BinaryPSO":
            check_discrete(c, n, d, make("position"), tags, binary_only=True)
        else:
            check_positions(c, n, d, make("position"), tags)

    @task("reset[%s]" % cls, ["P21", "P10", "P13"], [q + ".__init__", base + "__init__", base + "reset"], opts={"contracts": CON})
    def t2(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        kw = args(c, cls, n, d)
        o = kw["options"]
        o0 = dict(o)
        snap = Snapshot([o])
        opt = no_raise(c, call(c, klass(cls), **kw), ["P21"])
        stage = c.choose(2)
        old = None
        if stage:
            dirty(c, opt, n, d)
            old = [opt.swarm] + [getattr(opt, h) for h in HIST]
            no_raise(c, call(c, opt.reset), ["P21"])
        for h in HIST:
            L = getattr(opt, h)
            c.oblige("%s is empty" % h, TRUE if isinstance(L, list) and not L else FALSE, tags=["P21", "P10"])
        ls = [getattr(opt, h) for h in HIST]
        c.oblige("the histories are five different lists", TRUE if len({id(x) for x in ls}) == len(ls) else FALSE, tags=["P21", "P10"])
        fresh_swarm(c, opt.swarm, n, d, o0, ["P21"])
        if old:
            c.oblige("swarm and histories are new objects", TRUE if not {id(x) for x in old} & {id(x) for x in [opt.swarm] + ls} else FALSE, tags=["P21", "P10"])
        frame(c, snap, ["P13", "P21"])

    @task("isolation[%s]" % cls, ["P21", "P13"], [q + ".__init__", base + "__init__", base + "reset"], opts={"contracts": CON})
    def t3(c):
        """two optimizers made with default arguments; resetting one, constructing a third"""
        n, d = sym_int("n", 1), sym_int("d", 1)
        mk = lambda: no_raise(c, call(c, klass(cls), **args(c, cls, sym_int("n", 1), sym_int("d", 1))), ["P21"])
        a, b = mk(), mk()
        glob = global_state()
        g0 = Snapshot(glob)
        sa, sb = Snapshot([a]), Snapshot([b])
        shared = [o for i, (o, _) in sa.objs.items() if i in sb.objs and not empty_array(o)]
        c.oblige("optimizers share no modifiable state [%s]" % ", ".join(sorted({type(o).__name__ for o in shared})),
                 TRUE if not shared else FALSE, tags=["P21"])
        dirty(c, a, a.n_particles, a.dimensions)
        no_raise(c, call(c, a.reset), ["P21"])
        frame(c, sb, ["P21"], label="resetting an optimizer does not change another one")
        sa = Snapshot([a])
        mk()
        frame(c, sa, ["P21"], label="constructing an optimizer does not change another one")
        frame(c, sb, ["P21"], label="constructing an optimizer does not change others")
        frame(c, g0, ["P21"], label="construction and reset change no state of modules, classes or default arguments")


def empty_array(o):
    if isinstance(o, npshim._np.ndarray):
        return o.size == 0
    return isinstance(o, Buf) and any(isinstance(s, int) and s == 0 for s in o.shape)


for _c in CLS:
    _mk_life(_c)
