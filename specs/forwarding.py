"""Contracts of compute_velocity and compute_position of the five topologies: exactly the operator of the same name"""
from .base import *
from .contracts import *
from .operators import mk_clamp

TOPS = {"Star": "star", "Ring": "ring", "VonNeumann": "von_neumann", "Pyramid": "pyramid", "Random": "random"}
CONS = dict(reporter_contracts(), **{OPQ + "compute_velocity": ComputeVelocity(), OPQ + "compute_position": ComputePosition()})


def pair_is(b, bounds):
    return b is bounds or isinstance(b, (tuple, list)) and isinstance(bounds, tuple) and len(b) == 2 and b[0] is bounds[0] and b[1] is bounds[1]


def _mk(name):
    own = name if name != "VonNeumann" else "Ring"
    q = "pyswarms.backend.topology.%s.%s." % (TOPS[own], own)
    new = lambda: getattr(imp("backend.topology"), name)()

    @task("velocity[%s]" % name, ["P05", "P06", "P13", "P21"], [q + "compute_velocity"], opts={"contracts": CONS})
    def tv(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        star = c.choose(2)
        s = mk_swarm(c, n, d, best_pos=sym_arr("G", (d,)) if star else sym_arr("G", (n, d)))
        top = new()
        given = c.choose(3)
        bounds, clamp = (mk_bounds(c, d), mk_clamp(c, d)) if given else (None, None)
        vh = imp("backend.handlers").VelocityHandler(strategy="invert")
        glob = Snapshot(global_state())
        snap = Snapshot([top, s, bounds, clamp, vh])
        if given == 0:
            out = call(c, top.compute_velocity, s)
        elif given == 1:
            out = call(c, top.compute_velocity, s, clamp, vh, bounds)
        else:
            out = call(c, top.compute_velocity, bounds=bounds, vh=vh, clamp=clamp, swarm=s)
        r = no_raise(c, out, ["P05", "P06"])
        ev = [e for k, e in c.events if k == "velocity"]
        if not ev:
            raise Unsupported("the topology does not use the velocity operator")
        ok = len(ev) == 1 and ev[0].swarm is s
        c.oblige("the velocity operator is applied once to the swarm", TRUE if ok else FALSE, tags=["P05", "P06"])
        if not ok:
            raise PathEnd()
        e = ev[0]
        c.oblige("its result is returned", same_arr(r, (n, d), e.result.at) if isinstance(r, Arr) else FALSE, tags=["P05", "P06"])
        c.oblige("the clamp is passed on", TRUE if (pair_is(e.clamp, clamp) if given else e.clamp is None) else FALSE, tags=["P05", "P06"])
        if given:
            c.oblige("the bounds are passed on", TRUE if pair_is(e.bounds, bounds) else FALSE, tags=["P05"])
            same = e.vh is vh
        else:
            same = getattr(e.vh, "strategy", None) == "unmodified"
        c.oblige("the velocity strategy is passed on (unmodified unless given)", TRUE if same else FALSE, tags=["P05", "P06"])
        frame(c, snap, ["P13"])
        frame(c, glob, ["P21"], label="no default argument, class attribute or module variable is modified")

    @task("position[%s]" % name, ["P07", "P01", "P13", "P21"], [q + "compute_position"], opts={"contracts": CONS})
    def tp(c):
        n, d = sym_int("n", 1), sym_int("d", 1)
        s = mk_swarm(c, n, d)
        top = new()
        given = c.choose(4)
        bounds = mk_bounds(c, d) if given else None
        bh = imp("backend.handlers").BoundaryHandler(strategy="nearest")
        glob = Snapshot(global_state())
        snap = Snapshot([top, s, bounds, bh])
        if given == 0:
            out = call(c, top.compute_position, s)
        elif given == 1:
            out = call(c, top.compute_position, s, bounds, bh)
        elif given == 2:
            out = call(c, top.compute_position, bh=bh, swarm=s, bounds=bounds)
        else:
            out = call(c, top.compute_position, s, bounds)
        r = no_raise(c, out, ["P07", "P01"])
        ev = [e for k, e in c.events if k == "position"]
        if not ev:
            raise Unsupported("the topology does not use the position operator")
        ok = len(ev) == 1 and ev[0].swarm is s
        c.oblige("the position operator is applied once to the swarm", TRUE if ok else FALSE, tags=["P07", "P01"])
        if not ok:
            raise PathEnd()
        e = ev[0]
        c.oblige("its result is returned", same_arr(r, (n, d), e.result.at) if isinstance(r, Arr) else FALSE, tags=["P07", "P01"])
        c.oblige("the bounds are passed on", TRUE if (pair_is(e.bounds, bounds) if given else e.bounds is None) else FALSE, tags=["P07", "P01"])
        same = e.bh is bh if given in (1, 2) else getattr(e.bh, "strategy", None) == "periodic" if given == 3 else True
        c.oblige("the boundary strategy is passed on (periodic unless given)", TRUE if same else FALSE, tags=["P07", "P01"])
        frame(c, snap, ["P13"])
        frame(c, glob, ["P21"], label="no default argument, class attribute or module variable is modified")


for _n in TOPS:
    _mk(_n)
