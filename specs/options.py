"""Contracts of OptionsHandler (P12) and of the swarm generators (P08)"""
from .base import *
from .operators import unit_slots

H = "pyswarms.backend.handlers.OptionsHandler."


def q(x):
    """the float literal of the documentation as an exact number"""
    return to_num(x)


def end_default(start, opt):
    if opt == "w":
        return q(0.4)
    if opt == "c1":
        return q(0.8) * start["c1"]
    return q(1) * start["c2"]


def schedule(name, start, opt, end, i, n, par):
    """documented schedule formulas"""
    s = start[opt]
    if name == "exp_decay":
        d1, d2 = par.get("d1", q(0.2)), par.get("d2", q(7))
        return (s - end - d1) * npshim.n_exp(q(1) / (q(1) + d2 * i / n))
    if name == "lin_variation":
        return end + (s - end) * (n - i) / n
    if name == "nonlin_mod":
        k = par.get("n", q(1.2))
        return end + (s - end) * ((n - i) ** k / n ** k)


def _mk_oh(strategy):
    @task("options_handler[%s]" % strategy, ["P12", "P13"], [H + strategy, H + "__call__"])
    def t(c):
        OH = imp("backend.handlers").OptionsHandler
        start = {k: sym_real(k) for k in ("c1", "c2", "w")}
        opt = ("c1", "c2", "w")[c.choose(3)]
        given_end = c.choose(2)
        given_par = c.choose(2) if strategy in ("exp_decay", "nonlin_mod") else 0
        itermax = sym_int("itermax", 1)
        i = sym_int("i", 0, itermax)
        kw = {"iternow": i, "itermax": itermax}
        if given_end:
            kw["end_opts"] = {opt: sym_real("end")}
        par = {}
        if given_par and strategy == "exp_decay":
            par = {"d1": sym_real("d1"), "d2": sym_real("d2")}
            c.assume(par["d2"] >= 0)
        elif given_par:
            par = {"n": sym_real("nmod")}
        elif strategy == "exp_decay":
            pass
        kw.update(par)
        oh = OH(strategy={opt: strategy})
        orig = dict(start)
        snap = Snapshot([start, oh, kw])
        out = call(c, oh, start, **kw)
        r = no_raise(c, out, ["P12"])
        ok = isinstance(r, dict) and set(r) == set(orig)
        c.oblige("returns the same set of options", TRUE if ok else FALSE, tags=["P12"])
        if not ok:
            raise PathEnd()
        for k in orig:
            if k != opt:
                c.oblige("option %s has no strategy and keeps its initial value" % k, (to_num(r[k]) == orig[k]).f, tags=["P12"])
        if strategy == "random":
            end = kw["end_opts"][opt] if given_end else orig[opt] + 1
            us = [to_num(v) for kind, sh, v in c.draws if kind == "unit" and not sh]
            c.oblige("uniformly random value between start and end",
                     for_(*[(r[opt] == orig[opt] + (end - orig[opt]) * u).f for u in us] or [FALSE]), tags=["P12"])
        else:
            end = kw["end_opts"][opt] if given_end else end_default(orig, opt)
            want = schedule(strategy, orig, opt, end, i, itermax, par)
            c.oblige("documented schedule formula", fz(same_z(to_num(r[opt]), to_num(want))), tags=["P12"])
        frame(c, snap, ["P12", "P13"], label="start options are not modified")


for _s in ("exp_decay", "lin_variation", "random", "nonlin_mod"):
    _mk_oh(_s)


@task("options_handler[all]", ["P12", "P13"], [H + "__call__"])
def t_all(c):
    """all options with a strategy at once: each from the initial values, not from already scheduled ones"""
    OH = imp("backend.handlers").OptionsHandler
    start = {k: sym_real(k) for k in ("c1", "c2", "w")}
    itermax = sym_int("itermax", 1)
    i = sym_int("i", 0, itermax)
    strat = {"w": "lin_variation", "c1": "nonlin_mod", "c2": "exp_decay"} if c.choose(2) else {"c1": "lin_variation", "c2": "lin_variation", "w": "exp_decay"}
    oh = OH(strategy=strat)
    orig = dict(start)
    snap = Snapshot([start, oh])
    r = no_raise(c, call(c, oh, start, iternow=i, itermax=itermax), ["P12"])
    for k in orig:
        want = schedule(strat[k], orig, k, end_default(orig, k), i, itermax, {})
        c.oblige("option %s follows its schedule from the initial options" % k, fz(same_z(to_num(r[k]), to_num(want))), tags=["P12"])
    frame(c, snap, ["P12", "P13"], label="start options are not modified")


@task("options_handler[none]", ["P12"], [H + "__call__"])
def t_none(c):
    OH = imp("backend.handlers").OptionsHandler
    start = {k: sym_real(k) for k in ("c1", "c2", "w")}
    oh = OH(strategy=[{}, None][c.choose(2)])
    orig = dict(start)
    snap = Snapshot([start, oh])
    i = sym_int("i", 0)
    r = no_raise(c, call(c, oh, start, iternow=i, itermax=i + 1), ["P12"])
    for k in orig:
        c.oblige("option %s without a strategy is unchanged" % k, (to_num(r[k]) == orig[k]).f, tags=["P12"])
    frame(c, snap, ["P12", "P13"], label="start options are not modified")


@task("options_handler[unknown]", ["P12"], [H + "__call__"])
def t_unknown(c):
    OH = imp("backend.handlers").OptionsHandler
    start = {k: sym_real(k) for k in ("c1", "c2", "w")}
    oh = OH(strategy={("c1", "c2", "w")[c.choose(3)]: "no_such_strategy"})
    must_raise(c, call(c, oh, start, iternow=0, itermax=10), ("KeyError",), ["P12"], "an unknown strategy raises KeyError")
