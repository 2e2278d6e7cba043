"""Contracts of the benchmark functions (P17, P18) and of the cost decorator (P16)"""
import math
from .base import *
from pyvc.npshim import n_exp, n_sqrt, _trig, sum_term

Q_ = "pyswarms.utils.functions.single_obj."
INF_ = float("inf")
# name: (bounds, two-dimensional only)
DOMAIN = {
    "ackley": ((-32, 32), False), "beale": ((-4.5, 4.5), True), "booth": ((-10, 10), True), "bukin6": (((-15, -5), (-3, 3)), True),
    "crossintray": ((-10, 10), True), "easom": ((-100, 100), True), "eggholder": ((-512, 512), True), "goldstein": ((-2, 2), True),
    "himmelblau": ((-5, 5), True), "holdertable": ((-10, 10), True), "levi": ((-10, 10), True), "matyas": ((-10, 10), True),
    "rastrigin": ((-5.12, 5.12), False), "rosenbrock": (None, False), "schaffer2": ((-100, 100), True), "sphere": (None, False),
    "threehump": ((-5, 5), True)}
_sin, _cos = _trig("sin"), _trig("cos")
S, C, E, R, A = _sin, _cos, n_exp, n_sqrt, num_abs
PI = math.pi


def formula(name, v, d):
    """published formula; v(j): coordinate j"""
    x = v(0) if DOMAIN[name][1] else None
    y = v(1) if DOMAIN[name][1] else None
    dn = to_num(size_num(d))
    tot = lambda f, m=None: sum_term([norm_size(d if m is None else m)], f)
    if name == "ackley":
        return -20 * E(-0.2 * R((1 / dn) * tot(lambda j: v(j) * v(j)))) - E((1 / dn) * tot(lambda j: C(2 * PI * v(j)))) + 20 + math.e
    if name == "beale":
        return (1.5 - x + x * y) ** 2 + (2.25 - x + x * y * y) ** 2 + (2.625 - x + x * y * y * y) ** 2
    if name == "booth":
        return (x + 2 * y - 7) ** 2 + (2 * x + y - 5) ** 2
    if name == "bukin6":
        return 100 * R(A(y - 0.01 * (x * x))) + 0.01 * A(x + 10)
    if name == "crossintray":
        return -0.0001 * (A(S(x) * S(y) * E(A(100 - R(x * x + y * y) / PI))) + 1) ** 0.1
    if name == "easom":
        return -(C(x) * C(y) * E(-((x - PI) * (x - PI) + (y - PI) * (y - PI))))
    if name == "eggholder":
        return -(y + 47) * S(R(A(x / 2 + y + 47))) - x * S(R(A(x - (y + 47))))
    if name == "goldstein":
        return ((1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y))
                * (30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)))
    if name == "himmelblau":
        return (x * x + y - 11) ** 2 + (x + y * y - 7) ** 2
    if name == "holdertable":
        return -A(S(x) * C(y) * E(A(1 - R(x * x + y * y) / PI)))
    if name == "levi":
        w1, w2 = 1 + (x - 1) / 4, 1 + (y - 1) / 4
        return S(PI * w1) ** 2 + (x - 1) ** 2 * (1 + 10 * S(PI * w1 + 1) ** 2) + (w2 - 1) ** 2 * (1 + S(2 * PI * w2) ** 2)
    if name == "matyas":
        return 0.26 * (x * x + y * y) - 0.48 * x * y
    if name == "rastrigin":
        return 10 * dn + tot(lambda j: v(j) * v(j) - 10 * C(2 * PI * v(j)))
    if name == "rosenbrock":
        return tot(lambda j: 100 * (v(j + 1) - v(j) * v(j)) ** 2 + (1 - v(j)) ** 2, dn - 1)
    if name == "schaffer2":
        return 0.5 + (S(x * x - y * y) ** 2 - 0.5) / ((1 + 0.001 * (x * x + y * y)) ** 2)
    if name == "sphere":
        return tot(lambda j: v(j) * v(j))
    if name == "threehump":
        return 2 * (x * x) - 1.05 * (x * x * x * x) + (x * x * x * x * x * x) / 6 + x * y + y * y
    raise KeyError(name)


def in_domain(name, x, n, d):
    """every coordinate of every particle lies in the documented domain"""
    b = DOMAIN[name][0]
    if b is None:
        return TRUE
    if isinstance(b[0], tuple):
        return forall([n], lambda i: fand(*[fand(toF(x.at(i, j) >= b[j][0]), toF(x.at(i, j) <= b[j][1])) for j in (0, 1)]))
    return forall([n, d], lambda i, j: fand(toF(x.at(i, j) >= b[0]), toF(x.at(i, j) <= b[1])))


def _mk_domain(name):
    two = DOMAIN[name][1]

    @task("domain[%s]" % name, ["P17", "P13"], [Q_ + name])
    def t(c):
        f = getattr(imp("utils.functions.single_obj"), name)
        n, d = sym_int("n", 1), sym_int("d", 1)
        x = sym_arr("x", (n, d), kinds=DOMAIN[name][0] is not None)
        x0 = x.copy()
        snap = Snapshot([x])
        kind, r = call(c, f, x)
        inside = in_domain(name, x0, n, d) if not two else None
        if two:
            dz = zint(d)
            b = DOMAIN[name][0]
            inside = in_domain(name, x0, n, d)
        if kind == "raise":
            e = type(r).__name__
            if two and e == "IndexError":
                c.oblige("an IndexError is raised only for another number of columns", fz(zint(d) != 2), ["P17"])
            elif e == "ValueError":
                c.oblige("a ValueError is raised only for coordinates outside the domain", fand(fnot(inside), fz(zint(d) == 2) if two else TRUE), ["P17"])
            else:
                c.oblige("raises nothing but the documented exceptions [%s: %s]" % (e, str(r)[:80]), FALSE, ["P17"], kind="exception")
            frame(c, snap, ["P13"], label="the positions are not modified")
            return
        if two:
            c.oblige("another number of columns is rejected", fz(zint(d) == 2), ["P17"])
        c.oblige("coordinates outside the domain (NaN included) are rejected", inside, ["P17"])
        c.oblige("one cost per particle", fz(zint(size_num(r._shape[0])) == zint(n)) if isinstance(r, Arr) and len(r._shape) == 1 else FALSE, ["P17", "P18"])
        frame(c, snap, ["P13"], label="the positions are not modified")


def _mk_formula(name):
    two = DOMAIN[name][1]

    @task("formula[%s]" % name, ["P18"], [Q_ + name])
    def t(c):
        f = getattr(imp("utils.functions.single_obj"), name)
        n = sym_int("n", 1)
        d = 2 if two else sym_int("d", 1)
        x = sym_arr("x", (n, d))
        x0 = x.copy()
        c.assume(in_domain(name, x0, n, d))
        i = sym_int("i", 0)
        c.assume(toF(i < n))
        iz = zint(i)
        if DOMAIN[name][0] is not None:
            sink().term(key_of(n), iz)
        r = no_raise(c, call(c, f, x), ["P18"], "a swarm inside the domain is evaluated")
        ok = isinstance(r, Arr) and len(r._shape) == 1
        c.oblige("one cost per particle", fz(zint(size_num(r._shape[0])) == zint(n)) if ok else FALSE, ["P18"])
        if not ok:
            return
        got = to_num(r.copy().at(iz))
        want = to_num(formula(name, lambda j: x0.at(iz, zint(j) if not isinstance(j, int) else j), d))
        c.oblige("the cost of a particle is the published formula at its coordinates, whatever the other particles", fz(same_z(got, want)), ["P18"])


for _n in DOMAIN:
    _mk_domain(_n)
    _mk_formula(_n)

# documented minimum, minimizers (exact rational arithmetic), for functions whose minimum is documented as exact
MINIMUM = {"ackley": (0, [[0, 0]]), "beale": (0, [[3, 0.5]]), "booth": (0, [[1, 3]]), "bukin6": (0, []), "easom": (-1, []), "goldstein": (3, [[0, -1]]),
           "himmelblau": (0, [[3, 2]]), "levi": (0, []), "matyas": (0, [[0, 0]]), "rastrigin": (0, [[0, 0]]), "rosenbrock": (0, [[1, 1]]),
           "schaffer2": (0, [[0, 0]]), "sphere": (0, [[0, 0]]), "threehump": (0, [[0, 0]])}


def ax_exp1():
    """trusted numeric fact about Euler's number: 2.7 < exp(1) < 2.71828182845904524"""
    e = ufun("exp", z3.RealVal(1))
    sink().fact(z3.And(e > z3.RealVal("2.7"), e < z3.RealVal("2.71828182845904524")))
    return e


def sum_at_least(c, total, d, body, low):
    """trusted rule of finite sums: d terms, each at least `low`, sum up to at least d * low"""
    c.assume(fimp(forall([d], lambda j: toF(to_num(body(j)) >= low)), toF(total >= low * to_num(size_num(d)))))


def _mk_minimum(name):
    @task("minimum[%s]" % name, ["P18"], [Q_ + name])
    def t(c):
        two = DOMAIN[name][1]
        low, pts = MINIMUM[name]
        d = 2 if two else sym_int("d", 1)
        x = sym_arr("x", (1, d))
        c.assume(in_domain(name, x, 1, d))
        v = lambda j: x.at(0, zint(j) if not isinstance(j, int) else j)
        want = to_num(formula(name, v, d))
        if name == "rastrigin":
            body = lambda j: v(j) * v(j) - 10 * C(2 * PI * v(j))
            sum_at_least(c, sum_term([norm_size(d)], body), d, body, -10)
        if name == "ackley":
            # up to the rounding of the constant e
            low = -1e-15
            body = lambda j: C(2 * PI * v(j))
            tot = sum_term([norm_size(d)], body)
            mean = (1 / to_num(d)) * tot
            sum_at_least(c, -tot, d, lambda j: -body(j), -1)
            lemma(c, "the mean of the cosines is at most 1", toF(mean <= 1), ["P18"])
            e1 = ax_exp1()
            # trusted: exp is monotonic
            sink().fact(z3.Implies(zreal(mean.v) <= 1, zreal(n_exp(mean).v) <= e1))
        if name == "goldstein":
            X, Y = v(0), v(1)
            u, w = X + Y, 2 * X - 3 * Y
            fu, fw = sym_real("u"), sym_real("w")
            pa = lambda u: 1 + (u + 1) * (u + 1) * (3 * u * u - 14 * u + 19)
            pb = lambda w: 30 + w * w * (3 * w * w - 16 * w + 18)
            c.oblige("first factor is at least 1, for every u = x + y", toF(pa(fu) >= 1), ["P18"], hyps=[])
            c.oblige("second factor is at least 3, for every w = 2x - 3y", toF(pb(fw) >= 3), ["P18"], hyps=[])
            a_, b_ = sym_real("a"), sym_real("b")
            c.oblige("the product of factors at least 1 and 3 is at least 3", toF(a_ * b_ >= 3), ["P18"], hyps=[toF(a_ >= 1), toF(b_ >= 3)])
            c.oblige("the formula is the product of the two factors", toF(want == pa(u) * pb(w)), ["P18"], hyps=[])
            return
        c.oblige("no point of the domain is below the documented minimum", toF(want >= low), ["P18"])
        if name in ("sphere", "rosenbrock"):
            at = to_num(0 if name == "sphere" else 1)
            c.oblige("the documented minimizer (%s, ..., %s) attains the documented minimum in every dimension" % (at.v, at.v), toF(to_num(formula(name, lambda j: at, d)) == 0), ["P18"])
        for q in pts:
            if two:
                c.oblige("the documented minimizer %s attains the documented minimum" % (q,), toF(to_num(formula(name, lambda j: to_num(q[j]), 2)) == MINIMUM[name][0]), ["P18"])


for _n in MINIMUM:
    _mk_minimum(_n)
