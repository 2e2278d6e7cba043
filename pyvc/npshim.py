"""Symbolic semantics of the numpy operations that the package uses.

Every public function passes through to real numpy when no argument is symbolic; an operation without a
symbolic meaning raises Unsupported, so a proof can never silently skip code.
"""
import math as _math
import numpy as _np
from . import core as _core0
import z3
from .core import *
from .core import _isfin, _keq, _kz, _kif, _pair
from .arrays import *
from .arrays import _NotArr, _is0, _ixkey

def deep_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(deep_sym(e, depth + 1) for e in x)
    if isinstance(x, dict) and depth < 4:
        return any(deep_sym(e, depth + 1) for e in x.values())
    return False


def _const_val(x):
    """python constants (pi) as Num"""
    return x


# ---------------------------------------------------------------- elementwise
def _num_or(x):
    return x if isinstance(x, (Num, Bool)) else x


def sc_mul(a, b):
    return arith("mul", to_num(a), to_num(b))


def ew(op, *args):
    """elementwise application with broadcasting"""
    arrs = [to_arr(a) for a in args]
    shape = bcast_shapes(*[a._shape for a in arrs])
    projs = [bproj(a._shape, shape) for a in arrs]
    rds = [a.reader() for a in arrs]
    fn, rdt = _EW[op]
    dt = rdt([a.dt for a in arrs])
    snap = rds

    def el(*ix):
        return fn(*[r(*p(ix)) for r, p in zip(snap, projs)])
    if not shape:
        v = el()
        if isinstance(v, Num):
            return Num(v.v, v.k, np=True)
        return v
    return mk(shape, el, dt)


def _dt_arith(ds):
    return "f" if "f" in ds else "i"


def _dt_f(ds):
    return "f"


def _dt_b(ds):
    return "b"


def _f2(op):
    return lambda a, b: arith(op, to_num(a), to_num(b))


def _fdiv(a, b):
    return arith("div", to_num(a), to_num(b))


def _mx(a, b):
    a, b = to_num(a), to_num(b)
    return ite(for_(isnan(a), fand(fnot(isnan(b)), (a >= b).f)), a, b)


def _mn(a, b):
    a, b = to_num(a), to_num(b)
    return ite(for_(isnan(a), fand(fnot(isnan(b)), (a <= b).f)), a, b)


def _and(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        raise Unsupported("bitwise and on numbers")
    return Bool(fand(toF(to_bool(a)), toF(to_bool(b))))


def _or(a, b):
    return Bool(for_(toF(to_bool(a)), toF(to_bool(b))))


def _land(a, b):
    return Bool(fand(toF(to_bool(a)), toF(to_bool(b))))


def _xor(a, b):
    return Bool(fnot(fiff(toF(to_bool(a)), toF(to_bool(b)))))


def _cmp(op):
    def f(a, b):
        if isinstance(a, Bool) and isinstance(b, Bool) and op in ("eq", "ne"):
            r = fiff(a.f, b.f)
            return Bool(r if op == "eq" else fnot(r))
        return cmp_(op, to_num(a), to_num(b))
    return f


def _where(c, a, b):
    return ite(to_bool(c), a, b)


def _dt_where(ds):
    ds = ds[1:]
    return "f" if "f" in ds else ("i" if "i" in ds else "b")


def _mono_f(name, facts):
    """uninterpreted real function with pointwise facts; NaN in, NaN out"""
    def f(a):
        a = to_num(a)
        x = zreal(a.v)
        y = ufun(name, x)
        for q in facts(x, y):
            sink().fact(q)
        return y, a
    return f


def n_exp(a):
    a = to_num(a)
    x = simp(zreal(a.v))
    y = ufun("exp", x)
    s = sink()
    s.fact(y > 0)
    s.fact(z3.Implies(x == 0, y == 1))
    s.fact(z3.Implies(x > 0, y > 1 + x))
    s.fact(z3.Implies(x < 0, y < 1))
    if _isfin(a.k):
        return Num(y)
    ka = _kz(a.k)
    k = z3.If(ka == NINF, z3.IntVal(FIN), ka)
    return Num(z3.If(ka == NINF, z3.RealVal(0), y), k)


def n_sqrt(a):
    a = to_num(a)
    x = simp(zreal(a.v))
    c = const_of(x)
    if c is not None and _isfin(a.k) and c >= 0:
        from math import isqrt
        p, q = c.numerator if isinstance(c, Fraction) else c, c.denominator if isinstance(c, Fraction) else 1
        if isqrt(p) ** 2 == p and isqrt(q) ** 2 == q:
            return Num(Fraction(isqrt(p), isqrt(q)))
    y = ufun("sqrt", x)
    sink().fact(z3.Implies(x >= 0, z3.And(y >= 0, y * y == x)))
    if _isfin(a.k):
        return Num(y, z3.If(x < 0, z3.IntVal(NAN), z3.IntVal(FIN)))
    ka = _kz(a.k)
    return Num(y, z3.If(z3.Or(ka == NINF, z3.And(ka == FIN, x < 0)), z3.IntVal(NAN), ka))


def _trig(name):
    def f(a):
        a = to_num(a)
        x = simp(zreal(a.v))
        y = ufun(name, x)
        s = sink()
        s.fact(z3.And(y >= -1, y <= 1))
        s.fact(z3.Implies(x == 0, y == (1 if name == "cos" else 0)))
        o = ufun("cos" if name == "sin" else "sin", x)
        s.fact(y * y + o * o == 1)
        if _isfin(a.k):
            return Num(y)
        return Num(y, z3.If(_kz(a.k) == FIN, z3.IntVal(FIN), z3.IntVal(NAN)))
    return f


def n_log(a):
    a = to_num(a)
    x = simp(zreal(a.v))
    y = ufun("log", x)
    if not _isfin(a.k):
        raise Unsupported("log of non-finite")
    return Num(y, z3.If(x > 0, z3.IntVal(FIN), z3.If(x == 0, z3.IntVal(NINF), z3.IntVal(NAN))))


def n_floor(a):
    a = to_num(a)
    if not _isfin(a.k):
        raise Unsupported("floor of non-finite")
    return a if a.v.is_int() else Num(z3.ToReal(z3.ToInt(a.v)))


def n_sign(a):
    a = to_num(a)
    if not _isfin(a.k):
        raise Unsupported("sign of non-finite")
    return Num(z3.If(a.v > 0, z3.RealVal(1), z3.If(a.v < 0, z3.RealVal(-1), z3.RealVal(0))))


_EW = {
    "add": (_f2("add"), _dt_arith), "sub": (_f2("sub"), _dt_arith), "mul": (_f2("mul"), _dt_arith),
    "div": (_fdiv, _dt_f), "mod": (_f2("mod"), _dt_arith), "pow": (_f2("pow"), _dt_arith),
    "floordiv": (_f2("floordiv"), _dt_arith),
    "lt": (_cmp("lt"), _dt_b), "le": (_cmp("le"), _dt_b), "gt": (_cmp("gt"), _dt_b), "ge": (_cmp("ge"), _dt_b),
    "eq": (_cmp("eq"), _dt_b), "ne": (_cmp("ne"), _dt_b),
    "and": (_and, _dt_b), "or": (_or, _dt_b), "xor": (_xor, _dt_b), "land": (_land, _dt_b), "lor": (_or, _dt_b),
    "lnot": (lambda a: Bool(fnot(toF(to_bool(a)))), _dt_b),
    "max": (_mx, _dt_arith), "min": (_mn, _dt_arith),
    "where": (_where, _dt_where),
    "abs": (num_abs, lambda d: d[0]), "neg": (lambda a: num_neg(to_num(a)), lambda d: d[0]),
    "exp": (n_exp, _dt_f), "sqrt": (n_sqrt, _dt_f), "sin": (_trig("sin"), _dt_f), "cos": (_trig("cos"), _dt_f),
    "log": (n_log, _dt_f), "floor": (n_floor, _dt_f), "sign": (n_sign, _dt_f),
    "isnan": (lambda a: isnan(a), _dt_b), "isinf": (lambda a: isinf(a), _dt_b),
    "isfinite": (lambda a: isfinite(a), _dt_b),
}


# ---------------------------------------------------------------- reductions
def _norm_axis(a, axis):
    n = a.ndim
    if axis is None:
        return None
    if isinstance(axis, Num):
        axis = int(axis)
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    if not -n <= axis < n:
        raise ValueError("axis out of bounds")
    return axis % n


def _kw(k, allowed=()):
    for n, v in k.items():
        if n in allowed:
            continue
        if v is None or n == "keepdims" and v is False or n == "where" and v is True or n in ("subok", "like", "casting") or n == "order" and v in ("C", "A", "K"):
            continue
        raise Unsupported("keyword %s" % n)


def _no_dom(a):
    if any(isinstance(s, DomAx) for s in a._shape):
        raise Unsupported("reduction over a masked selection")


def _split_axes(a, axis):
    """(reduced sizes, kept sizes, compose(kept_ix, red_ix))"""
    if axis is None:
        return list(a._shape), [], lambda kx, rx: tuple(rx)
    red = [a._shape[axis]]
    kept = [s for j, s in enumerate(a._shape) if j != axis]
    return red, kept, lambda kx, rx: tuple(kx[:axis]) + tuple(rx) + tuple(kx[axis:])


def reg_all(ix, sizes):
    for i, s in zip(ix, sizes):
        reg(i, s)


def small_const(red, limit=6):
    n = 1
    for s in red:
        if not isinstance(s, int):
            return None
        n *= s
    return n if n <= limit else None


def all_ix(red):
    import itertools
    return [tuple(z3.IntVal(i) for i in t) for t in itertools.product(*[range(s) for s in red])]


def r_all(a, axis=None, **k):
    _kw(k)
    a = to_arr(a)
    axis = _norm_axis(a, axis)
    red, kept, comp = _split_axes(a, axis)
    rd = a.reader()

    def el(*kx):
        rr, guard = flat_dom(red)
        if small_const(rr) is not None and guard is None:
            return Bool(fand(*[toF(to_bool(rd(*comp(kx, rx)))) for rx in all_ix(rr)]))

        def body(*rx):
            reg_all(rx, rr)
            f, g = (toF(to_bool(rd(*comp(kx, unflat(red, rx))))), guard and guard(rx))
            return f if guard is None else fimp(g, f)
        return Bool(forall(rr, body))
    return el() if not kept else mk(kept, el, "b")


def flat_dom(red):
    """expand mask domains among reduced axes into plain axes with a guard"""
    if not any(isinstance(s, DomAx) for s in red):
        return red, None
    rr = []
    for s in red:
        rr.extend(s.sizes if isinstance(s, DomAx) else [s])

    def guard(rx):
        t = unflat(red, rx)
        return fand(*[toF(s.mask(*i)) for s, i in zip(red, t) if isinstance(s, DomAx)])
    return rr, guard


def unflat(red, rx):
    out, p = [], 0
    for s in red:
        if isinstance(s, DomAx):
            out.append(tuple(rx[p:p + len(s.sizes)]))
            p += len(s.sizes)
        else:
            out.append(rx[p])
            p += 1
    return tuple(out)


def r_any(a, axis=None, **k):
    r = r_all(ew("lnot", a), axis, **k)
    return ~r


def _argext(a, axis, want_max=False, skipnan=False):
    """closure kept_ix -> tuple of witness indices (first extreme, numpy NaN rule)"""
    key = ("argmax" if want_max else "argmin", axis, skipnan, a.buf.version, tuple(map(str, a.axes)) if a.axes else None)
    cache = a.buf.__dict__.setdefault("_red", {})
    if key in cache and cache[key][1] is a.buf.fn and cache[key][2] == scope_key():
        return cache[key][0]
    red, kept, comp = _split_axes(a, axis)
    for s in red:
        if isinstance(s, int):
            if s == 0:
                raise ValueError("attempt to get argmin of an empty sequence")
        elif not bool_checked(Bool(zint(s) > 0)):
            raise ValueError("attempt to get argmin of an empty sequence")
    rd = a.reader()
    ws = [fresh_fun("arg", len(kept), "i") for _ in red]

    def less(x, y):
        return (x > y) if want_max else (x < y)

    def wit(*kx):
        s = sink()
        w = tuple(f(*kx) for f in ws)
        for x, z in zip(w, red):
            s.fact(in_range(x, 0, z))
            reg(x, z)
        b = to_num(rd(*comp(kx, w)))
        finite = a.dt != "f" or _isfin(b.k)

        def law(*rx):
            v = to_num(rd(*comp(kx, rx)))
            before = lexlt(rx, w)
            # numpy: the first NaN if there is one, otherwise the first extreme
            nb, nv = isnan(b).f, isnan(v).f
            if skipnan:
                return fand(for_(nv, fnot(less(v, b).f)), fnot(nb), fimp(fz(before), for_(nv, less(b, v).f)))
            return fand(fimp(fz(before), fnot(nv)),
                        fimp(fnot(nb), fand(fnot(nv), fnot(less(v, b).f), fimp(fz(before), less(b, v).f))))
        s.qfact(Q([(0, z, key_of(z)) for z in red], law, name="argext"))
        return w
    wit = memo(wit)
    cache[key] = (wit, a.buf.fn, scope_key())
    return wit


def lexlt(a, b):
    return lex_gt(tuple(b), tuple(a))


def bool_checked(b):
    """condition that raises in numpy when false: fork, or a safety obligation in parametric code"""
    c = ST.ctx
    if c is None or c.spec_mode:
        return True
    if c.pure:
        c.oblige("non-empty reduction", b, kind="safety")
        return True
    return bool(b)


def r_argmin(a, axis=None, *, want_max=False, skipnan=False, **k):
    _kw(k)
    a = compact(to_arr(a))
    if not a._shape:
        return Num(0)
    axis = _norm_axis(a, axis)
    wit = _argext(a, axis, want_max, skipnan)
    red, kept, comp = _split_axes(a, axis)
    if len(red) > 1:
        if len([s for s in red if not size_is(s, 1)]) > 1:
            raise Unsupported("flat argmin of a matrix")

    def el(*kx):
        w = wit(*kx)
        if len(w) == 1:
            return Num(w[0])
        big = [x for x, s in zip(w, red) if not size_is(s, 1)]
        return Num(big[0]) if big else Num(0)
    if not kept:
        r = el()
        r.np = True
        return r
    r = mk(kept, el, "i")
    r.nonneg = True
    return r


def r_argmax(a, axis=None, **k):
    return r_argmin(a, axis, want_max=True, **k)


def r_min(a, axis=None, *, want_max=False, skipnan=False, initial=None, **k):
    _kw(k)
    if initial is not None:
        raise Unsupported("initial")
    a = compact(to_arr(a))
    if not a._shape:
        return a.reader()()
    axis = _norm_axis(a, axis)
    red, kept, comp = _split_axes(a, axis)
    wit = _argext(a, axis, want_max, skipnan)
    rd = a.reader()

    def el(*kx):
        return rd(*comp(kx, wit(*kx)))
    if not kept:
        v = to_num(el())
        return Num(v.v, v.k, np=True)
    return mk(kept, el, a.dt)


def r_max(a, axis=None, **k):
    return r_min(a, axis, want_max=True, **k)


class SumRec:
    __slots__ = ("sizes", "body", "num", "n")


def sum_records():
    c = ST.ctx
    if c is None:
        return _glob_sums
    return c.ghost.setdefault("sums", [])


_glob_sums = []


def sum_term(sizes, body, tag="sum"):
    """value of the sum of body over the index box; extended real, axiomatised by extensionality"""
    n = small_const(sizes, 4)
    if n is not None:
        r = Num(0)
        for ix in all_ix(sizes):
            r = arith("add", r, to_num(body(*ix)))
        return r
    v, k = fresh_real(tag), fresh_int(tag + "k")
    s = sink()
    rec = SumRec()
    rec.sizes, rec.body = list(sizes), body
    # probe finiteness syntactically
    probe = [fresh_int("sx") for _ in sizes]
    with capture() as cs:
        pv = to_num(body(*probe))
    fin = _isfin(pv.k)
    num = Num(v) if fin else Num(v, k)
    rec.num = num
    if not fin:
        s.fact(z3.And(k >= 0, k <= 3))
        s.fact(GR.ground(for_(fz(k == FIN), exists(sizes, lambda *ix: fnot(isfinite(body(*ix)))))))
        s.fact(GR.ground(for_(fz(k == NAN), forall(sizes, lambda *ix: fnot(isnan(body(*ix)))))))
    # bounds: a sum of non-negative terms is non-negative and at least every term
    nonneg = fresh_bool("nn")
    s.fact(GR.ground(fiff(fz(nonneg), forall(sizes, lambda *ix: fand(isfinite(body(*ix)), (to_num(body(*ix)) >= 0).f)))))
    s.qfact(Q([(0, z, key_of(z)) for z in sizes], lambda *ix: fimp(fz(nonneg), fz(z3.And(v >= 0, zreal(to_num(body(*ix)).v) <= v)))))
    s.fact(z3.Implies(nonneg, v >= 0))
    allz = fresh_bool("az")
    s.fact(GR.ground(fiff(fz(allz), forall(sizes, lambda *ix: fz(same_z(to_num(body(*ix)), Num(0)))))))
    s.fact(z3.Implies(allz, z3.And(v == 0, (_kz(num.k) == FIN))))
    # extensionality against the earlier sums of this path
    recs = sum_records()
    for o in list(recs):
        if len(o.sizes) != len(sizes) or not all(size_same(a, b) for a, b in zip(o.sizes, sizes)):
            continue
        if ST.scope:
            continue
        s.fact(z3.Or(same_z(num, o.num), GR.ground(exists(sizes, lambda *ix, o=o: fz(z3.Not(same_z(to_num(body(*ix)), to_num(o.body(*ix)))))))))
    recs.append(rec)
    return num


def r_sum(a, axis=None, **k):
    _kw(k)
    a = to_arr(a)
    if not a._shape:
        return to_num(a.reader()())
    axis = _norm_axis(a, axis)
    red, kept, comp = _split_axes(a, axis)
    rd = a.reader()
    if any(isinstance(s, DomAx) for s in red):
        if len(red) == 1 and a.dt == "b" and not kept:
            raise Unsupported("sum over a masked selection")
        raise Unsupported("sum over a masked selection")

    def el(*kx):
        return sum_term(red, lambda *rx: to_num(rd(*comp(kx, rx))))
    if not kept:
        v = el()
        return Num(v.v, v.k, np=True)
    return mk(kept, el, "f" if a.dt == "f" else "i")


def r_mean(a, axis=None, **k):
    _kw(k)
    a = to_arr(a)
    if not a._shape:
        return to_num(a.reader()())
    ax = _norm_axis(a, axis)
    red, kept, comp = _split_axes(a, ax)
    cnt = Num(1)
    for s in red:
        cnt = arith("mul", cnt, to_num(size_num(s)))
    s = r_sum(a, axis)
    return ew("div", s, cnt)


def r_argsort(a, axis=-1, **k):
    _kw(k, ("axis", "kind"))
    a = to_arr(a)
    axis = _norm_axis(a, -1 if axis is None else axis)
    red, kept, comp = _split_axes(a, axis)
    n = red[0]
    f = fresh_fun("argsort", a.ndim, "i")
    g = fresh_fun("argsort_inv", a.ndim, "i")
    rd = a.reader()

    def el(*ix):
        kx, r = ix[:axis] + ix[axis + 1:], ix[axis]
        s = sink()
        v = f(*ix)
        s.fact(z3.Implies(in_range(r, 0, n), z3.And(in_range(v, 0, n), g(*(kx[:axis] + (v,) + kx[axis:])) == r)))
        w = g(*ix)
        s.fact(z3.Implies(in_range(r, 0, n), z3.And(in_range(w, 0, n), f(*(kx[:axis] + (w,) + kx[axis:])) == r)))
        reg(v, n)
        reg(w, n)

        def sorted_law(t):
            tv = f(*(kx[:axis] + (t,) + kx[axis:]))
            return fz(z3.Implies(z3.And(r < t), z3.Not(lt_z(to_num(rd(*(kx[:axis] + (tv,) + kx[axis:]))),
                                                           to_num(rd(*(kx[:axis] + (v,) + kx[axis:])))))))
        s.qfact(Q([(0, n, key_of(n))], sorted_law))
        return Num(v)
    r = mk(a._shape, el, "i")
    r.nonneg = True
    return r


# ------------------------------------------------------------- shape changes
def _nshape(sh):
    if isinstance(sh, (tuple, list)):
        return tuple(norm_size(s) for s in sh)
    return (norm_size(sh),)


def reshape(a, sh):
    a = to_arr(a)
    sh = _nshape(sh)
    if len(sh) == len(a._shape) and all(not (isinstance(x, int) and x == -1) for x in sh) and \
            all(size_same(x, y) for x, y in zip(sh, a._shape)):
        return Arr(a.buf, a._shape, a.axes)
    old = [s for s in a._shape if not size_is(s, 1)]
    if any(isinstance(s, DomAx) for s in a._shape):
        if len(a._shape) == 1 and sh == (-1,):
            return a.copy()
        raise Unsupported("reshape of a masked selection")
    neg = [j for j, s in enumerate(sh) if isinstance(s, int) and s == -1]
    new = [s for s in sh if not (isinstance(s, int) and s in (1, -1))]
    if neg:
        # which old axes remain for the -1 axis
        rest = list(old)
        k = neg[0]
        before = [s for s in sh[:k] if not size_is(s, 1)]
        after = [s for s in sh[k + 1:] if not size_is(s, 1)]
        for s in before:
            if not rest or not size_eq(rest[0], s):
                raise Unsupported("reshape")
            rest.pop(0)
        for s in reversed(after):
            if not rest or not size_eq(rest[-1], s):
                raise Unsupported("reshape")
            rest.pop()
        if len(rest) == 0:
            sh = sh[:k] + (1,) + sh[k + 1:]
        elif len(rest) == 1:
            sh = sh[:k] + (rest[0],) + sh[k + 1:]
        else:
            return _merge_axes(a, sh, k, rest)
    new = [s for s in sh if not size_is(s, 1)]
    if len(new) == len(old) and all(size_eq(x, y) for x, y in zip(old, new)):
        # only unit axes move: still a view
        items = []
        cur = a.axes or [("a", k, 0, 1) for k in range(a.ndim)]
        src = [j for j, s in enumerate(a._shape) if not size_is(s, 1)]
        dst = [j for j, s in enumerate(sh) if not size_is(s, 1)]
        mp = dict(zip(src, dst))
        ax = []
        for c in cur:
            if c[0] == "f":
                ax.append(c)
            elif c[1] in mp:
                ax.append(("a", mp[c[1]], c[2], c[3]))
            else:
                ax.append(("f", zint(c[2]) if not _is0(c[2]) else z3.IntVal(0)))
        return Arr(a.buf, sh, ax)
    return _split_merge(a, sh, old, new)


class FlatAx:
    """provenance of a merged axis: row-major pair (outer, inner)"""


def _merge_axes(a, sh, k, rest):
    if len(rest) != 2 or len([s for s in a._shape if not size_is(s, 1)]) != 2:
        raise Unsupported("reshape merging more than two axes")
    r, c = rest
    prod = norm_size(to_num(size_num(r)) * to_num(size_num(c))) if not (isinstance(r, int) and isinstance(c, int)) else r * c
    src = [j for j, s in enumerate(a._shape) if not size_is(s, 1)]
    rd = a.reader()
    shape = sh[:k] + (prod,) + sh[k + 1:]
    key = (str(zint(r)), str(zint(c)))

    def el(*ix):
        i, j = divmod_ix(ix[k], r, c)
        full = [z3.IntVal(0)] * a.ndim
        full[src[0]], full[src[1]] = i, j
        return rd(*full)
    out = mk(shape, el, a.dt)
    FLAT[prod_key(prod)] = (r, c)
    return out


FLAT = {}


def prod_key(p):
    return str(simp(zint(p)))


def divmod_ix(t, r, c):
    """row and column of flat index t in an r x c grid; flat(i, j) terms are recognised"""
    t_ = simp(t)
    if z3.is_app(t_) and t_.decl().name().startswith("flat!"):
        return t_.arg(0), t_.arg(1)
    q = z3.Function("flatq!%s" % key_of(c), z3.IntSort(), z3.IntSort())(t)
    m = z3.Function("flatm!%s" % key_of(c), z3.IntSort(), z3.IntSort())(t)
    s = sink()
    rz, cz = zint(r), zint(c)
    s.fact(z3.Implies(z3.And(t >= 0, t < rz * cz), z3.And(q >= 0, q < rz, m >= 0, m < cz, t == flat_ix(q, m, r, c))))
    reg(q, r)
    reg(m, c)
    return q, m


def flat_ix(i, j, r, c):
    f = z3.Function("flat!%s" % key_of(c), z3.IntSort(), z3.IntSort(), z3.IntSort())
    t = f(i, j)
    s = sink()
    rz, cz = zint(r), zint(c)
    q = z3.Function("flatq!%s" % key_of(c), z3.IntSort(), z3.IntSort())(t)
    m = z3.Function("flatm!%s" % key_of(c), z3.IntSort(), z3.IntSort())(t)
    s.fact(z3.Implies(z3.And(i >= 0, i < rz, j >= 0, j < cz), z3.And(t >= 0, t < rz * cz, q == i, m == j)))
    return t


def _split_merge(a, sh, old, new):
    # (r*c,) -> (r, c)
    if len(old) == 1 and len(new) == 2 and len(a._shape) == 1:
        r, c = new
        p = old[0]
        if isinstance(p, int) and isinstance(r, int) and isinstance(c, int):
            if p != r * c:
                raise ValueError("cannot reshape array")
            rd = a.reader()
            dst = [j for j, s in enumerate(sh) if not size_is(s, 1)]
            return mk(sh, lambda *ix: rd(simp(ix[dst[0]] * c + ix[dst[1]])), a.dt)
        rc = FLAT.get(prod_key(p))
        if rc is not None and size_eq(rc[0], r) and size_eq(rc[1], c):
            rd = a.reader()
            dst = [j for j, s in enumerate(sh) if not size_is(s, 1)]

            def el(*ix):
                t = flat_ix(ix[dst[0]], ix[dst[1]], r, c)
                reg(t, p)
                return rd(t)
            return mk(sh, el, a.dt)
    if len(old) == 2 and len(new) == 1:
        k = [j for j, s in enumerate(sh) if not size_is(s, 1)][0]
        return _merge_axes(a, sh[:k] + (-1,) + sh[k + 1:], k, old)
    raise Unsupported("reshape")


def repeat(a, n, axis=None):
    a = to_arr(a)
    if axis is None:
        if not a._shape:
            a = Arr(a.buf, (1,), [])if False else mk((1,), (lambda r: (lambda i: r()))(a.reader()), a.dt)
            axis = 0
        elif len(a._shape) == 1:
            axis = 0
        else:
            raise Unsupported("flat repeat")
    axis = _norm_axis(a, axis)
    n = norm_size(n) if not isinstance(n, Arr) else _unsup("repeat counts")
    if size_is(a._shape[axis], 1):
        rd = a.reader()
        sh = a._shape[:axis] + (n,) + a._shape[axis + 1:]
        return mk(sh, lambda *ix: rd(*(ix[:axis] + (z3.IntVal(0),) + ix[axis + 1:])), a.dt)
    raise Unsupported("repeat of a non-unit axis")


def _unsup(msg):
    raise Unsupported(msg)


def tile(a, reps):
    a = to_arr(a)
    reps = _nshape(reps)
    nd = max(len(reps), len(a._shape))
    sh = (1,) * (nd - len(a._shape)) + tuple(a._shape)
    reps = (1,) * (nd - len(reps)) + reps
    out = []
    for s, r in zip(sh, reps):
        if size_is(r, 1):
            out.append(s)
        elif size_is(s, 1):
            out.append(r)
        else:
            raise Unsupported("tile of a non-unit axis")
    off = nd - len(a._shape)
    rd = a.reader()
    osh = a._shape

    def el(*ix):
        return rd(*[z3.IntVal(0) if size_is(s, 1) else i for s, i in zip(osh, ix[off:])])
    return mk(out, el, a.dt)


def concatenate(xs, axis=0, **k):
    from .seqs import SSeq
    _kw(k)
    if isinstance(xs, SSeq):
        if getattr(xs, "split_of", None) is not None and axis == 0:
            return xs.concat()
        raise Unsupported("concatenate of a symbolic sequence")
    arrs = [to_arr(x) for x in xs]
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    for b in arrs[1:]:
        if b.ndim != nd:
            raise ValueError("all the input arrays must have same number of dimensions")
        for j in range(nd):
            if j != axis and not size_eq(b._shape[j], arrs[0]._shape[j]):
                raise ValueError("all the input array dimensions must match")
    if len(arrs) == 1:
        return arrs[0].copy()
    offs, tot = [], 0
    for b in arrs:
        offs.append(tot)
        s = b._shape[axis]
        if isinstance(s, DomAx):
            raise Unsupported("concatenate of masked selections")
        tot = tot + s if isinstance(tot, int) and isinstance(s, int) else norm_size(to_num(size_num(tot) if not isinstance(tot, int) else tot) + to_num(size_num(s)))
    dts = [b.dt for b in arrs]
    dt = "f" if "f" in dts else ("i" if "i" in dts else "b")
    rds = [b.reader() for b in arrs]
    sh = arrs[0]._shape[:axis] + (tot,) + arrs[0]._shape[axis + 1:]

    def el(*ix):
        t = ix[axis]
        c = const_of(simp(t))
        r = None
        for j in range(len(arrs) - 1, -1, -1):
            o = zint(offs[j])
            loc = simp(t - o)
            v = conv(rds[j](*(ix[:axis] + (loc,) + ix[axis + 1:])), dt)
            if r is None:
                r = v
            else:
                r = ite(Bool(simp(t < zint(offs[j + 1]))), v, r)
        return r
    return mk(sh, el, dt)


def vstack(xs, **k):
    xs = [to_arr(x) for x in xs]
    xs = [reshape2(x) if x.ndim == 1 else (mk((1, 1), (lambda r: lambda i, j: r())(x.reader()), x.dt) if x.ndim == 0 else x) for x in xs]
    return concatenate(xs, 0)


def reshape2(x):
    return x[None, :]


def hstack(xs, **k):
    xs = [to_arr(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(xs, **k):
    xs = [to_arr(x) for x in xs]
    return concatenate([x[:, None] if x.ndim == 1 else x for x in xs], 1)


def dstack(xs, **k):
    xs = [to_arr(x) for x in xs]
    xs = [x if x.ndim >= 3 else (x[:, :, None] if x.ndim == 2 else x[None, :, None]) for x in xs]
    return concatenate(xs, 2)


def stack(xs, axis=0, **k):
    from .seqs import SSeq
    if isinstance(xs, SSeq):
        if axis == 0:
            return xs.to_arr()
        raise Unsupported("stack")
    r = stack_list(list(xs))
    if axis == 0:
        return r
    axis = axis % r.ndim
    perm = list(range(1, r.ndim))
    perm.insert(axis, 0)
    return r.transpose(*perm).copy()


def take(a, idx, axis=None, **k):
    _kw(k)
    a = to_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flat take")
        return a[idx]
    axis = _norm_axis(a, axis)
    return a[tuple([slice(None)] * axis + [idx])]


def take_along_axis(a, idx, axis, **k):
    a, idx = to_arr(a), to_arr(idx)
    axis = _norm_axis(a, axis)
    rd, ri = a.reader(), idx.reader()
    c = ST.ctx
    sizes = a._shape
    if c is not None and not c.spec_mode:
        c.oblige("index array within bounds", forall(idx._shape, lambda *ix: fz(z3.And(zint(ri(*ix)) >= -zint(sizes[axis]), zint(ri(*ix)) < zint(sizes[axis])))), kind="safety")

    def el(*ix):
        t = zint(ri(*ix))
        t = t if getattr(idx, "nonneg", False) else z3.If(t < 0, t + zint(sizes[axis]), t)
        reg(t, sizes[axis])
        full = list(ix)
        for j, s in enumerate(sizes):
            if j != axis and size_is(s, 1):
                full[j] = z3.IntVal(0)
        full[axis] = t
        return rd(*full)
    sh = [s if j == axis or not size_is(s, 1) else a._shape[j] for j, s in enumerate(idx._shape)]
    return mk(sh, el, a.dt)


def clip(a, lo=None, hi=None, **k):
    _kw(k)
    r = to_arr(a)
    if lo is not None:
        r = ew("max", r, lo)
    if hi is not None:
        r = ew("min", r, hi)
    return r if is_sym(r) else r


def where(c, *ab):
    if not ab:
        return nonzero(to_arr(c))
    r = ew("where", c, *ab)
    return r


# ----------------------------------------------------------------- creation
def full(shape, val, dtype=None, **k):
    if dtype is None:
        a = to_arr(val)
        dt = a.dt
    else:
        dt = dtype_code(dtype)
    sh = _nshape(shape)
    v = to_arr(val)
    pr = bcast_to(v, sh)
    rd = v.reader()
    return mk(sh, lambda *ix: conv(rd(*pr(ix)), dt), dt)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if k.get("order") is not None or k.get("subok"):
        k.pop("order", None)
    a = to_arr(x)
    r = a.copy()
    nz = getattr(a, "nonneg", None)
    if dtype is not None:
        r = r.astype(dtype)
    if nz:
        r.nonneg = nz
    return r


def arange(*a, dtype=None, **k):
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    isint = all(isinstance(x, int) or isinstance(x, Num) and x.is_int for x in (start, stop, step))
    if isint and isinstance(step, int) and step == 1:
        n = norm_size(to_num(stop) - to_num(start))
        if not isinstance(n, int):
            c = ST.ctx
            if c is not None and not c.pure and c._feasible(zint(n) < 0):
                if not bool(Bool(zint(n) >= 0)):
                    n = 0
        elif n < 0:
            n = 0
        s0 = to_num(start)
        dt = "i" if dtype is None else dtype_code(dtype)
        r = mk((n,), lambda i: conv(Num(i) + s0 if not (isinstance(start, int) and start == 0) else Num(i), dt), dt)
        if isinstance(start, int) and start >= 0:
            r.nonneg = True
            r.ident = start == 0
        return r
    # real steps: ceil((stop-start)/step) points
    lo, hi, st = to_num(start), to_num(stop), to_num(step)
    n = fresh_int("ar")
    s = sink()
    q = (zreal(hi.v) - zreal(lo.v))
    sv = zreal(st.v)
    if not bool(Bool(sv > 0)):
        raise Unsupported("arange with non-positive step")
    s.fact(z3.And(n >= 0, z3.Implies(q <= 0, n == 0)))
    s.fact(z3.Implies(q > 0, z3.And(zreal(n) * sv >= q, (zreal(n) - 1) * sv < q, n >= 1)))
    s.term(key_of(n), n - 1)
    return mk((Num(n),), lambda i: Num(zreal(lo.v) + zreal(i) * sv), "f")


def identity(n, dtype=None, **k):
    dt = "f" if dtype is None else dtype_code(dtype)
    n = norm_size(n)
    return mk((n, n), lambda i, j: conv(ite(Bool(i == j), Num(1), Num(0)), dt), dt)


def meshgrid(x, y, indexing="xy", **k):
    x, y = to_arr(x), to_arr(y)
    rx, ry = x.reader(), y.reader()
    if indexing == "xy":
        sh = (y._shape[0], x._shape[0])
        return [mk(sh, lambda i, j: rx(j), x.dt), mk(sh, lambda i, j: ry(i), y.dt)]
    sh = (x._shape[0], y._shape[0])
    return [mk(sh, lambda i, j: rx(i), x.dt), mk(sh, lambda i, j: ry(j), y.dt)]


def setdiff1d(a, b, assume_unique=False, **k):
    a, b = to_arr(a), to_arr(b)
    if not getattr(a, "ident", False):
        raise Unsupported("setdiff1d")
    n = a._shape[0]
    m = b._shape
    if len(m) == 0 or size_is(m[0], 1):
        rb = b.reader()
        x = zint(rb(*[z3.IntVal(0)] * len(m)))
        # arange(n) without x, for 0 <= x < n: n-1 elements, skipping x
        c = ST.ctx
        ok = Bool(in_range(x, 0, n))
        if c is not None and not c.pure:
            if not bool(ok):
                raise Unsupported("setdiff1d of an absent element")
        elif c is not None:
            c.oblige("setdiff1d element in range", ok, kind="safety")
        sz = norm_size(to_num(size_num(n)) - 1)
        r = mk((sz,), lambda i: Num(z3.If(i < x, i, i + 1)), "i")
        r.nonneg = True
        r.diff_of = (n, x)
        return r
    raise Unsupported("setdiff1d")


def unique(a, **k):
    """sorted distinct values; only the number of them is modelled"""
    _kw(k)
    a = to_arr(a)
    _no_dom(a)
    rd = a.reader()
    n = fresh_int("nuniq")
    f = fresh_fun("uniq", 1, "r")
    s = sink()
    s.fact(n >= 0)
    key = key_of(n)
    w = [fresh_fun("uw", 1, "i") for _ in a._shape]

    def el(i):
        t = f(i)
        p = tuple(x(i) for x in w)
        k_ = sink()
        k_.fact(z3.Implies(in_range(i, 0, n), z3.And(*([in_range(x, 0, z) for x, z in zip(p, a._shape)] +
                                                      [zreal(to_num(rd(*p)).v) == t]))))
        for x, z in zip(p, a._shape):
            reg(x, z)

        def inj(j):
            return fz(z3.Implies(i < j, f(i) < f(j)))
        k_.qfact(Q([(0, n, key)], inj))
        return Num(t)
    # every element occurs
    idx = fresh_fun("uidx", len(a._shape), "i")

    def cover(*ix):
        t = idx(*ix)
        sink().term(key, t)
        return fz(z3.And(in_range(t, 0, n), f(t) == zreal(to_num(rd(*ix)).v)))
    s.qfact(Q([(0, z, key_of(z)) for z in a._shape], cover))
    r = mk((Num(n),), el, "f")
    for j in range(3):
        s.term(key, z3.IntVal(j))
        with capture() as cs:
            v = r.reader()(z3.IntVal(j))
        replay(cs)
    return r


def array_split(a, n, axis=0):
    from .seqs import SplitSeq
    a = to_arr(a)
    if axis != 0:
        raise Unsupported("array_split axis")
    return SplitSeq(a, n)


def copyto(dst, src, where=True, **k):
    if where is True:
        dst._assign(src)
    else:
        dst._assign(ew("where", where, src, dst.copy()))


def fill_diagonal(a, v, **k):
    old = a.reader()
    vv = to_num(v)
    dt = a.dt
    if a.axes is not None:
        raise Unsupported("fill_diagonal on a view")
    a.buf.write(memo(lambda i, j: ite(Bool(i == j), conv(vv, dt), old(i, j))))


# ------------------------------------------------------------------- random
def draw(shape, kind, lo=None, hi=None):
    """a fresh random array; recorded so that specifications can refer to the draw"""
    c = ST.ctx
    sh = _nshape(shape) if shape is not None else ()
    f = fresh_fun("rnd", len(sh), "i" if kind == "int" else "r")

    def el(*ix):
        v = f(*ix)
        if kind == "unit":
            sink().fact(z3.And(v >= 0, v < 1))
        elif kind == "int":
            sink().fact(z3.And(v >= zint(lo), v < zint(hi)))
        return Num(v)
    if c is not None:
        if c.pure and not ST.scope:
            raise Unsupported("random draw in a pure context")
    if not sh:
        v = el()
        rec = (kind, (), v)
        if c is not None:
            c.draws.append(rec)
        return Num(v.v, v.k, np=True)
    r = mk(sh, el, "i" if kind == "int" else "f")
    if kind == "int":
        r.nonneg = True
    if c is not None:
        snap = r.copy()
        c.draws.append((kind, sh, snap))
    return r


class _Random:
    def random_sample(self, size=None):
        return draw(size, "unit")
    random = ranf = sample = random_sample

    def rand(self, *sh):
        return draw(tuple(sh) if sh else None, "unit")

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = to_arr(low), to_arr(high)
        if size is None:
            sh = bcast_shapes(lo._shape, hi._shape)
        else:
            sh = _nshape(size)
            full_sh = bcast_shapes(lo._shape, hi._shape, sh)
            if len(full_sh) != len(sh) or not all(size_eq(a, b) for a, b in zip(full_sh, sh)):
                raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
        u = draw(sh if sh else None, "unit")
        unit = lambda a, c: a.ndim == 0 and const_of(to_num(a.reader()()).v) == c
        if unit(lo, 0) and unit(hi, 1):
            return u
        return ew("add", lo, ew("mul", ew("sub", hi, lo), u))

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if isinstance(low, Arr) or isinstance(high, Arr):
            raise Unsupported("randint with arrays")
        if not bool_checked(to_num(low) < to_num(high)):
            raise ValueError("low >= high")
        return draw(size, "int", low, high)

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise Unsupported("choice with p")
        arr = to_arr(a) if not (isinstance(a, int) or isinstance(a, Num)) else arange(a)
        n = arr._shape[0]
        if size is None:
            i = draw(None, "int", 0, size_num(n))
            return arr[i]
        k = norm_size(size)
        if not replace:
            if not bool_checked(to_num(size_num(k)) <= to_num(size_num(n))):
                raise ValueError("Cannot take a larger sample than population when replace is False")
        g = fresh_fun("choice", 1, "i")
        rd = arr.reader()

        def el(t):
            v = g(t)
            s = sink()
            s.fact(z3.Implies(in_range(t, 0, k), in_range(v, 0, n)))
            reg(v, n)
            if not replace:
                s.qfact(Q([(0, k, key_of(k))], lambda u: fz(z3.Implies(z3.And(u != t), g(u) != v))))
            return rd(v)
        r = mk((k,), el, arr.dt)
        r.nonneg = getattr(arr, "nonneg", False)
        r.distinct = not replace
        c = ST.ctx
        if c is not None:
            c.draws.append(("choice", (k,), r.copy()))
        return r

    def permutation(self, n):
        return self.choice(n, n if not isinstance(n, Arr) else size_num(n._shape[0]), replace=False)

    def __getattr__(self, n):
        raise Unsupported("numpy.random.%s" % n)


class _MA:
    """masked arrays: value array and mask (only what single_obj.levi needs)"""

    def array(self, x, mask=None, **k):
        return MArr(to_arr(x), to_arr(mask))

    masked_array = array

    def __getattr__(self, n):
        raise Unsupported("numpy.ma.%s" % n)


class MArr:
    _vc_sym = True
    _vc_arr = True
    __array_ufunc__ = None

    def __init__(self, a, mask):
        self.a, self.mask = a, mask

    def _b(self, o, op, rev=False):
        m = self.mask
        if isinstance(o, MArr):
            m = ew("or", self.mask, o.mask)
            o = o.a
        return MArr(ew(op, o, self.a) if rev else ew(op, self.a, o), m)

    def __add__(self, o): return self._b(o, "add")
    def __radd__(self, o): return self._b(o, "add", True)
    def __sub__(self, o): return self._b(o, "sub")
    def __rsub__(self, o): return self._b(o, "sub", True)
    def __mul__(self, o): return self._b(o, "mul")
    def __rmul__(self, o): return self._b(o, "mul", True)
    def __truediv__(self, o): return self._b(o, "div")
    def __pow__(self, o): return self._b(o, "pow")

    def sum(self, axis=None):
        z = ew("where", self.mask, 0.0, self.a)
        # a sum of only masked entries would be masked; the callers' rows always have an unmasked entry or sum 0
        return r_sum(z, axis)

    def __getattr__(self, n):
        if n.startswith("_vc") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("masked array %s" % n)


class NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Arr, _np.ndarray))


class ndarray(metaclass=NdMeta):
    pass


def _strict(sym):
    """arguments the model of a numpy function does not know are unsupported, never ignored"""
    import inspect
    sig = inspect.signature(sym)
    names = {n for n, q in sig.parameters.items() if q.kind != q.VAR_KEYWORD}

    def h(*a, **k):
        _kw({n: v for n, v in k.items() if n not in names}, ("copy",))
        try:
            sig.bind(*a, **k)
        except TypeError as e:
            raise Unsupported("arguments of a numpy function: %s" % e)
        return sym(*a, **k)
    return h


def _wrap(f, sym):
    sym = _strict(sym)

    def g(*a, **k):
        if ST.ctx is None and not deep_sym(a) and not deep_sym(k):
            return f(*a, **k)
        if not deep_sym(a) and not deep_sym(k):
            return f(*a, **k)
        try:
            return sym(*a, **k)
        except _NotArr:
            raise Unsupported("argument of numpy.%s" % getattr(f, "__name__", "?"))
    g.__name__ = getattr(f, "__name__", "f")
    return g


def _u(op):
    def f(*a, out=None, where=None, dtype=None):
        if where is not None and where is not True:
            raise Unsupported("where=")
        r = ew(op, *a)
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out._assign(r)
            return out
        return r
    return f


def _like(val):
    def f(a, dtype=None, **k):
        a = to_arr(a)
        return full(tuple(size_num(s) for s in a._shape), val, dtype or a.dt)
    return f


def _full_like(a, val, dtype=None, **k):
    a = to_arr(a)
    return full(tuple(size_num(s) for s in a._shape), val, dtype or a.dt)


def _empty(shape, dtype=None, **k):
    return sym_arr("empty", _nshape(shape), dtype_code(dtype))


def _creat(val):
    def f(shape, dtype=None, **k):
        return full(shape, val, dtype or float)
    return f


def _atleast2(a):
    a = to_arr(a)
    return a if a.ndim >= 2 else (a[None, :] if a.ndim == 1 else reshape(a, (1, 1)))


def _atleast1(a):
    a = to_arr(a)
    return a if a.ndim else mk((1,), lambda i: a.reader()(), a.dt)


def _bcast(a, sh):
    a = to_arr(a)
    sh = _nshape(sh)
    p = bcast_to(a, sh)
    rd = a.reader()
    return mk(sh, lambda *ix: rd(*p(ix)), a.dt)


def _expand(a, axis):
    a = to_arr(a)
    axis = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]


def _array_equal(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim != b.ndim or not all(size_eq(x, y) for x, y in zip(a._shape, b._shape)):
        return False
    return r_all(ew("eq", a, b))


def _count_nonzero(a, **k):
    raise Unsupported("count_nonzero")


def _ndim(a):
    return to_arr(a).ndim


def _shape(a):
    return to_arr(a).shape


def _size(a, axis=None):
    a = to_arr(a)
    return a.size if axis is None else a.shape[axis]


def _nan_to_num(a, **k):
    raise Unsupported("nan_to_num")


def _dot(a, b):
    raise Unsupported("dot")


_TABLE = {
    "where": where, "tile": tile, "repeat": repeat, "array": array, "asarray": lambda x, dtype=None, **k: (x if isinstance(x, Arr) and dtype is None else array(x, dtype)),
    "asanyarray": lambda x, dtype=None, **k: (x if isinstance(x, Arr) and dtype is None else array(x, dtype)),
    "full": full, "zeros": _creat(0), "ones": _creat(1), "empty": _empty, "zeros_like": _like(0), "ones_like": _like(1),
    "full_like": _full_like, "empty_like": lambda a, dtype=None, **k: _empty(to_arr(a).shape, dtype or to_arr(a).dt), "arange": arange, "identity": identity, "eye": identity,
    "min": r_min, "amin": r_min, "max": r_max, "amax": r_max, "argmin": r_argmin, "argmax": r_argmax,
    "nanmin": lambda a, axis=None, **k: r_min(a, axis, skipnan=True, **k),
    "nanargmin": lambda a, axis=None, **k: r_argmin(a, axis, skipnan=True, **k),
    "sum": r_sum, "mean": r_mean, "average": r_mean, "all": r_all, "any": r_any, "argsort": r_argsort,
    "concatenate": concatenate, "vstack": vstack, "hstack": hstack, "dstack": dstack, "stack": stack, "column_stack": column_stack,
    "reshape": lambda a, s, **k: reshape(a, s), "ravel": lambda a, order="C", **k: to_arr(a).ravel(order), "transpose": lambda a, axes=None: to_arr(a).transpose(*(axes or ())),
    "take": take, "take_along_axis": take_along_axis, "clip": clip, "nonzero": lambda a: nonzero(to_arr(a)), "meshgrid": meshgrid,
    "setdiff1d": setdiff1d, "unique": unique, "array_split": array_split, "copyto": copyto, "fill_diagonal": fill_diagonal,
    "atleast_2d": _atleast2, "atleast_1d": _atleast1, "broadcast_to": _bcast, "expand_dims": _expand, "copy": lambda a, **k: to_arr(a).copy(),
    "squeeze": lambda a, axis=None: to_arr(a).squeeze(axis), "array_equal": _array_equal, "ndim": _ndim, "shape": _shape, "size": _size,
    "count_nonzero": _count_nonzero, "dot": _dot,
    "isscalar": lambda x: isinstance(x, (Num, Bool)),
}
for _n, _op in [("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "div"), ("true_divide", "div"), ("mod", "mod"),
                ("remainder", "mod"), ("power", "pow"), ("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"),
                ("equal", "eq"), ("not_equal", "ne"), ("logical_and", "land"), ("logical_or", "lor"), ("logical_not", "lnot"),
                ("logical_xor", "xor"), ("bitwise_and", "and"), ("bitwise_or", "or"), ("invert", "lnot"), ("maximum", "max"),
                ("minimum", "min"), ("abs", "abs"), ("absolute", "abs"), ("fabs", "abs"), ("negative", "neg"), ("exp", "exp"),
                ("sqrt", "sqrt"), ("sin", "sin"), ("cos", "cos"), ("log", "log"), ("floor", "floor"), ("sign", "sign"),
                ("isnan", "isnan"), ("isinf", "isinf"), ("isfinite", "isfinite"), ("bitwise_not", "lnot")]:
    _TABLE[_n] = _u(_op)
_TABLE["square"] = lambda a, **k: ew("mul", a, a)

_PASS = {"pi", "inf", "nan", "newaxis", "e", "NINF", "PINF", "float64", "float32", "int64", "int32", "bool_", "intp", "integer", "floating",
         "number", "generic", "errstate", "seterr", "float_", "int_", "dtype", "str_", "printoptions", "set_printoptions", "isclose", "finfo", "iinfo"}


class NumpyShim:
    """stands for the numpy module in the code under verification"""

    def __init__(self):
        self.random = _Random()
        self.ma = _MA()
        self.ndarray = ndarray
        self._cache = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            return getattr(_np, n)
        if n in self._cache:
            return self._cache[n]
        if n in _TABLE:
            r = _wrap(getattr(_np, n), _TABLE[n])
        elif n in _PASS:
            r = getattr(_np, n)
        else:
            real = getattr(_np, n)

            def r(*a, _real=real, _n=n, **k):
                if deep_sym(a) or deep_sym(k):
                    raise Unsupported("numpy.%s" % _n)
                return _real(*a, **k)
            if not callable(real):
                r = real
        self._cache[n] = r
        return r


NP = NumpyShim()
