"""Run-time support of the instrumented code: builtins, library shims, contracts at calls, loops."""
import builtins as _b
import collections as _collections
import copy as _copy
import functools as _functools
import itertools as _itertools
import logging as _logging
import math as _math
import multiprocessing as _mp
import operator as _operator
import sys as _sys
import types
import numpy as _np
from . import core as _core0
import z3
from .core import *
from .core import _isfin
from .arrays import *
from .arrays import _NotArr
from . import npshim
from .npshim import NP, deep_sym, ew
from .seqs import *


class Poison:
    """value of a variable that the loop specification does not describe"""
    _vc_poison = True

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported("loop-carried variable %s is not described by the loop specification" % object.__getattribute__(self, "_n"))

    def __getattr__(self, n):
        if n.startswith("_vc") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self._bad()

    __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = _bad
    __mul__ = __rmul__ = __truediv__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __contains__ = __index__ = _bad
    __float__ = __int__ = __enter__ = __neg__ = __abs__ = __invert__ = __and__ = __or__ = __iadd__ = _bad

    def __hash__(self):
        return id(self)

    def __setattr__(self, n, v):
        self._bad()


# ------------------------------------------------------------------ builtins
class VMeta(type):
    def __instancecheck__(cls, x):
        return cls.check(x)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)

    def __call__(cls, *a, **k):
        return cls.conv(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls.real, n)


class VInt(metaclass=VMeta):
    real = int

    @staticmethod
    def check(x):
        if isinstance(x, Num):
            return x.is_int and not getattr(x, "np", False)
        return _b.isinstance(x, int)

    @staticmethod
    def conv(x=0, *a):
        if isinstance(x, Bool):
            return to_num(x)
        if isinstance(x, Num):
            if x.is_int:
                return Num(x.v, x.k)
            if _isfin(x.k):
                return Num(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v)))
            raise Unsupported("int() of a non-finite number")
        if isinstance(x, Arr):
            return VInt.conv(x.item())
        return int(x, *a)


class VFloat(metaclass=VMeta):
    real = float

    @staticmethod
    def check(x):
        if isinstance(x, Num):
            return not x.is_int
        return _b.isinstance(x, float)

    @staticmethod
    def conv(x=0.0):
        if isinstance(x, Bool):
            x = to_num(x)
        if isinstance(x, Num):
            return Num(zreal(x.v), x.k)
        if isinstance(x, Arr):
            return VFloat.conv(x.item())
        return float(x)


class VBool(metaclass=VMeta):
    real = bool

    @staticmethod
    def check(x):
        return _b.isinstance(x, (bool, Bool))

    @staticmethod
    def conv(x=False):
        if isinstance(x, Bool):
            return x
        if isinstance(x, Num):
            return x != 0
        return bool(x)


class VList(metaclass=VMeta):
    real = list

    @staticmethod
    def check(x):
        return _b.isinstance(x, list) or _b.isinstance(x, (SSeq, SList)) and x.pytype is list

    @staticmethod
    def conv(x=()):
        if _b.isinstance(x, SSeq):
            return SSeq(x.n, x._item) if not isinstance(x, (SProd, SplitSeq, MappedSplit)) else x
        if isinstance(x, Arr):
            if isinstance(x._shape[0], int):
                return list(x)
            snap = x
            return SSeq(x._shape[0], lambda i: seq_item(snap, i))
        if isinstance(x, SList):
            raise Unsupported("copy of a symbolic list")
        return list(x)


class VTuple(metaclass=VMeta):
    real = tuple

    @staticmethod
    def check(x):
        return _b.isinstance(x, tuple) or isinstance(x, SSeq) and x.pytype is tuple

    @staticmethod
    def conv(x=()):
        if isinstance(x, SSeq):
            return SSeq(x.n, x._item, tuple)
        return tuple(x)


class VDict(metaclass=VMeta):
    real = dict

    @staticmethod
    def check(x):
        return _b.isinstance(x, dict)

    @staticmethod
    def conv(*a, **k):
        return dict(*a, **k)


class VSet(metaclass=VMeta):
    real = set

    @staticmethod
    def check(x):
        return _b.isinstance(x, set)

    @staticmethod
    def conv(x=()):
        if is_sym(x):
            raise Unsupported("set of symbolic values")
        return set(x)


def v_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (SSeq, SList)):
            return {list: VList, tuple: VTuple}.get(x.pytype, type(x))
        if isinstance(x, Bool):
            return VBool
        if isinstance(x, AnyNum):
            raise Unsupported("type of a number that may be an integer or not")
        if isinstance(x, Num):
            return VInt if x.is_int else VFloat
        return type(x)
    return type(*a)


def v_isinstance(x, t):
    if _b.isinstance(x, AnyNum):
        import numbers
        ts = t if _b.isinstance(t, tuple) else (t,)
        if VInt in ts and VFloat in ts or numbers.Number in ts or numbers.Real in ts or object in ts:
            return True
        if any(u in (VInt, VFloat, numbers.Integral) or _b.isinstance(u, type) and issubclass(u, _np.generic) for u in ts):
            raise Unsupported("type of a number that may be an integer or not")
    if _b.isinstance(t, tuple):
        return any(v_isinstance(x, u) for u in t)
    if t is Arr or t is npshim.ndarray:
        return _b.isinstance(x, (Arr, _np.ndarray))
    if is_sym(x) and _b.isinstance(t, type) and not _b.isinstance(t, VMeta) and t is not npshim.ndarray:
        if t is object:
            return True
        if isinstance(x, Num) and t in (_np.integer, _np.floating, _np.number, _np.generic, _np.int64, _np.float64):
            if t in (_np.integer, _np.int64):
                return x.is_int and bool(getattr(x, "np", False))
            if t in (_np.floating, _np.float64):
                return not x.is_int
            return bool(getattr(x, "np", False))
        import numbers
        if isinstance(x, Num) and t in (numbers.Number, numbers.Real):
            return True
        if isinstance(x, Num) and t is numbers.Integral:
            return x.is_int
        return _b.isinstance(x, t)
    return _b.isinstance(x, t)


def v_len(x):
    if hasattr(x, "vc_len"):
        n = x.vc_len()
        return n
    return len(x)


def v_range(*a):
    if not any(isinstance(x, (Num, Bool)) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    if len(a) == 3 and isinstance(a[2], int) and a[2] == 1:
        return SRange(a[0], a[1])
    if len(a) == 3 and isinstance(a[2], int) and a[2] == -1:
        n = norm_size(to_num(a[0]) - to_num(a[1]))
        a0 = a[0]
        return SSeq(n, lambda i: to_num(a0) - Num(i))
    raise Unsupported("range with a symbolic step")


def is_symseq(x):
    if isinstance(x, (SSeq, SList)):
        return not isinstance(x.vc_len(), int)
    if isinstance(x, Arr):
        return x.ndim > 0 and not isinstance(x._shape[0], int)
    if isinstance(x, (SDeque,)):
        return True
    return False


def as_seq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, SList):
        return SSeq(norm_size(x.vc_len()), lambda i: x.item(i))
    return SSeq(x._shape[0], lambda i: seq_item(x, i))


def v_enumerate(x, start=0):
    if is_symseq(x):
        s = as_seq(x)
        return SSeq(s.n, lambda i: (Num(i) + start if start != 0 else Num(i), s._item(i)))
    return enumerate(x, start)


def v_zip(*xs, **k):
    if any(is_symseq(x) for x in xs):
        n = None
        for x in xs:
            m = norm_size(seq_len(x))
            if n is None:
                n = m
            elif not size_eq(n, m):
                n = norm_size(smin(size_num(n), size_num(m)))
        ss = list(xs)
        return SSeq(n, lambda i: tuple(seq_item(x, i) for x in ss))
    return zip(*xs, **k)


def v_map(f, *xs):
    if any(is_symseq(x) for x in xs):
        z = as_seq(xs[0]) if len(xs) == 1 else v_zip(*xs)
        if len(xs) == 1:
            return parametric(z.n, lambda i: f(z._item(i)))
        return parametric(z.n, lambda i: f(*z._item(i)))
    return map(f, *xs)


def v_list_iter(x):
    return as_seq(x) if is_symseq(x) else x


def _first_extreme(x, key, want_max):
    """python min/max with key over a symbolic sequence: first extreme element"""
    s = as_seq(x)
    if not npshim.bool_checked(Bool(zint(s.n) > 0)):
        raise ValueError("min() arg is an empty sequence")
    w = fresh_int("ext")
    sk = sink()
    sk.fact(in_range(w, 0, s.n))
    reg(w, s.n)
    kf = key or (lambda e: e)
    best = to_num(kf(s.item(w)))

    def law(i):
        v = to_num(kf(s.item(i)))
        better = (best < v) if want_max else (v < best)
        worse = (v < best) if want_max else (best < v)
        return fand(fnot(better.f), fimp(fz(i < w), for_(worse.f)))
    c = ST.ctx
    # comparisons with NaN are outside of the model of python's min
    if not _isfin(best.k):
        c.oblige("no not-a-number among compared scores", forall([s.n], lambda i: fnot(isnan(kf(s.item(i))).f)), kind="safety")
    sk.qfact(Q([(0, s.n, key_of(s.n))], law))
    return s.item(w)


def v_min(*a, key=None, **k):
    if len(a) == 1:
        if is_symseq(a[0]):
            return _first_extreme(a[0], key, False)
        xs = list(a[0])
    else:
        xs = list(a)
    if not deep_sym(xs):
        return _b.min(*a, key=key, **k) if key is not None else _b.min(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        if key is not None or not isinstance(x, (Num, int, float)) or not isinstance(r, (Num, int, float)):
            kf = key or (lambda e: e)
            r = x if kf(x) < kf(r) else r
        else:
            r = ite(to_num(x) < to_num(r), x, r)
    return r


def v_max(*a, key=None, **k):
    if len(a) == 1:
        if is_symseq(a[0]):
            return _first_extreme(a[0], key, True)
        xs = list(a[0])
    else:
        xs = list(a)
    if not deep_sym(xs):
        return _b.max(*a, key=key, **k) if key is not None else _b.max(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        if key is not None or not isinstance(x, (Num, int, float)) or not isinstance(r, (Num, int, float)):
            kf = key or (lambda e: e)
            r = x if kf(x) > kf(r) else r
        else:
            r = ite(to_num(x) > to_num(r), x, r)
    return r


def v_all(x):
    if isinstance(x, SDeque):
        return x.all_()
    if is_symseq(x):
        s = as_seq(x)
        return Bool(forall([s.n], lambda i: toF(to_b(s.item(i)))))
    if isinstance(x, Arr):
        return npshim.r_all(x) if x.ndim == 1 else _b.all(x)
    if isinstance(x, list) and deep_sym(x):
        return Bool(fand(*[toF(to_b(e)) for e in x]))
    return _b.all(x)


def v_any(x):
    if isinstance(x, SDeque):
        return x.any_()
    if is_symseq(x):
        s = as_seq(x)
        return Bool(exists([s.n], lambda i: toF(to_b(s.item(i)))))
    if isinstance(x, list) and deep_sym(x):
        return Bool(for_(*[toF(to_b(e)) for e in x]))
    return _b.any(x)


def v_sum(x, start=0):
    if is_symseq(x):
        s = as_seq(x)
        return npshim.sum_term([s.n], lambda i: s.item(i)) + start
    return _b.sum(x, start)


def v_abs(x):
    return abs(x)


def v_sorted(x, **k):
    if is_symseq(x) or deep_sym(list(x) if isinstance(x, (list, tuple)) else 0):
        raise Unsupported("sorted")
    return sorted(x, **k)


def v_reversed(x):
    if is_symseq(x):
        s = as_seq(x)
        return SSeq(s.n, lambda i: s._item(simp(zint(s.n) - 1 - i)))
    return reversed(x)


def v_round(x, *a):
    if is_sym(x):
        raise Unsupported("round")
    return round(x, *a)


def v_iter(x):
    if is_symseq(x):
        raise Unsupported("iter of a symbolic sequence")
    return iter(x)


def v_print(*a, **k):
    return None


def v_str(*a):
    return "<sym>" if a and is_sym(a[0]) else str(*a)


BUILTINS = {"range": v_range, "len": v_len, "enumerate": v_enumerate, "zip": v_zip, "map": v_map, "min": v_min, "max": v_max,
            "all": v_all, "any": v_any, "sum": v_sum, "int": VInt, "float": VFloat, "bool": VBool, "list": VList, "tuple": VTuple,
            "isinstance": v_isinstance, "type": v_type, "sorted": v_sorted, "reversed": v_reversed, "round": v_round,
            "print": v_print, "iter": v_iter, "dict": VDict}


# ------------------------------------------------------------ library shims
class DequeShim:
    def __call__(self, iterable=(), maxlen=None):
        if ST.ctx is None:
            return _collections.deque(iterable, maxlen)
        d = SDeque(maxlen)
        for x in iterable:
            d.append(x)
        return d


def v_itemgetter(*keys):
    if len(keys) == 1:
        k = keys[0]
        return lambda o: o[k]
    return lambda o: tuple(o[k] for k in keys)


def v_product(*xs, repeat=1):
    if any(is_symseq(x) for x in xs):
        return SProd([as_seq(x) if is_symseq(x) else list(x) for x in xs] * repeat)
    return _itertools.product(*xs, repeat=repeat)


class ModShim:
    def __init__(self, real, over):
        self._real, self._over = real, over

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        return getattr(self._real, n)


def m_exp(x):
    if isinstance(x, Num):
        return npshim.n_exp(x)
    return _math.exp(x)


def _m1(name):
    real = getattr(_math, name)

    def f(x, *a):
        if is_sym(x):
            return ew(name, x) if name in npshim._EW else npshim._unsup("math." + name)
        return real(x, *a)
    return f


def m_pow(a, b):
    if is_sym(a) or is_sym(b):
        return arith("pow", to_num(a), to_num(b))
    return _math.pow(a, b)


def m_isnan(a):
    return isnan(a) if is_sym(a) else _math.isnan(a)


def m_isinf(a):
    return isinf(a) if is_sym(a) else _math.isinf(a)


class SymPool:
    """multiprocessing.Pool: map applies the function to every element once, in order"""
    live = 0

    def __init__(self, processes=None):
        if processes is None:
            processes = Num(fresh_int("cpus"))
            sink().fact(processes.v >= 1)
        if is_sym(processes):
            if not bool(to_num(processes) >= 1):
                raise ValueError("Number of processes must be at least 1")
        elif processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._processes = processes
        self.closed = False
        ST.ctx.events.append(("pool", self))

    def map(self, f, xs, chunksize=None):
        if self.closed is True:
            raise ValueError("Pool not running")
        if isinstance(xs, SplitSeq):
            p = parametric(xs.n, lambda k: f(xs._item(k)))
            return MappedSplit(xs, p.item)
        if is_symseq(xs):
            s = as_seq(xs)
            return parametric(s.n, lambda i: f(s._item(i)))
        return [f(x) for x in xs]

    def starmap(self, f, xs, chunksize=None):
        return self.map(lambda t: f(*t), xs)

    def imap(self, f, xs, chunksize=1):
        return self.map(f, xs)

    def imap_unordered(self, *a, **k):
        raise Unsupported("unordered pool map")

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def close(self):
        self.closed = True

    terminate = close

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def __deepcopy__(self, memo):
        return self


def mk_pool(*a, **k):
    if ST.ctx is None:
        raise Unsupported("pool outside of a path")
    return SymPool(*a, **k)


class TreeShim:
    """scipy.spatial.cKDTree (assumed contract): query(x, p, k) on the tree's own points returns, for each
    row, the k distinct nearest points in order of distance; result shape (n,) for k == 1, else (n, k)"""

    def __init__(self, data, *a, **k):
        self.data = to_arr(data).copy()
        ST.ctx.events.append(("cKDTree", self.data))

    def query(self, x, k=1, p=2, **kw):
        x = to_arr(x)
        n = self.data._shape[0]
        c = ST.ctx
        rec = {"data": self.data, "x": x.copy(), "k": k, "p": p}
        k_ = norm_size(k)
        f = fresh_fun("knn", 2, "i")

        def el(i, j):
            v = f(i, j)
            s = sink()
            reg(v, n)
            s.fact(z3.Implies(z3.And(in_range(i, 0, x._shape[0]), in_range(j, 0, k_), zint(k_) <= zint(n)), in_range(v, 0, n)))
            return Num(v)
        rec["f"] = f
        c.events.append(("query", rec))
        if isinstance(k_, int) and k_ == 1 or not isinstance(k_, int) and bool(Bool(zint(k_) == 1)):
            idx = mk((x._shape[0],), lambda i: el(i, z3.IntVal(0)), "i")
            idx.nonneg = True
            return sym_arr("knnd", (x._shape[0],)), idx
        if not bool(Bool(zint(k_) >= 1)):
            raise ValueError("k must be an integer or a sequence of integers >= 1")
        if not bool(Bool(zint(k_) <= zint(n))):
            raise Unsupported("more neighbours than points")
        idx = mk((x._shape[0], k_), el, "i")
        idx.nonneg = True
        return sym_arr("knnd", (x._shape[0], k_)), idx


class DelaunayShim:
    """scipy.spatial.Delaunay (assumed contract): vertex_neighbor_vertices = (indptr, indices), a CSR structure
    with non-decreasing indptr whose entries are vertex numbers; every vertex has at least one neighbour"""

    def __init__(self, points, **k):
        pts = to_arr(points).copy()
        n = pts._shape[0]
        c = ST.ctx
        ip = fresh_fun("indptr", 1, "i")
        ix = fresh_fun("indices", 1, "i")
        tot = fresh_int("nnz")
        s = sink()
        nz = zint(n)
        s.fact(z3.And(ip(z3.IntVal(0)) == 0, ip(nz) == tot, tot >= 0))
        n1 = norm_size(size_num(n) + 1)

        def rip(i):
            v = ip(i)
            k_ = sink()
            k_.fact(z3.Implies(in_range(i, 0, n1), z3.And(v >= 0, v <= tot)))
            k_.fact(z3.Implies(in_range(i, 0, n), ip(i) < ip(i + 1)))
            return Num(v)
        indptr = mk((n1,), rip, "i")
        indptr.nonneg = True

        def rix(i):
            v = ix(i)
            sink().fact(z3.Implies(in_range(i, 0, tot), in_range(v, 0, n)))
            reg(v, n)
            return Num(v)
        indices = mk((Num(tot),), rix, "i")
        indices.nonneg = True
        self.vertex_neighbor_vertices = (indptr, indices)
        rec = {"data": pts, "indptr": ip, "indices": ix}
        c.events.append(("Delaunay", rec))
        self.rec = rec


def connected_components(a, directed=True, connection="weak", return_labels=True):
    """assumed contract: the number of connected components of the undirected graph of a"""
    c = ST.ctx
    n = Num(fresh_int("ncomp"))
    sink().fact(n.v >= 1)
    c.events.append(("components", {"adj": to_arr(a).copy(), "n": n, "directed": directed, "connection": connection}))
    if return_labels:
        raise Unsupported("component labels")
    return n


def dijkstra(a, directed=True, return_predecessors=False, unweighted=False, **k):
    """assumed contract: d[i][j] finite iff j is reachable from i in the graph, +inf otherwise; symmetric if the edges are undirected or
    the matrix is symmetric"""
    c = ST.ctx
    a = to_arr(a).copy()
    if k:
        raise Unsupported("dijkstra options")
    n = a._shape[0]
    kf = fresh_fun("dist_k", 2, "i")
    vf = fresh_fun("dist", 2, "r")

    def el(i, j):
        kk = kf(i, j)
        s = sink()
        s.fact(z3.And(z3.Or(kk == FIN, kk == PINF), vf(i, j) >= 0))
        s.fact(z3.Implies(i == j, z3.And(kk == FIN, vf(i, j) == 0)))
        s.fact(z3.Implies(sym, z3.And(kf(j, i) == kk, vf(j, i) == vf(i, j))))
        return Num(vf(i, j), kk)
    sym = z3.BoolVal(True)
    if directed is not False:
        sym = fresh_bool("symmetric")
        rd = a.reader()
        c.assume(for_(fz(sym), exists([n, n], lambda i, j: fz(to_num(rd(i, j)).v != to_num(rd(j, i)).v))))
    d = mk((n, n), memo(el), "f")
    c.events.append(("dijkstra", {"adj": a.copy(), "d": d, "directed": directed}))
    return d


class Partial:
    def __init__(self, f, *a, **k):
        self.func, self.args, self.keywords = f, a, k

    def __call__(self, *a, **k):
        return self.func(*(self.args + a), **{**self.keywords, **k})


def v_copy(x):
    if isinstance(x, (Num, Bool)):
        return x
    return _copy.copy(x)


def v_deepcopy(x, memo=None):
    if isinstance(x, (Num, Bool)):
        return x
    return _copy.deepcopy(x)


def lib_table():
    t = {}

    def put(real, shim):
        t[id(real)] = (real, shim)
    put(_np, NP)
    for n in dir(_np):
        if n.startswith("_") or n in npshim._PASS:
            continue
        f = getattr(_np, n)
        if callable(f) and n in npshim._TABLE:
            put(f, getattr(NP, n))
    put(_np.ndarray, npshim.ndarray)
    put(_np.random, NP.random)
    put(_mp, ModShim(_mp, {"Pool": mk_pool}))
    put(_mp.Pool, mk_pool)
    put(_collections.deque, DequeShim())
    put(_collections, ModShim(_collections, {"deque": DequeShim()}))
    put(_itertools, ModShim(_itertools, {"product": v_product}))
    put(_itertools.product, v_product)
    put(_functools.partial, Partial)
    put(_functools, ModShim(_functools, {"partial": Partial}))
    put(_operator.itemgetter, v_itemgetter)
    put(_operator, ModShim(_operator, {"itemgetter": v_itemgetter}))
    put(_copy.copy, v_copy)
    put(_copy.deepcopy, v_deepcopy)
    put(_copy, ModShim(_copy, {"copy": v_copy, "deepcopy": v_deepcopy}))
    put(_math.exp, m_exp)
    ms = {"exp": m_exp, "pow": m_pow, "isnan": m_isnan, "isinf": m_isinf}
    for n in ("sqrt", "sin", "cos", "log", "floor"):
        ms[n] = _m1(n)
    put(_math, ModShim(_math, ms))
    try:
        import scipy.spatial as sp
        put(sp.cKDTree, TreeShim)
        put(sp.KDTree, TreeShim)
        put(sp.Delaunay, DelaunayShim)
        import scipy.sparse.csgraph as cg
        put(cg.connected_components, connected_components)
        put(cg.dijkstra, dijkstra)
    except ImportError:
        pass
    try:
        from past.builtins import xrange
        put(xrange, v_range)
    except ImportError:
        pass
    return t


# ------------------------------------------------------------------- loops
class ConcreteLoop:
    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def enter(self, loc):
        return ()

    def value(self, it):
        return it

    def after(self, loc):
        return ()

    def leave(self):
        pass


class WhileConcrete(ConcreteLoop):
    """while loop without a specification: run as is (at most a small number of iterations)"""

    def __init__(self, q, line):
        self.q, self.line = q, line

    def __iter__(self):
        for k in range(12):
            yield k
        raise Unsupported("while loop without specification at %s:%d" % (self.q, self.line))


class Snapshot:
    """state reachable from given roots, for the frame of a loop or a function"""

    def __init__(self, roots):
        self.objs = {}
        self.keep = []
        self._walk(roots)

    def _walk(self, roots):
        st = list(roots)
        while st:
            o = st.pop()
            if id(o) in self.objs or o is None or _b.isinstance(o, (str, int, float, bool, Num, Bool, type, types.FunctionType,
                                                                    types.ModuleType, types.BuiltinFunctionType, _logging.Logger, z3.AstRef)):
                continue
            if _b.isinstance(o, types.MethodType):
                st.append(o.__self__)
                continue
            if _b.isinstance(o, Arr):
                if id(o.buf) not in self.objs:
                    self.objs[id(o.buf)] = (o.buf, ("buf", o.buf.version))
                continue
            if _b.isinstance(o, _np.ndarray):
                self.objs[id(o)] = (o, ("nd", o.tobytes() if o.dtype != object else None))
                continue
            if _b.isinstance(o, dict):
                self.objs[id(o)] = (o, ("dict", dict(o)))
                st.extend(o.values())
            elif _b.isinstance(o, (list, set)):
                self.objs[id(o)] = (o, ("list", list(o)))
                st.extend(o)
            elif _b.isinstance(o, tuple):
                self.objs[id(o)] = (o, ("tuple", None))
                st.extend(o)
            elif _b.isinstance(o, (SList, SDeque)):
                self.objs[id(o)] = (o, ("slist", (o.n0, len(o.tail))))
                st.extend(o.tail)
            elif _b.isinstance(o, (SSeq, Poison)):
                continue
            elif hasattr(o, "__dict__") and type(o).__module__.startswith("vc_pyswarms"):
                self.objs[id(o)] = (o, ("obj", dict(o.__dict__)))
                st.extend(o.__dict__.values())
            elif hasattr(o, "__dict__") and type(o).__name__ in ("SymPool", "Obj"):
                self.objs[id(o)] = (o, ("obj", dict(o.__dict__)))
                st.extend(o.__dict__.values())

    def diff(self, ignore=()):
        """locations (object, key) that changed"""
        out = []
        for o, (kind, old) in self.objs.values():
            if kind == "buf":
                if o.version != old:
                    out.append((o, "<elements>"))
            elif kind == "nd":
                if old is not None and o.tobytes() != old:
                    out.append((o, "<elements>"))
            elif kind == "slist":
                if (o.n0, len(o.tail)) != old and not (o.n0 is old[0] and len(o.tail) == old[1]):
                    out.append((o, "<items>"))
            elif kind in ("dict", "obj"):
                cur = o if kind == "dict" else o.__dict__
                for k in set(cur) | set(old):
                    if k not in cur or k not in old or cur[k] is not old[k]:
                        if k in cur and k in old and _b.isinstance(cur[k], (int, float, str, bool)) and type(cur[k]) is type(old[k]) and cur[k] == old[k]:
                            continue
                        if k in cur and k in old and isinstance(cur[k], Num) and isinstance(old[k], Num) and cur[k].v.eq(old[k].v) and str(cur[k].k) == str(old[k].k):
                            continue
                        if k in cur and k in old and _b.isinstance(cur[k], types.MethodType) and _b.isinstance(old[k], types.MethodType):
                            continue
                        out.append((o, k))
            elif kind == "list":
                cur = list(o)
                if len(cur) != len(old) or any(a is not b for a, b in zip(cur, old)):
                    out.append((o, "<items>"))
        return out


class SpecLoop:
    """loop handled by a specification: havoc of the declared state, invariant assumed and re-established"""

    def __init__(self, spec, lo, hi, value, names, q, line):
        self.spec, self.lo, self.hi, self.val, self.names = spec, lo, hi, value, names
        self.q, self.line = q, line
        self.mode = None

    def __iter__(self):
        c = ST.ctx
        sp = self.spec
        self.first = True
        self.mode = "start"
        yield self                       # the head calls enter(), where everything happens
        # iteration finished normally: invariant must hold for the next iteration
        self.loc_end = dict(_sys._getframe(1).f_locals)
        self.finish()
        raise PathEnd()

    def finish(self):
        c = ST.ctx
        sp = self.spec
        bad = []
        declared = {(id(o), k) for o, k in self.declared}
        dobjs = {id(o) for o, k in self.declared if k == "*"}
        for o, k in self.snap.diff():
            if (id(o), k) in declared or id(o) in dobjs:
                continue
            bad.append((o, k))
        for o, k in bad:
            sp.undeclared(c, o, k, self)
        sp.end(c, self)


class ForSpec(SpecLoop):
    def __iter__(self):
        c = ST.ctx
        sp = self.spec
        self.loc0 = dict(_sys._getframe(1).f_locals)
        sp.init(c, self)
        if c.choose(2) == 0:
            self.mode = "iter"
            yield self
            self.loc_end = dict(_sys._getframe(1).f_locals)
            self.finish()
            raise PathEnd()
        self.mode = "exit"
        return

    def enter(self, loc):
        c = ST.ctx
        d = {n: Poison(n) for n in self.names}
        self.t = fresh_int("t")
        sink().fact(z3.And(zint(self.lo) <= self.t, self.t < zint(self.hi)))
        over, self.declared = self.spec.havoc(c, self.t, loc, self)
        if over is None:        # first iteration: the state before the loop is the actual one
            d = {}
        else:
            d.update(over)
        self.snap = Snapshot([v for v in {**loc, **d}.values()])
        return d

    def value(self, it):
        return self.val(self.t)

    def after(self, loc):
        if self.mode != "exit":
            return {}
        d = {n: Poison(n) for n in self.names}
        over, self.declared = self.spec.havoc(ST.ctx, zint(self.hi), loc, self)
        if over is None:
            d = {}
        else:
            d.update(over)
        return d


class WhileSpec(SpecLoop):
    def __iter__(self):
        c = ST.ctx
        self.mode = "iter"
        yield self
        self.loc_end = dict(_sys._getframe(1).f_locals)
        self.finish()
        raise PathEnd()

    def enter(self, loc):
        self.loc0 = loc
        self.spec.init(ST.ctx, self)
        d = {n: Poison(n) for n in self.names if n in loc}
        self.t = fresh_int("wt")
        sink().fact(self.t >= 0)
        over, self.declared = self.spec.havoc(ST.ctx, self.t, loc, self)
        d.update(over)
        self.snap = Snapshot([v for v in {**loc, **d}.values()])
        return d

    def leave(self):
        self.mode = "exit"


class LoopSpec:
    """base class of loop specifications"""

    def matches(self, c, q, line, seq):
        return False

    def init(self, c, loop):
        pass

    def havoc(self, c, t, loc, loop):
        return {}, []

    def end(self, c, loop):
        pass

    def undeclared(self, c, o, k, loop):
        raise Unsupported("loop at %s:%d changes %s of %s, which its specification does not describe" % (loop.q, loop.line, k, type(o).__name__))


# ------------------------------------------------------------------ __vc
class VC:
    def __init__(self):
        self.builtins = dict(BUILTINS)
        self.table = lib_table()
        self.called = set()

    def wrap(self, x):
        h = self.table.get(id(x))
        return h[1] if h is not None and h[0] is x else x

    def fn(self, q):
        def deco(f):
            @_functools.wraps(f)
            def w(*a, **k):
                c = ST.ctx
                if c is None:
                    return f(*a, **k)
                h = c.opts.get("contracts")
                if h:
                    con = h.get(q)
                    if con is not None and q not in c.ghost.get("inline", ()):
                        return con.apply(c, f, a, k)
                c.ghost.setdefault("called", set()).add(q)
                c.ghost["depth"] = c.ghost.get("depth", 0) + 1
                if c.ghost["depth"] > 60:
                    raise Unsupported("recursion without a contract: %s" % q)
                try:
                    return f(*a, **k)
                finally:
                    c.ghost["depth"] -= 1
            w.__vc_raw__ = f
            w.__vc_q__ = q
            return w
        return deco

    def loop(self, q, line, it, names, accs=()):
        c = ST.ctx
        if c is None:
            return ConcreteLoop(it)
        for sp in c.opts.get("loops", ()):
            if sp.matches(c, q, line, it):
                if isinstance(it, SRange):
                    return ForSpec(sp, 0, it.n, lambda t: it._item(t), names, q, line)
                s = as_seq(it) if is_symseq(it) else SSeq(len(it), lambda t: seq_item(it, t))
                return ForSpec(sp, 0, s.n, lambda t: s.item(t), names, q, line)
        if is_symseq(it):
            return MapLoop(as_seq(it), names, q, line, accs)
        return ConcreteLoop(it)

    def wloop(self, q, line, names):
        c = ST.ctx
        if c is not None:
            for sp in c.opts.get("loops", ()):
                if sp.matches(c, q, line, None):
                    return WhileSpec(sp, 0, None, None, names, q, line)
        return WhileConcrete(q, line)

    def known(self, x):
        """operand of an identity test"""
        if type(x) is Poison:
            x._bad()
        return x

    def unpack(self, e, n):
        if isinstance(e, (tuple, list)):
            return e
        return [e[i] for i in range(n)]

    def comp(self, kind, it, f, cond, nested):
        if not is_symseq(it):
            xs = it
            if nested:
                g = (y for x in xs if cond is None or cond(x) for y in f(x))
            else:
                g = (f(x) for x in xs if cond is None or cond(x))
            if kind == "gen":
                return g
            if kind == "list":
                return list(g)
            if kind == "set":
                return set(g)
            return dict(g)
        if cond is not None or nested or kind in ("set", "dict"):
            raise Unsupported("filtered or nested comprehension over a symbolic sequence")
        s = as_seq(it)
        return parametric(s.n, lambda i: f(s._item(i)))


class MapLoop(SpecLoop):
    """for loop without a specification, summarised: evaluated once at a generic index. Accepted when its only effects are that each
    iteration appends one value to lists that are empty before the loop and referenced by local variables only"""

    def __init__(self, seq, names, q, line, accs):
        self.seq, self.names, self.q, self.line, self.accs = seq, names, q, line, accs
        self.lists = {}

    def bad(self, why):
        raise Unsupported("loop without specification at %s:%d: %s" % (self.q, self.line, why))

    def __iter__(self):
        c = ST.ctx
        p = self.p = Param(self.seq.n)
        self.b = p.enter()
        state = "broken"
        try:
            yield self
            state = "end"
        finally:
            p.leave()
            if state == "broken":        # left by break, return or an exception
                c.ghost["broken_loop"] = "loop without specification at %s:%d is left early" % (self.q, self.line)
        p.settle()
        self.summarise(c)

    def enter(self, loc):
        self.snap = Snapshot(list(loc.values()))
        return {n: Poison(n) for n in self.names}

    def value(self, it):
        return self.seq.item(self.b)

    def summarise(self, c):
        for o, k in self.snap.diff():
            if not _b.isinstance(o, list):
                self.bad("changes %s of %s" % (k, type(o).__name__))
            old = self.snap.objs[id(o)][1][1]
            if old or len(o) != 1:
                self.bad("appends several values or to a list that is not empty")
            self.lists[id(o)] = (o, o[0])

    def shared(self, o, loc):
        """is the list held by anything but local variables of the function?"""
        import gc
        mine = [id(x) for x in (loc, self.lists, self.snap.objs, self.snap.keep)]
        mine += [id(x) for x in self.lists.values()] + [id(x) for x in self.snap.objs.values()]
        for r in gc.get_referrers(o):
            if not _b.isinstance(r, types.FrameType) and id(r) not in mine:
                return True
        f = _sys._getframe(3)
        while f is not None:
            for x in f.f_locals.values():
                if x is o:
                    return True
            f = f.f_back
        return False

    def after(self, loc):
        d = {n: Poison(n) for n in self.names}
        done = {}
        for n in list(loc):
            i = id(loc[n])
            if i in self.lists:
                if n not in self.accs:
                    self.bad("list with two names")
                if i not in done:
                    if self.shared(loc[n], loc):
                        self.bad("list referenced from elsewhere")
                    done[i] = SList(self.seq.n, self.p.items(self.lists[i][1]))
                d[n] = done[i]
        if len(done) != len(self.lists):
            self.bad("list not held by a local variable")
        return d


VCRT = VC()
