"""Symbolic numpy arrays: shape of integer terms + element closure over index terms.

A buffer is a mutable cell holding the current closure, so that the Python object graph is the heap
(aliases and views behave as in numpy).  An axis may be a mask domain (DomAx): its index is then a
tuple of index terms satisfying the mask; this models the result of numpy.nonzero exactly.
"""
from .core import *
from .core import _isfin, _keq, _kz, _kif, _pair
import z3
import itertools
import numpy as _np

_serial = itertools.count()


def size_eq(a, b):
    """are two axis sizes equal? (may fork)"""
    if a is b:
        return True
    if isinstance(a, DomAx) or isinstance(b, DomAx):
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    za, zb = zint(a), zint(b)
    if za.eq(zb) or simp(za).eq(simp(zb)):
        return True
    e = simp(za == zb)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if ST.ctx is None:
        return False
    return bool(Bool(za == zb))


def size_is(a, c):
    if isinstance(a, DomAx):
        return False
    if isinstance(a, int):
        return a == c
    v = const_of(simp(zint(a)))
    return v == c if v is not None else False


def norm_size(a):
    if isinstance(a, DomAx):
        return a
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, int):
        return a
    if isinstance(a, Num):
        c = const_of(simp(a.v))
        if c is not None:
            return int(c)
        if not a.is_int:
            raise Unsupported("non-integer size")
        return a
    if hasattr(a, "__index__"):
        return a.__index__()
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(a).__name__)


def size_num(s):
    if isinstance(s, DomAx):
        return s.count()
    return s if isinstance(s, int) else Num(zint(s))


class DomAx:
    """domain { idx : mask(idx) } of a mask over the given sizes (row-major enumeration)"""

    def __init__(self, mask, sizes):
        self.mask, self.sizes = mask, tuple(sizes)
        self._count = None
        self._enum = None
        self.scope = list(ST.scope)
        self.parent = None      # (domain, b, t): this domain is that one with b -> t

    def enum(self):
        """(rank -> index, index -> rank) of the row-major enumeration of a one-dimensional domain"""
        if self._enum is None:
            if self.parent is not None:
                from .seqs import with_subst
                d, b, t = self.parent
                f, g = d.enum()
                raw = lambda h: with_subst(lambda x: Num(h(x)), b, t)
                F_, G_ = raw(f), raw(g)
                self._enum = (lambda r: F_(r).v, lambda x: G_(x).v)
            else:
                old = ST.scope
                ST.scope = self.scope
                try:
                    self._enum = (fresh_fun("enum", 1, "i"), fresh_fun("rank", 1, "i"))
                finally:
                    ST.scope = old
        return self._enum

    def count(self):
        if self.parent is not None:
            if self._count is None:
                from .seqs import with_subst
                d, b, t = self.parent
                self._count = (with_subst(lambda: d.count(), b, t), None)
            return self._count[0]()
        if self._count is None:
            old = ST.scope
            ST.scope = self.scope
            with capture() as cs:
                c = Num(fresh_int("cnt"))
                s = sink()
                s.fact(c.v >= 0)
                s.fact(z3.Implies(c.v > 0, GR.ground(exists(self.sizes, lambda *ix: self.mask(*ix)))))
                s.fact(z3.Implies(c.v <= 0, GR.ground(forall(self.sizes, lambda *ix: fnot(toF(self.mask(*ix)))))))
                tot = z3.IntVal(1)
                for z in self.sizes:
                    tot = tot * zint(z)
                s.fact(c.v <= tot)
            ST.scope = old
            self._count = (c, cs)
        c, cs = self._count
        replay(cs)
        return c

    def __repr__(self):
        return "<mask domain>"


def memo(fn):
    cache = {}

    def g(*ix):
        key = tuple(_ixkey(i) for i in ix)
        hit = cache.get(key)
        if hit is None or hit[3] != scope_key():
            with capture() as cs:
                ST.elem += 1
                try:
                    v = fn(*ix)
                finally:
                    ST.elem -= 1
            hit = (v, cs, ix, scope_key())
            cache[key] = hit
        replay(hit[1])
        return hit[0]
    return g


def _ixkey(i):
    if isinstance(i, tuple):
        return tuple(_ixkey(x) for x in i)
    return i.get_id() if hasattr(i, "get_id") else ("c", i)


class Buf:
    def __init__(self, shape, fn, dtype, name=None):
        self.shape, self.dtype, self.name = tuple(shape), dtype, name
        self.hist = [(0, viewed(fn))]        # (time of the write, contents)
        self.serial = next(_serial)
        self.protected = None        # reason why in-place writes are outside the subset / a frame violation

    @property
    def version(self):
        v, k = ST.view, len(self.hist) - 1
        if v is not None:
            while k and self.hist[k][0] > v:
                k -= 1
        return k

    @property
    def fn(self):
        h = self.hist
        return h[-1][1] if ST.view is None or len(h) == 1 else h[self.version][1]

    def write(self, fn):
        if ST.ctx is not None and ST.ctx.pure:
            raise Unsupported("write inside a parametric expression")
        if ST.view is None:
            ST.clock += 1
            self.hist.append((ST.clock, viewed(fn)))
        else:
            self.hist.append((ST.view, viewed(fn)))
        c = ST.ctx
        if c is not None:
            cb = c.ghost.get("on_write")
            if cb is not None:
                cb(self)


class Arr:
    _vc_arr = True
    _vc_sym = True
    __array_ufunc__ = None
    __array_priority__ = 2000
    nz = None           # (domain, component) for results of nonzero
    nonneg = False      # integer elements known to be non-negative
    distinct = False
    anydt = False       # results of the caller's functions: integers or fractions, unknown which

    def __init__(self, buf, shape=None, axes=None):
        self.buf = buf
        self._shape = tuple(buf.shape if shape is None else shape)
        # per buffer axis: ('f', term) fixed, or ('a', result_axis, start, step)
        self.axes = axes

    # ------------------------------------------------ reading
    def reader(self):
        fn = self.buf.fn
        axes = self.axes
        if axes is None:
            return fn
        return lambda *ix: fn(*_map_ix(axes, ix))

    def at(self, *ix):
        ix = [zint(i) if not isinstance(i, tuple) else i for i in ix]
        for i, s in zip(ix, self._shape):
            reg(i, s)
        return self.reader()(*ix)

    @property
    def shape(self):
        return tuple(size_num(s) for s in self._shape)

    @property
    def sizes(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = size_num(s) * r
        return r

    @property
    def dtype(self):
        if self.anydt:
            raise Unsupported("type of the elements of an array that may hold integers or fractions")
        return {"f": _np.dtype(float), "i": _np.dtype(int), "b": _np.dtype(bool)}[self.buf.dtype]

    @property
    def dt(self):
        return self.buf.dtype

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        n = self.ndim
        if axes and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        perm = tuple(axes) if axes else tuple(reversed(range(n)))
        sh = tuple(self._shape[p] for p in perm)
        inv = {p: k for k, p in enumerate(perm)}
        ax = []
        for a in (self.axes or [("a", k, 0, 1) for k in range(n)]):
            ax.append(a if a[0] == "f" else ("a", inv[a[1]], a[2], a[3]))
        return Arr(self.buf, sh, ax)

    def copy(self, *a, **k):
        return mk(self._shape, self.reader(), self.dt)

    __copy__ = copy

    def __deepcopy__(self, m):
        return self.copy()

    def astype(self, t, copy=True):
        d = dtype_code(t)
        r = self.reader()
        if d == "b":
            return mk(self._shape, lambda *ix: to_bool(r(*ix)), "b")
        if d == "i" and self.dt == "f":
            def f(*ix):
                v = r(*ix)
                if v.v.is_int():
                    return v
                raise Unsupported("float to int conversion")
            return mk(self._shape, f, "i")
        a = mk(self._shape, lambda *ix: to_num(r(*ix)), d)
        a.nonneg = self.nonneg and d == "i"
        return a

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len of a symbolic array outside of the len shim")

    def vc_len(self):
        return size_num(self._shape[0])

    def __iter__(self):
        n = self._shape[0] if self._shape else None
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over a symbolic array")

    def __bool__(self):
        if all(size_is(s, 1) for s in self._shape):
            return bool(to_bool(self.reader()(*[z3.IntVal(0)] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __getattr__(self, n):
        if n.startswith("_vc") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("array attribute %s" % n)

    def __repr__(self):
        return "Arr(%s%s)" % (self.buf.name or "", self._shape)

    def __format__(self, s):
        return "<sym array>"

    def __hash__(self):
        return id(self)

    # ------------------------------------------------ indexing
    def __getitem__(self, key):
        try:
            kind, data = parse_key(self, key)
        except NeedCompact:
            return compact(self)[key]
        if kind == "basic":
            return self._view(data)
        return gather(self, data)

    def _view(self, items):
        cur = self.axes or [("a", k, 0, 1) for k in range(self.ndim)]
        newshape, mapping = [], {}
        src = 0
        for it in items:
            if it is None:
                newshape.append(1)
                continue
            if it[0] == "i":
                mapping[src] = ("f", it[1])
            else:
                _, start, step, size = it
                mapping[src] = ("a", len(newshape), start, step)
                newshape.append(size)
            src += 1
        ax = []
        for a in cur:
            if a[0] == "f":
                ax.append(a)
                continue
            m = mapping[a[1]]
            if m[0] == "f":
                ax.append(("f", _addi(a[2], _muli(a[3], m[1]))))
            else:
                ax.append(("a", m[1], _addi(a[2], _muli(a[3], m[2])), a[3] * m[3]))
        if not newshape:
            v = Arr(self.buf, (), ax)
            for it, s in zip([i for i in items if i is not None], self._shape):
                reg(zint(it[1]) if not isinstance(it[1], tuple) else it[1], s)
            x = v.reader()()
            if isinstance(x, Num):
                x = Num(x.v, x.k, np=True)
            return x
        return Arr(self.buf, newshape, ax)

    def __setitem__(self, key, val):
        kind, data = parse_key(self, key)
        if kind == "basic":
            sub = self._view(data) if any(i is None or i[0] == "s" for i in data) else \
                Arr(self.buf, (), self._view_axes_scalar(data))
            sub._assign(val)
        else:
            scatter(self, data, val)

    def _view_axes_scalar(self, items):
        cur = self.axes or [("a", k, 0, 1) for k in range(self.ndim)]
        its = [i for i in items if i is not None]
        return [a if a[0] == "f" else ("f", _addi(a[2], _muli(a[3], its[a[1]][1]))) for a in cur]

    def _assign(self, val):
        """write val (broadcast) to every element of this view"""
        src = to_arr(val)
        proj = bcast_to(src, self._shape)
        rd = src.reader()
        old = self.buf.fn
        axes = self.axes
        shape = self._shape
        dt = self.buf.dtype
        if axes is None:
            new = lambda *b: conv(rd(*proj(b)), dt)
        else:
            inv = {}
            conds = []
            for bi, a in enumerate(axes):
                if a[0] == "f":
                    conds.append((bi, a[1]))
                else:
                    inv[a[1]] = (bi, a[2], a[3])

            def new(*b):
                cs = [b[bi] == zint(t) for bi, t in conds]
                ix = []
                for k in range(len(shape)):
                    if k not in inv:
                        ix.append(z3.IntVal(0))
                        continue
                    bi, st, sp = inv[k]
                    if _is0(st) and sp == 1:
                        ix.append(b[bi])
                        if not size_same(shape[k], self.buf.shape[bi]):
                            cs.append(b[bi] < zint(shape[k]))
                    elif sp == 1:
                        ix.append(b[bi] - zint(st))
                        cs.append(b[bi] >= zint(st))
                        cs.append(b[bi] - zint(st) < zint(shape[k]))
                    elif sp == -1:
                        ix.append(zint(st) - b[bi])
                        cs.append(b[bi] <= zint(st))
                        cs.append(zint(st) - b[bi] < zint(shape[k]))
                    else:
                        raise Unsupported("strided write")
                v = conv(rd(*proj(tuple(ix))), dt)
                if not cs:
                    return v
                return ite(Bool(z3.And(*cs)), v, old(*b))
        self.buf.write(memo(new))

    # ------------------------------------------------ operators
    def _bin(self, o, op, rev=False):
        from .npshim import ew
        try:
            return ew(op, o, self) if rev else ew(op, self, o)
        except _NotArr:
            return NotImplemented

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add", True)
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._bin(o, "sub", True)
    def __mul__(self, o): return self._bin(o, "mul")
    def __rmul__(self, o): return self._bin(o, "mul", True)
    def __truediv__(self, o): return self._bin(o, "div")
    def __rtruediv__(self, o): return self._bin(o, "div", True)
    def __mod__(self, o): return self._bin(o, "mod")
    def __rmod__(self, o): return self._bin(o, "mod", True)
    def __pow__(self, o): return self._bin(o, "pow")
    def __rpow__(self, o): return self._bin(o, "pow", True)
    def __lt__(self, o): return self._bin(o, "lt")
    def __le__(self, o): return self._bin(o, "le")
    def __gt__(self, o): return self._bin(o, "gt")
    def __ge__(self, o): return self._bin(o, "ge")
    def __eq__(self, o): return self._bin(o, "eq")
    def __ne__(self, o): return self._bin(o, "ne")
    def __and__(self, o): return self._bin(o, "and")
    def __rand__(self, o): return self._bin(o, "and", True)
    def __or__(self, o): return self._bin(o, "or")
    def __ror__(self, o): return self._bin(o, "or", True)
    def __xor__(self, o): return self._bin(o, "xor")

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("bitwise not on numbers")
        r = self.reader()
        return mk(self._shape, lambda *ix: Bool(fnot(toF(r(*ix)))), "b")

    def __neg__(self):
        r = self.reader()
        return mk(self._shape, lambda *ix: num_neg(to_num(r(*ix))), "f" if self.dt == "f" else "i")

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        r = self.reader()
        return mk(self._shape, lambda *ix: num_abs(r(*ix)), self.dt)

    def _inplace(self, o, op):
        from .npshim import ew
        r = ew(op, self, o)
        if len(r._shape) != len(self._shape):
            raise ValueError("non-broadcastable output operand")
        self._assign(r)
        return self

    def __iadd__(self, o): return self._inplace(o, "add")
    def __isub__(self, o): return self._inplace(o, "sub")
    def __imul__(self, o): return self._inplace(o, "mul")
    def __itruediv__(self, o): return self._inplace(o, "div")
    def __imod__(self, o): return self._inplace(o, "mod")
    def __iand__(self, o): return self._inplace(o, "and")
    def __ior__(self, o): return self._inplace(o, "or")

    # ------------------------------------------------ reductions (methods)
    def sum(self, axis=None, **k):
        from . import npshim
        return npshim.r_sum(self, axis, **k)

    def mean(self, axis=None, **k):
        from . import npshim
        return npshim.r_mean(self, axis, **k)

    def min(self, axis=None, **k):
        from . import npshim
        return npshim.r_min(self, axis, **k)

    def max(self, axis=None, **k):
        from . import npshim
        return npshim.r_max(self, axis, **k)

    def argmin(self, axis=None, **k):
        from . import npshim
        return npshim.r_argmin(self, axis, **k)

    def argmax(self, axis=None, **k):
        from . import npshim
        return npshim.r_argmax(self, axis, **k)

    def argsort(self, axis=-1, **k):
        from . import npshim
        return npshim.r_argsort(self, axis, **k)

    def all(self, axis=None):
        from . import npshim
        return npshim.r_all(self, axis)

    def any(self, axis=None):
        from . import npshim
        return npshim.r_any(self, axis)

    def nonzero(self):
        return nonzero(self)

    def reshape(self, *sh, **k):
        from . import npshim
        npshim._kw(k)
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        return npshim.reshape(self, sh)

    def ravel(self, order="C"):
        from . import npshim
        npshim._kw({"order": order})
        return npshim.reshape(self, (-1,))

    flatten = ravel

    def squeeze(self, axis=None):
        items = []
        keep = []
        for k, s in enumerate(self._shape):
            if size_is(s, 1) and (axis is None or axis == k or (axis < 0 and axis + self.ndim == k)):
                items.append(("i", 0))
            else:
                items.append(("s", 0, 1, s))
        return self._view(items)

    def clip(self, lo=None, hi=None):
        from . import npshim
        return npshim.clip(self, lo, hi)

    def item(self):
        if all(size_is(s, 1) for s in self._shape):
            return self.reader()(*[z3.IntVal(0)] * self.ndim)
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def fill(self, v):
        self._assign(v)

    def tolist(self):
        from .seqs import SSeq
        n = self._shape[0]
        if isinstance(n, int):
            return [x.tolist() if isinstance(x, Arr) else x for x in self]
        snap = self.copy()
        if self.ndim == 1:
            return SSeq(n, lambda i: snap.at(i))
        raise Unsupported("tolist")

    def take(self, idx, axis=None):
        from . import npshim
        return npshim.take(self, idx, axis)

    def dot(self, o):
        raise Unsupported("dot")

    def repeat(self, n, axis=None):
        from . import npshim
        return npshim.repeat(self, n, axis)


class NeedCompact(Exception):
    pass


class _NotArr(Exception):
    pass


def reg(i, size):
    """remember an index term as an instantiation candidate for its axis"""
    if isinstance(i, tuple):
        if isinstance(size, DomAx):
            for a, s in zip(i, size.sizes):
                reg(a, s)
        return
    if isinstance(size, DomAx):
        return
    sink().term(key_of(size), i)


def _is0(t):
    return isinstance(t, int) and t == 0


def _addi(a, b):
    if _is0(a):
        return b
    if _is0(b):
        return a
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(zint(a) + zint(b))


def _muli(a, b):
    if a == 1 and isinstance(a, int):
        return b
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return simp(zint(a) * zint(b))


def _map_ix(axes, ix):
    out = []
    for a in axes:
        if a[0] == "f":
            out.append(a[1] if isinstance(a[1], tuple) else zint(a[1]))
        else:
            _, k, st, sp = a
            if _is0(st) and sp == 1:
                out.append(ix[k])
            else:
                out.append(simp(zint(st) + sp * ix[k]))
    return tuple(out)


def size_same(a, b):
    if a is b:
        return True
    if isinstance(a, DomAx) or isinstance(b, DomAx):
        return False
    return zint(a).eq(zint(b)) or simp(zint(a)).eq(simp(zint(b)))


def dtype_code(t):
    if t is None:
        return "f"
    if isinstance(t, str) and t in ("f", "i", "b"):
        return t
    if t is float or getattr(t, "__name__", "") in ("VFloat", "float", "float64"):
        return "f"
    if t is bool or getattr(t, "__name__", "") in ("VBool", "bool", "bool_"):
        return "b"
    if t is int or getattr(t, "__name__", "") in ("VInt", "int", "int64", "intp"):
        return "i"
    try:
        k = _np.dtype(t)
    except Exception:
        raise Unsupported("dtype %r" % (t,))
    if k.kind != "b" and k.itemsize != 8:
        raise Unsupported("dtype %r (not 64 bits)" % (t,))
    k = k.kind
    if k == "f":
        return "f"
    if k == "i":
        return "i"
    if k == "b":
        return "b"
    raise Unsupported("dtype %r" % (t,))


def to_bool(x):
    if isinstance(x, (Bool, bool)):
        return x if isinstance(x, Bool) else Bool(z3.BoolVal(x))
    return to_num(x) != 0


def conv(v, dt):
    if dt == "b":
        return to_bool(v)
    n = to_num(v)
    if dt == "f" and n.v.is_int():
        return Num(zreal(n.v), n.k)
    if dt == "i" and not n.v.is_int():
        raise Unsupported("float stored into an integer array")
    return n


def mk(shape, fn, dtype, name=None):
    return Arr(Buf(tuple(norm_size(s) for s in shape), memo(fn), dtype, name))


def const_arr(shape, val, dtype):
    if dtype == "b":
        v = to_bool(val)
    else:
        v = conv(val, dtype)
    return mk(shape, lambda *ix: v, dtype)


def sym_arr(name, shape, dtype="f", kinds=False):
    """fresh symbolic array (named uninterpreted function)"""
    f = fresh_fun(name, len(shape), {"f": "r", "i": "i", "b": "b"}[dtype])
    if dtype == "b":
        return mk(shape, lambda *ix: Bool(f(*ix)), "b", name)
    if kinds:
        kf = fresh_fun(name + "_k", len(shape), "i")

        def el(*ix):
            k = kf(*ix)
            sink().fact(z3.And(k >= 0, k <= 3))
            return Num(f(*ix), k)
        return mk(shape, el, dtype, name)
    return mk(shape, lambda *ix: Num(f(*ix)), dtype, name)


def to_arr(x, dtype=None):
    """Arr view of anything array-like (0-d for scalars)"""
    if isinstance(x, Arr):
        return x
    from .seqs import SSeq, SList
    if isinstance(x, SList):
        n = norm_size(x.vc_len())
        snap = SList(x.n0, x.old)
        snap.tail = list(x.tail)
        x = SSeq(n, snap.item)
    if isinstance(x, SSeq):
        return x.to_arr()
    if isinstance(x, (Num, Bool)):
        return Arr(Buf((), lambda: x, "b" if isinstance(x, Bool) else ("i" if x.is_int else "f")))
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        b = Bool(z3.BoolVal(bool(x)))
        return Arr(Buf((), lambda: b, "b"))
    if isinstance(x, (int, float)) or isinstance(x, _np.generic):
        n = to_num(x)
        dt = "i" if isinstance(x, (int, _np.integer)) else "f"
        return Arr(Buf((), lambda: n, dt))
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            return stack_list(list(x))
        if x.size > 64:
            raise Unsupported("large concrete array")
        x = x.copy()
        dt = dtype_code(x.dtype)

        def fn(*ix):
            cs = [const_of(simp(i)) for i in ix]
            if all(c is not None for c in cs):
                c = tuple(int(c) for c in cs)
                if all(0 <= a < b for a, b in zip(c, x.shape)):
                    e = x[c]
                    return to_bool(bool(e)) if dt == "b" else conv(to_num(e.item()), dt)
            r = None
            for c in _np.ndindex(*x.shape):
                e = x[c]
                v = to_bool(bool(e)) if dt == "b" else conv(to_num(e.item()), dt)
                if r is None:
                    r = v
                else:
                    r = ite(Bool(z3.And(*[i == k for i, k in zip(ix, c)])), v, r)
            if r is None:
                return to_bool(False) if dt == "b" else conv(to_num(0), dt)
            return r
        return mk(x.shape, fn, dt)
    if isinstance(x, (list, tuple, range)):
        return stack_list(list(x))
    raise _NotArr()


def stack_list(xs):
    if not xs:
        return to_arr(_np.array([]))
    parts = [to_arr(x) for x in xs]
    sh = parts[0]._shape
    for p in parts[1:]:
        if len(p._shape) != len(sh) or not all(size_eq(a, b) for a, b in zip(p._shape, sh)):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    dts = {p.dt for p in parts}
    dt = "f" if "f" in dts else ("i" if "i" in dts else "b")
    rds = [p.reader() for p in parts]

    def fn(k, *ix):
        c = const_of(simp(k))
        if c is not None and 0 <= c < len(rds):
            return conv(rds[c](*ix), dt)
        r = conv(rds[-1](*ix), dt)
        for j in range(len(rds) - 2, -1, -1):
            r = ite(Bool(k == j), conv(rds[j](*ix), dt), r)
        return r
    return mk((len(xs),) + tuple(sh), fn, dt)


# ------------------------------------------------------------ broadcasting
def bcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            z = s[j]
            if size_is(z, 1):
                continue
            if size_is(cur, 1):
                cur = z
            elif size_eq(cur, z):
                pass
            else:
                # sizes differ on this path; a symbolic size may still be 1
                if not isinstance(z, (int, DomAx)) and bool(Bool(zint(z) == 1)):
                    continue
                if not isinstance(cur, (int, DomAx)) and bool(Bool(zint(cur) == 1)):
                    cur = z
                    continue
                raise ValueError("operands could not be broadcast together with shapes")
        out.append(cur)
    return tuple(out)


def bproj(shape, target):
    """index projection from target to an operand of the given shape"""
    off = len(target) - len(shape)
    plan = []
    for k, s in enumerate(shape):
        t = target[k + off]
        plan.append(None if (size_is(s, 1) and not size_is(t, 1)) or not _samesz(s, t) else k + off)

    def proj(ix):
        return tuple(z3.IntVal(0) if p is None else ix[p] for p in plan)
    return proj


def _samesz(s, t):
    if isinstance(s, DomAx) or isinstance(t, DomAx):
        return s is t
    if size_is(s, 1) and size_is(t, 1):
        return True
    # a size that is only equal to 1 on this path is projected to 0
    if isinstance(s, int):
        return s != 1
    if s is t or zint(s).eq(zint(t)):
        return True
    # equal by path condition (size_eq succeeded) or equal to one: indices agree either way only if equal
    c = ST.ctx
    if c is not None:
        return not _known_one(s)
    return True


def _known_one(s):
    c = ST.ctx
    return not c._feasible(zint(s) != 1)


def bcast_to(a, shape):
    s = bcast_shapes(a._shape, shape)
    if len(s) != len(shape) or not all(size_eq(x, y) for x, y in zip(s, shape)):
        # leading ones may be dropped on assignment
        ash = list(a._shape)
        while len(ash) > len(shape) and size_is(ash[0], 1):
            ash = ash[1:]
        if len(ash) == len(a._shape) or len(ash) > len(shape):
            raise ValueError("could not broadcast input array into shape")
        drop = len(a._shape) - len(ash)
        p = bproj(tuple(ash), shape)
        return lambda ix: (z3.IntVal(0),) * drop + p(ix)
    return bproj(a._shape, shape)


# ------------------------------------------------------------ index keys
def parse_key(arr, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # Ellipsis
    nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
    nb = 0
    for k in key:
        if isinstance(k, Arr) and k.dt == "b":
            nb += k.ndim - 1
        elif isinstance(k, _np.ndarray) and k.dtype == bool:
            nb += k.ndim - 1
    if Ellipsis in [k for k in key if not isinstance(k, (Arr, _np.ndarray, Num))]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (arr.ndim - nreal - nb)
    else:
        key += [slice(None)] * (arr.ndim - nreal - nb)
    if sum(1 for k in key if k is not None) + nb > arr.ndim:
        raise IndexError("too many indices for array")
    items = []
    adv = False
    ax = 0
    from .seqs import SSeq
    for k in key:
        if k is None:
            items.append(None)
            continue
        size = arr._shape[ax]
        if isinstance(k, SSeq):
            k = k.to_arr()
        if isinstance(k, (list, _np.ndarray)) or isinstance(k, range):
            k = to_arr(k)
        if isinstance(k, Arr):
            adv = True
            if k.dt == "b":
                for j in range(k.ndim):
                    if not size_eq(k._shape[j], arr._shape[ax + j]):
                        raise IndexError("boolean index did not match indexed array")
                for nz in nonzero(k):
                    items.append(("x", nz))
                ax += k.ndim
                continue
            if k.dt != "i":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            items.append(("x", k))
            ax += 1
            continue
        if isinstance(k, slice):
            items.append(parse_slice(k, size))
            ax += 1
            continue
        if isinstance(k, (Bool, bool)):
            raise Unsupported("boolean scalar index")
        # integer
        if isinstance(size, DomAx):
            raise NeedCompact()
        items.append(("i", int_index(k, size)))
        ax += 1
    return ("adv" if adv else "basic"), items


def int_index(k, size):
    if isinstance(k, Num):
        if not k.is_int:
            raise IndexError("only integers, slices... are valid indices")
        c = const_of(simp(k.v))
        if c is not None:
            k = int(c)
    if isinstance(k, float):
        raise IndexError("only integers are valid indices")
    if not isinstance(k, Num):
        k = k.__index__()
        if isinstance(size, int):
            if not -size <= k < size:
                raise IndexError("index out of bounds")
            return k % size if size else k
        check_bound(Bool(zint(size) > (k if k >= 0 else -k - 1)), "index in bounds")
        return k if k >= 0 else simp(zint(size) + k)
    z = zint(k)
    check_bound(Bool(z3.And(z < zint(size), z >= -zint(size))), "index in bounds")
    if _known_nonneg(z):
        return z
    return simp(z3.If(z < 0, z + zint(size), z))


def implied(cond):
    """cond follows from the path, the facts about the values at hand and the ranges of the bound indices"""
    c = ST.ctx
    if c is None:
        return False
    rs = [in_range(*((BOUND[b.get_id()][0], 0, BOUND[b.get_id()][1]))) for b in ST.scope if b.get_id() in BOUND]
    local = [f for k in ST.sinks if k is not c.sink for f in k.facts[-60:]] if c.pure or ST.scope else []
    return not c._feasible(z3.And(z3.Not(cond), *(rs + local)))


def _known_nonneg(z):
    return implied(z >= 0)


BOUND = {}      # id of a generic index -> (index, size)


def check_bound(cond, label):
    """index errors: fork and raise as numpy does (or a safety obligation inside parametric code)"""
    c = ST.ctx
    if c is None or c.spec_mode:
        return
    if c.pure:
        c.oblige(label, cond, kind="safety")
        return
    if not bool(cond):
        raise IndexError("index out of bounds")


def parse_slice(s, size):
    if isinstance(size, DomAx):
        if s == slice(None):
            return ("s", 0, 1, size)
        raise Unsupported("slice of a mask domain")
    step = 1 if s.step is None else s.step
    if isinstance(step, Num):
        step = int(step)
    if step not in (1, -1):
        if isinstance(size, int) and all(not isinstance(v, Num) for v in (s.start, s.stop)):
            st, sp, ste = s.indices(size)
            return ("s", st, ste, len(range(st, sp, ste)))
        raise Unsupported("slice step")
    if step == -1:
        if s.start is None and s.stop is None:
            return ("s", _addi(size if isinstance(size, int) else zint(size), -1), -1, size)
        raise Unsupported("reversed partial slice")

    def bound(v, dflt):
        if v is None:
            return dflt
        if isinstance(v, Num) or not isinstance(size, int):
            vz, sz = zint(v), zint(size)
            if isinstance(v, int) and v < 0:
                vz = sz + v
                lo = simp(z3.If(vz < 0, z3.IntVal(0), vz))
                return _simp_known(lo, vz, vz >= 0)
            if isinstance(v, int) and v == 0:
                return 0
            e = z3.If(vz < 0, z3.If(sz + vz < 0, z3.IntVal(0), sz + vz), z3.If(vz > sz, sz, vz))
            return _simp_known(e, vz, z3.And(vz >= 0, vz <= sz))
        v = v.__index__()
        return max(0, size + v) if v < 0 else min(v, size)
    a = bound(s.start, 0)
    b = bound(s.stop, size if isinstance(size, int) else zint(size))
    if isinstance(a, int) and isinstance(b, int):
        return ("s", a, 1, max(0, b - a))
    ln = simp(zint(b) - zint(a))
    c = ST.ctx
    if c is not None and not c.pure and c._feasible(ln < 0):
        ln = simp(z3.If(ln < 0, z3.IntVal(0), ln))
    return ("s", a, 1, norm_size(Num(ln)))


def _simp_known(e, v, cond):
    if implied(cond):
        return simp(v)
    return simp(e)


def compact(a):
    """array over one-dimensional mask domains as an array indexed by rank"""
    if not any(isinstance(z, DomAx) for z in a._shape):
        return a
    if any(isinstance(z, DomAx) and len(z.sizes) != 1 for z in a._shape):
        raise Unsupported("rank access to a multi-dimensional selection")
    rd = a.reader()
    doms = list(a._shape)
    cnts = [norm_size(z.count()) if isinstance(z, DomAx) else z for z in doms]

    def el(*ix):
        s = sink()
        out = []
        for z, cnt, r in zip(doms, cnts, ix):
            if not isinstance(z, DomAx):
                out.append(r)
                continue
            en, rk = z.enum()
            t = en(r)
            n = z.sizes[0]
            reg(t, n)
            z.count()
            s.fact(z3.Implies(in_range(r, 0, cnt), z3.And(in_range(t, 0, n), GR.ground(toF(z.mask(t)), True))))

            def inv(x, z=z, cnt=cnt, en=en, rk=rk):
                q = rk(x)
                reg(q, cnt)
                return fimp(toF(z.mask(x)), fz(z3.And(in_range(q, 0, cnt), en(q) == x)))
            if not s.seen("enum", (id(z), scope_key())):
                s.qfact(Q([(0, n, key_of(n))], inv, name="enum"))
            out.append((t,))
        v = rd(*out)
        if nn and isinstance(v, Num):
            v = Num(v.v, v.k, v.np, True)
        return v
    nn = a.nonneg or getattr(a, "nz", None) is not None
    r = mk(cnts, memo(el), a.dt)
    r.nonneg = nn
    return r


# ------------------------------------------------------------ gather/scatter
def intern_dom(a, dom):
    """the same selection computed twice is the same domain"""
    c = ST.ctx
    if c is None:
        return dom
    tab = c.ghost.setdefault("doms", [])
    cst = [z3.Int("dom!%d" % k) for k in range(len(dom.sizes))]
    with capture():
        f = toF(dom.mask(*cst))
    sig = simp(f.a) if f.op == "z3" and not ST.scope else None
    key = (id(a.buf), a.buf.version, str(a.axes))
    for d, s2, k2, b2 in tab:
        if len(d.sizes) == len(dom.sizes) and all(size_same(x, y) for x, y in zip(d.sizes, dom.sizes)):
            if k2 == key or sig is not None and s2 is not None and sig.eq(s2):
                return d
    tab.append((dom, sig, key, a.buf))
    return dom


def nonzero(a):
    if not isinstance(a, Arr):
        a = to_arr(a)
    if any(isinstance(s, DomAx) for s in a._shape):
        raise Unsupported("nonzero of a masked array")
    rd = a.reader()
    dom = intern_dom(a, DomAx(lambda *ix: to_bool(rd(*ix)), a._shape))
    out = []
    for k in range(a.ndim):
        arr = mk((dom,), (lambda k: lambda t: Num(t[k]))(k), "i")
        arr.nz = (dom, k)
        out.append(arr)
    return tuple(out)


def _split(items):
    """normalise advanced keys: list of (kind, payload) per source axis; slices/ints/newaxis"""
    xs = [(p, it) for p, it in enumerate(items) if it is not None and it[0] == "x"]
    return xs


def _check_idx_range(arrs, sizes, bshape, projs):
    c = ST.ctx
    if c is None or c.spec_mode:
        return
    for a, s, pr in zip(arrs, sizes, projs):
        nz = getattr(a, "nz", None)
        if nz is not None and size_same(nz[0].sizes[nz[1]], s):
            continue
        if any(isinstance(z, DomAx) for z in a._shape):
            dom = [z for z in a._shape if isinstance(z, DomAx)]
            raise Unsupported("indices computed from mask domains")
        rd = a.reader()
        c.oblige("index array within bounds",
                 forall(a._shape, lambda *ix, rd=rd, s=s: Bool(z3.And(zint(rd(*ix)) < zint(s), zint(rd(*ix)) >= -zint(s)))),
                 kind="safety")


def _wrapneg(z, s, a):
    if getattr(a, "nz", None) is not None or getattr(a, "nonneg", False):
        return z
    cst = const_of(simp(z))
    if cst is not None:
        return z if cst >= 0 else simp(z + zint(s))
    return z3.If(z < 0, z + zint(s), z)


def adv_plan(arr, items):
    """shape and index map of arr[items] with advanced parts.
    returns (result_shape, fn(ix)->source index, adv arrays, adv shape, position)"""
    # scalars ints among advanced keys broadcast with them
    advpos, arrs, sizes = [], [], []
    ax = 0
    src = []          # per source axis
    layout = []       # result layout entries in order: ('n',) newaxis / ('s', srcaxis) / ('x', idx)
    for it in items:
        if it is None:
            layout.append(("n",))
            continue
        if it[0] == "x":
            advpos.append(len(layout))
            arrs.append(it[1])
            sizes.append(arr._shape[ax])
            layout.append(("x", len(arrs) - 1))
            src.append(("x", len(arrs) - 1))
        elif it[0] == "i":
            a0 = to_arr(Num(it[1]) if not isinstance(it[1], int) else it[1])
            a0.nonneg = True
            advpos.append(len(layout))
            arrs.append(a0)
            sizes.append(arr._shape[ax])
            layout.append(("x", len(arrs) - 1))
            src.append(("x", len(arrs) - 1))
        else:
            layout.append(("s", it))
            src.append(("s", it))
        ax += 1
    bshape = bcast_shapes(*[a._shape for a in arrs])
    projs = [bproj(a._shape, bshape) for a in arrs]
    contiguous = advpos == list(range(advpos[0], advpos[0] + len(advpos)))
    where = advpos[0] if contiguous else 0
    rshape = []
    pos_of = {}
    if not contiguous:
        pos_of["x"] = 0
        rshape.extend(bshape)
    sidx = 0
    slots = []
    for p, l in enumerate(layout):
        if l[0] == "x":
            if contiguous and p == where:
                pos_of["x"] = len(rshape)
                rshape.extend(bshape)
            continue
        if l[0] == "n":
            rshape.append(1)
            continue
        slots.append(len(rshape))
        rshape.append(l[1][3])
    rds = [a.reader() for a in arrs]

    def index(ix):
        xi = tuple(ix[pos_of["x"]:pos_of["x"] + len(bshape)])
        out, si = [], 0
        for s in src:
            if s[0] == "x":
                j = s[1]
                z = zint(rds[j](*projs[j](xi)))
                z = _wrapneg(z, sizes[j], arrs[j])
                out.append(z)
            else:
                _, st, sp, sz = s[1]
                t = ix[slots[si]]
                si += 1
                out.append(t if _is0(st) and sp == 1 else simp(zint(st) + sp * t))
        return tuple(out)
    _check_idx_range(arrs, sizes, bshape, projs)
    return tuple(rshape), index, arrs, bshape, pos_of["x"], src, slots


def gather(arr, items):
    rshape, index, arrs, bshape, xpos, src, slots = adv_plan(arr, items)
    rd = arr.reader()
    shape = arr._shape

    def fn(*ix):
        t = index(ix)
        for i, s in zip(t, shape):
            reg(i, s)
        return rd(*t)
    if not rshape:
        return fn()
    r = mk(rshape, fn, arr.dt)
    return r


def scatter(arr, items, val):
    if arr.axes is not None and not all(a[0] == "a" and _is0(a[2]) and a[3] == 1 and a[1] == k for k, a in enumerate(arr.axes)):
        raise Unsupported("advanced assignment through a view")
    rshape, index, arrs, bshape, xpos, src, slots = adv_plan(arr, items)
    v = to_arr(val)
    proj = bcast_to(v, rshape)
    vrd = v.reader()
    old = arr.buf.fn
    dt = arr.buf.dtype
    nzs = [getattr(a, "nz", None) for a in arrs]
    plain_slices = all(s[0] == "x" or (_is0(s[1][1]) and s[1][2] == 1 and size_same(s[1][3], arr._shape[k]))
                       for k, s in enumerate(src))
    if not plain_slices:
        raise Unsupported("advanced assignment with partial slices")
    doms = {id(n[0]) for n in nzs if n is not None}

    def rix(xi, b):
        """result index from adv index xi and buffer index b"""
        r = [None] * len(rshape)
        r[xpos:xpos + len(bshape)] = list(xi)
        sl = iter(slots)
        for k, s in enumerate(src):
            if s[0] == "s":
                r[next(sl)] = b[k]
        return tuple(z3.IntVal(0) if t is None else t for t in r)

    if len(doms) == 1 and all(n is not None for n in nzs) and len(bshape) == 1:
        dom = nzs[0][0]
        comps = [n[1] for n in nzs]
        axes_of = [k for k, s in enumerate(src) if s[0] == "x"]
        if sorted(comps) == list(range(len(dom.sizes))):
            def new(*b):
                t = [None] * len(dom.sizes)
                for a, c in zip(axes_of, comps):
                    t[c] = b[a]
                m = dom.mask(*t)
                return ite(m, conv(vrd(*proj(rix((tuple(t),), b))), dt), old(*b))
            arr.buf.write(memo(new))
            return
        # some components of the domain are not used: several writes to one element, the last wins
        miss = [c for c in range(len(dom.sizes)) if c not in comps]
        if len(set(comps)) != len(comps):
            raise Unsupported("repeated domain component")
        nk = len(dom.sizes)
        last = [fresh_fun("last", len(comps), "i") for _ in miss]

        def full(b, lasts):
            t = [None] * nk
            for a, c in zip(axes_of, comps):
                t[c] = b[a]
            for c, l in zip(miss, lasts):
                t[c] = l
            return tuple(t)

        def new(*b):
            key = [b[a] for a in axes_of]
            ls = [f(*key) for f in last]
            t = full(b, ls)
            hit = fresh_bool("hit")
            s = sink()
            rng = [in_range(l, 0, dom.sizes[c]) for l, c in zip(ls, miss)]
            s.fact(z3.Implies(hit, z3.And(*(rng + [bool_z(dom.mask(*t))]))))
            # nobody later in the domain / nobody at all
            def noone(*js):
                u = full(b, js)
                later = lex_gt(js, ls)
                return fand(fimp(fz(z3.And(hit, later)), fnot(toF(dom.mask(*u)))),
                            fimp(fz(z3.Not(hit)), fnot(toF(dom.mask(*u)))))
            s.qfact(Q([(0, dom.sizes[c], key_of(dom.sizes[c])) for c in miss], noone))
            for l, c in zip(ls, miss):
                s.term(key_of(dom.sizes[c]), l)
            return ite(Bool(hit), conv(vrd(*proj(rix((t,), b))), dt), old(*b))
        arr.buf.write(memo(new))
        return
    if any(n is not None for n in nzs):
        raise Unsupported("mixed advanced assignment")
    # general integer arrays: element written if some s maps to it
    const_val = all(size_is(z, 1) for z in v._shape[-len(rshape):]) if v._shape else True
    axes_of = [k for k, s in enumerate(src) if s[0] == "x"]
    if not bshape:
        # only scalars
        t0 = index(tuple([z3.IntVal(0)] * len(rshape)))

        def new(*b):
            c = [b[k] == t0[k] for k in axes_of]
            return ite(Bool(z3.And(*c)), conv(vrd(*proj(rix((), b))), dt), old(*b))
        arr.buf.write(memo(new))
        return
    # identity on one axis (arange) with one index per row
    ws = [fresh_fun("wr", len(axes_of), "i") for _ in bshape]
    hitf = fresh_fun("hit", len(axes_of), "b")

    def target(xi):
        full = index(rix(xi, [z3.IntVal(0)] * len(src)))
        return [full[k] for k in axes_of]
    if not const_val:
        # value may depend on the writer: require uniqueness by identity axis
        raise Unsupported("advanced assignment with varying values")

    def hit_facts(key):
        s = sink()
        h = hitf(*key)
        w = tuple(f(*key) for f in ws)
        tgt = target(w)
        s.fact(z3.Implies(h, z3.And(*([in_range(x, 0, z) for x, z in zip(w, bshape)] +
                                      [a == b_ for a, b_ in zip(tgt, key)]))))
        for x, z in zip(w, bshape):
            s.term(key_of(z), x)

        def none(*xi):
            tg = target(xi)
            return Bool(z3.Implies(z3.And(*[a == b_ for a, b_ in zip(tg, key)]), h))
        s.qfact(Q([(0, z, key_of(z)) for z in bshape], none))
        return h

    def new(*b):
        key = [b[k] for k in axes_of]
        h = hit_facts(key)
        return ite(Bool(h), conv(vrd(*proj(rix(tuple([z3.IntVal(0)] * len(bshape)), b))), dt), old(*b))
    arr.buf.write(memo(new))


def lex_gt(a, b):
    if not a:
        return z3.BoolVal(False)
    return z3.Or(a[0] > b[0], z3.And(a[0] == b[0], lex_gt(a[1:], b[1:])))
