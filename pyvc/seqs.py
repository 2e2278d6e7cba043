"""Symbolic sequences: ranges, lists of symbolic length, generic comprehension results, bounded deques."""
from . import core as _core0
import z3
from .core import *
from .arrays import *


class SSeq:
    """immutable sequence of symbolic length; item(i) for an Int term i"""
    _vc_sym = True
    pytype = list

    def __init__(self, n, item, pytype=list):
        self.n = norm_size(n)
        self._item = item
        self.pytype = pytype

    def item(self, i):
        i = zint(i)
        reg(i, self.n)
        return self._item(i)

    def vc_len(self):
        return size_num(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("slice step of a symbolic sequence")
            _, a, _, n = parse_slice(i, self.n)
            return SSeq(n, lambda k: self._item(simp(zint(a) + k)), self.pytype)
        if isinstance(i, tuple) or isinstance(i, Arr):
            raise TypeError("list indices must be integers or slices")
        return self.item(int_index(i, self.n))

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.item(k) for k in range(self.n)])
        raise Unsupported("iteration over a symbolic sequence")

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len of a symbolic sequence outside of the len shim")

    def __bool__(self):
        return bool(self.vc_len() != 0) if not isinstance(self.n, int) else self.n != 0

    def to_arr(self):
        probe = fresh_int("sq")
        with capture():
            e = self._item(probe)
        if isinstance(e, (Num, Bool, int, float)):
            dt = "b" if isinstance(e, (Bool, bool)) else ("i" if to_num(e).is_int else "f")
            it = self._item
            r = mk((self.n,), lambda i: conv(it(i), dt), dt)
            r.nonneg = isinstance(e, Num) and e.nn
            return r
        a = to_arr(e)
        for s in a._shape:
            if not isinstance(s, int) and _mentions(zint(s), probe):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        it = self._item
        dt = a.dt
        r = mk((self.n,) + tuple(a._shape), lambda i, *ix: conv(to_arr(it(i)).reader()(*ix), dt), dt)
        r.nonneg = getattr(e, "nonneg", False)
        return r

    def index(self, v):
        raise Unsupported("index of a symbolic sequence")

    def __add__(self, o):
        raise Unsupported("concatenation of symbolic sequences")

    def __getattr__(self, n):
        if n.startswith("_vc") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("attribute %s of a symbolic sequence" % n)

    def __format__(self, s):
        return "<sym seq>"


def _mentions(e, c):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        st.extend(x.children())
    return False


class SRange(SSeq):
    pytype = range

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        n = norm_size(to_num(hi) - to_num(lo))
        if not isinstance(n, int):
            c = ST.ctx
            if c is not None and not c.pure and c._feasible(zint(n) < 0):
                n = 0 if not bool(Bool(zint(n) >= 0)) else n
        elif n < 0:
            n = 0
        super().__init__(n, lambda i: Num(i) + lo if not (isinstance(lo, int) and lo == 0) else Num(i), range)


class SProd(SSeq):
    """itertools.product of finitely many sequences; enumerated by index tuples"""

    def __init__(self, seqs):
        self.seqs = seqs
        n = Num(1)
        for s in seqs:
            n = arith("mul", n, to_num(seq_len(s)))
        self.n = norm_size(n)
        self.pytype = list
        uid = fresh_int("prod").decl().name()
        self.fs = [z3.Function("%s_%d" % (uid, j), z3.IntSort(), z3.IntSort()) for j in range(len(seqs))]
        self.g = z3.Function(uid + "_inv", *([z3.IntSort()] * (len(seqs) + 1)))
        if ST.ctx is not None:
            ST.ctx.events.append(("product", self))

    def _item(self, i):
        s = sink()
        ix = []
        conds = []
        for f, q in zip(self.fs, self.seqs):
            k = f(i)
            conds.append(in_range(k, 0, seq_len(q)))
            s.term(key_of(norm_size(seq_len(q))), k)
            ix.append(k)
        conds.append(self.g(*ix) == i)
        s.fact(z3.Implies(in_range(i, 0, self.n), z3.And(*conds)))
        return tuple(seq_item(q, k) for q, k in zip(self.seqs, ix))

    def rank(self, ix):
        """position of an index tuple"""
        g = self.g(*ix)
        s = sink()
        s.fact(z3.Implies(z3.And(*[in_range(k, 0, seq_len(q)) for k, q in zip(ix, self.seqs)]),
                          z3.And(*([in_range(g, 0, self.n)] + [f(g) == k for f, k in zip(self.fs, ix)]))))
        s.term(key_of(self.n), g)
        return g


def seq_len(s):
    if hasattr(s, "vc_len"):
        return s.vc_len()
    return len(s)


def seq_item(s, k):
    """element at an Int term"""
    if isinstance(s, SSeq):
        return s.item(k)
    if isinstance(s, Arr):
        return s[Num(k)] if not ST.ctx or not ST.ctx.pure else s._view([("i", k)] + [("s", 0, 1, z) for z in s._shape[1:]])
    c = const_of(simp(zint(k)))
    if c is not None:
        return s[int(c)]
    xs = list(s)
    if len(xs) == 1:
        return xs[0]
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = ite(Bool(zint(k) == j), xs[j], r)
    return r


class SplitSeq(SSeq):
    """numpy.array_split(a, n): n consecutive blocks covering a"""

    def __init__(self, a, n):
        self.a = a.copy()
        nz = zint(n)
        m = a._shape[0]
        off = fresh_fun("off", 1, "i")
        self.off = off
        self.split_of = self.a
        mz = zint(m)
        q, r = mz / nz, mz % nz
        s = sink()
        s.fact(z3.Implies(nz >= 1, z3.And(off(z3.IntVal(0)) == 0, off(nz) == mz)))
        rd = self.a.reader()
        self.m = m

        def item(k):
            self.law(k)
            ln = norm_size(Num(simp(off(k + 1) - off(k))))
            sh = (ln,) + tuple(a._shape[1:])
            o = off(k)
            b = mk(sh, lambda *ix: rd(*((simp(o + ix[0]),) + tuple(ix[1:]))), a.dt)
            b.block = (self, k)
            return b
        super().__init__(n, item)
        # which block an index belongs to
        self.blk = fresh_fun("blk", 1, "i")

    def law(self, k):
        s = sink()
        off = self.off
        s.fact(z3.Implies(in_range(k, 0, self.n), z3.And(off(k) >= 0, off(k) <= off(k + 1), off(k + 1) <= zint(self.m))))

    def locate(self, i):
        """block of row i"""
        k = self.blk(i)
        s = sink()
        s.fact(z3.Implies(in_range(i, 0, self.m), z3.And(in_range(k, 0, self.n), self.off(k) <= i, i < self.off(k + 1))))
        s.term(key_of(self.n), k)
        self.law(k)
        return k

    def concat(self):
        return self.a.copy()


class MappedSplit(SSeq):
    """pool.map(f, array_split(a, n))"""

    def __init__(self, split, results):
        self.split = split
        self.results = results
        self.split_of = True
        super().__init__(split.n, results)

    def concat(self):
        sp = self.split
        probe = fresh_int("blk")
        with capture():
            e = to_arr(self.results(probe))
        # every block must produce one row per input row
        ob = lambda k: Bool(zint(to_arr(self.results(k))._shape[0]) == sp.off(k + 1) - sp.off(k))
        c = ST.ctx
        if c is not None:
            c.oblige("each block yields one result per row", forall([sp.n], ob), kind="pre")
        res = self.results

        def el(i, *ix):
            k = sp.locate(i)
            b = to_arr(res(k))
            return b.reader()(simp(i - sp.off(k)), *ix)
        return mk((sp.m,) + tuple(e._shape[1:]), el, e.dt)


class SList:
    """mutable Python list of symbolic length: old part (symbolic) + appended concrete tail"""
    _vc_sym = True
    pytype = list

    def __init__(self, n0, old, name=""):
        self.n0, self.old, self.tail, self.name = norm_size(n0), old, [], name
        self.foreign = False
        self.root = self

    def append(self, v):
        if ST.ctx is not None and ST.ctx.pure:
            raise Unsupported("append in a parametric expression")
        self.tail.append(v)

    def copy(self):
        """a new list whose old part is that of the same ancestor"""
        r = SList(self.n0, self.old, self.name)
        r.tail, r.root = list(self.tail), self.root
        return r

    def __add__(self, xs):
        if not isinstance(xs, (list, SList)) or isinstance(xs, SList) and xs.n0 != 0:
            raise Unsupported("concatenation of symbolic lists")
        r = self.copy()
        r.tail += xs.tail if isinstance(xs, SList) else xs
        return r

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def vc_len(self):
        return size_num(self.n0) + len(self.tail)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def item(self, i):
        n0 = zint(self.n0)
        k = const_of(simp(zint(i) - n0))
        if k is not None and 0 <= k < len(self.tail):
            return self.tail[int(k)]
        if not self.tail:
            return self.old(zint(i))
        raise Unsupported("symbolic index into a growing list")

    def __getitem__(self, i):
        if isinstance(i, int) and i < 0 and -i <= len(self.tail):
            return self.tail[i]
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic list")
        return self.item(int_index(i, norm_size(self.vc_len())))

    def __bool__(self):
        return bool(to_num(self.vc_len()) > 0)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list")

    def __getattr__(self, n):
        if n.startswith("_vc") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("list method %s" % n)


class SDeque:
    """collections.deque(maxlen=m): the window of the last min(len, m) appended values.
    Appended values are tracked as a list of all values ever appended."""
    _vc_sym = True

    def __init__(self, maxlen, n0=0, old=None, tail=()):
        self.maxlen = maxlen
        self.n0, self.old = norm_size(n0), old
        self.tail = list(tail)

    def append(self, v):
        if ST.ctx is not None and ST.ctx.pure:
            raise Unsupported("append in a parametric expression")
        self.tail.append(v)

    def total(self):
        return to_num(size_num(self.n0)) + len(self.tail)

    def vc_len(self):
        return smin(self.total(), to_num(self.maxlen)) if self.maxlen is not None else self.total()

    def value(self, i):
        """i-th value ever appended (Int term)"""
        n0 = zint(self.n0)
        r = None
        for j, v in enumerate(self.tail):
            r = (j, v) if r is None else r
        v = self.old(i) if self.old is not None else None
        for j in range(len(self.tail)):
            v = self.tail[j] if v is None else ite(Bool(i == n0 + j), to_b(self.tail[j]), to_b(v))
        return v

    def window(self):
        """(lo, hi) of the positions kept"""
        t = zint(self.total())
        if self.maxlen is None:
            return z3.IntVal(0), t
        m = zint(self.maxlen)
        return z3.If(t - m > 0, t - m, z3.IntVal(0)), t

    def all_(self):
        lo, hi = self.window()
        return Bool(forall_range([(lo, hi, "deque")], lambda i: toF(to_bool(self.value(i)))))

    def any_(self):
        return Bool(fnot(forall_range([(*self.window(), "deque")], lambda i: fnot(toF(to_bool(self.value(i)))))))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic deque")

    def __bool__(self):
        return bool(self.vc_len() > 0)

    def __getattr__(self, n):
        if n.startswith("_vc") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("deque method %s" % n)


def to_b(x):
    return x if isinstance(x, (Bool, bool)) else to_bool(x)


# --------------------------------------------------- generic element substitution
def subst_val(v, b, t):
    """value v (built for the bound index b) at index t"""
    if b.eq(t):
        return v
    if isinstance(v, Num):
        return type(v)(z3.substitute(v.v, (b, t)), v.k if isinstance(v.k, int) else z3.substitute(v.k, (b, t)), v.np, v.nn)
    if isinstance(v, Bool):
        return Bool(z3.substitute(bool_z(v), (b, t)))
    if isinstance(v, Arr):
        rd = v.reader()

        def sub_size(s):
            if isinstance(s, int):
                return s
            if isinstance(s, DomAx):
                d = DomAx(with_subst(s.mask, b, t), [sub_size(z) for z in s.sizes])
                d.parent = (s, b, t)
                return d
            return norm_size(Num(simp(z3.substitute(zint(s), (b, t)))))
        memo_dom = {}

        def ss(s):
            if isinstance(s, DomAx):
                k = (id(s), t.get_id())
                if k not in _DOMS:
                    _DOMS[k] = (sub_size(s), s, t)
                return _DOMS[k][0]
            return sub_size(s)
        r = mk([ss(s) for s in v._shape], with_subst(rd, b, t), v.dt)
        for a in ("nonneg", "distinct"):
            if getattr(v, a, False):
                setattr(r, a, True)
        nz = getattr(v, "nz", None)
        if nz is not None:
            r.nz = (ss(nz[0]), nz[1])
        return r
    if isinstance(v, (tuple, list)):
        return type(v)(subst_val(x, b, t) for x in v)
    if isinstance(v, dict):
        return {k: subst_val(x, b, t) for k, x in v.items()}
    if isinstance(v, SSeq):
        return SSeq(v.n if isinstance(v.n, int) else Num(z3.substitute(zint(v.n), (b, t))), with_subst(v._item, b, t))
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    raise Unsupported("value %s in a parametric expression" % type(v))


_DOMS = {}


def with_subst(fn, b, t):
    """call fn at index terms, with everything it emits and returns substituted b -> t.
    The other index arguments may contain t; they are renamed apart first."""
    def g(*ix):
        with capture() as cs, in_scope(b):
            v = fn(*ix)
        replay_subst(cs, b, t)
        return subst_val(v, b, t)
    return g


def replay_subst(cs, b, t):
    s = sink()
    for f in cs.facts:
        s.fact(z3.substitute(f, (b, t)))
    for k, x in cs.terms:
        s.term(subst_key(k, b, t), z3.substitute(x, (b, t)))
    for q in cs.qfacts:
        key = (id(q), b.get_id(), t.get_id())
        if key not in _QS:
            rs = [(lo if isinstance(lo, int) else Num(z3.substitute(zint(lo), (b, t))),
                   hi if isinstance(hi, (int,)) else Num(z3.substitute(zint(hi), (b, t))), subst_key(k, b, t)) for lo, hi, k in q.ranges]
            body = q.body
            _QS[key] = (Q(rs, with_substF(body, b, t), None if q.guard is None else z3.substitute(q.guard, (b, t)), q.name), q, b, t)
        s.qfact(_QS[key][0])


_QS = {}


def substF(f, b, t):
    """formula with b -> t, quantifier structure kept"""
    f = toF(f)
    if f.op == "z3":
        return fz(z3.substitute(f.a, (b, t)))
    if f.op == "not":
        return fnot(substF(f.a, b, t))
    if f.op in ("and", "or"):
        return (fand if f.op == "and" else for_)(*[substF(x, b, t) for x in f.a])
    if f.op == "iff":
        return fiff(substF(f.a, b, t), substF(f.b, b, t))
    rs = [(lo if isinstance(lo, int) else Num(z3.substitute(zint(lo), (b, t))),
           hi if isinstance(hi, int) else Num(z3.substitute(zint(hi), (b, t))), subst_key(k, b, t)) for lo, hi, k in f.a]
    return F(f.op, rs, with_substF(f.b, b, t))


class in_scope:
    def __init__(self, b):
        self.b = b

    def __enter__(self):
        self.old = ST.scope
        if not any(x.eq(self.b) for x in ST.scope):
            ST.scope = ST.scope + [self.b]

    def __exit__(self, *a):
        ST.scope = self.old
        return False


def with_substF(body, b, t):
    def g(*ix):
        with capture() as cs, in_scope(b):
            f = toF(body(*ix))
        replay_subst(cs, b, t)
        return substF(f, b, t)
    return g


class Param:
    """evaluation at a generic index 0 <= b < n: enter(), evaluate at self.b, then seq(value)"""

    def __init__(self, n):
        self.n = n

    def enter(self):
        c = self.c = ST.ctx
        self.b = b = z3.Int(fresh_int("ix").decl().name() + "b")
        self.key = key_of(norm_size(self.n))
        BOUND[b.get_id()] = (b, norm_size(self.n))
        ST.scope = ST.scope + [b]
        if c is not None:
            c.pure += 1
        self.ndraws = len(c.draws) if c is not None else 0
        self.nob = len(c.obligations) if c is not None else 0
        self.cap = capture()
        self.cs = self.cap.__enter__()
        sink().term(self.key, b)
        return b

    def leave(self):
        self.cap.__exit__(None, None, None)
        ST.scope = ST.scope[:-1]
        if self.c is not None:
            self.c.pure -= 1

    def failed(self):
        """an exception at the generic index: the loop raises only if there is an iteration"""
        c = self.c
        if c is not None and c._feasible(zint(size_num(self.n)) <= 0):
            raise Unsupported("exception in a loop that may have no iteration")

    def settle(self):
        # obligations raised inside hold for the generic index: generalise them
        c, b, cs = self.c, self.b, self.cs
        if c is None:
            return
        for ob in c.obligations[self.nob:]:
            g0 = ob.goal
            ob.goal = F("forall", [(0, self.n, self.key)], (lambda cs, g0: lambda t: _gen_goal(cs, g0, b, t))(cs, g0))
        for d in range(self.ndraws, len(c.draws)):
            c.draws[d] = ("param", (self.n, b), c.draws[d])

    def items(self, v):
        b, cs = self.b, self.cs
        cache = {}

        def item_m(t):
            k = (t.get_id(), scope_key())
            if k not in cache:
                with capture() as c2:
                    replay_subst(cs, b, t)
                    r = subst_val(v, b, t)
                cache[k] = (r, c2, t)
            replay(cache[k][1])
            return cache[k][0]
        return item_m


def parametric(n, fn):
    """SSeq of fn(i) for 0 <= i < n, evaluated once at a generic index"""
    p = Param(n)
    b = p.enter()
    try:
        v = fn(b)
    except Unsupported:
        p.leave()
        raise
    except Exception:
        p.leave()
        p.failed()
        raise
    except BaseException:
        p.leave()
        raise
    p.leave()
    p.settle()
    s = SSeq(n, p.items(v))
    s.generic = (b, v, p.cs)
    return s


def _gen_goal(cs, g0, b, t):
    replay_subst(cs, b, t)
    with capture() as c2, in_scope(b):
        f = toF(g0)
    replay_subst(c2, b, t)
    return substF(f, b, t)
