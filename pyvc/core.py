"""Core of the verifier: formulas, extended reals, path conditions, path exploration.

Numbers are extended reals: a mathematical value plus a kind (finite, +inf, -inf, NaN).
Rounding and overflow of IEEE arithmetic are not modelled (listed as an assumption).
"""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from fractions import Fraction

FIN, PINF, NINF, NAN = 0, 1, 2, 3


class VCControl(BaseException):
    """Engine control flow; never caught by `except Exception` in the code under verification."""


class Unsupported(VCControl):
    """The code left the subset the verifier understands."""


class PathEnd(VCControl):
    """This path is finished (end of an arbitrary loop iteration)."""


class Infeasible(VCControl):
    """Assumptions on this path are contradictory."""


# --------------------------------------------------------------------- sinks
class Sink:
    """Collects definitional facts, universally quantified facts and index terms."""

    def __init__(self, parent=None):
        self.facts, self.qfacts, self.terms = [], [], []
        self._seen = set()
        self.parent = parent

    def seen(self, tag, key):
        s = self
        while s is not None:
            if (tag, key) in s._seen:
                return True
            s = s.parent
        self._seen.add((tag, key))
        return False

    def fact(self, f):
        if z3.is_true(f):
            return
        if not self.seen("f", f.get_id()):
            self.facts.append(f)

    def qfact(self, q):
        if not self.seen("q", id(q)):
            self.qfacts.append(q)

    def term(self, key, t):
        if not self.seen("t", (key, t.get_id())):
            self.terms.append((key, t))


class _State:
    sinks = []
    ctx = None
    scope = []          # parametric scope: bound Int constants
    elem = 0            # evaluating an array element
    clock = 0           # number of array writes so far
    view = None         # evaluate array reads as of this time (formulas are evaluated later than they are written down)


ST = _State()


def viewed(fn):
    """fn, with array elements read as they are now"""
    t = ST.clock if ST.view is None else ST.view

    def g(*a):
        old = ST.view
        if old is None and ST.clock == t:
            return fn(*a)
        ST.view = t
        try:
            return fn(*a)
        finally:
            ST.view = old
    g.vc_code = code_of(fn)
    return g


def code_of(fn):
    return getattr(fn, "vc_code", None) or getattr(fn, "__code__", None)


def sink():
    return ST.sinks[-1] if ST.sinks else _null


def scope_key():
    return tuple(b.get_id() for b in ST.scope)


_null = Sink()


class capture:
    """Capture everything emitted, so that a memoised value can replay it."""

    def __enter__(self):
        self.s = Sink()
        ST.sinks.append(self.s)
        return self.s

    def __exit__(self, *a):
        ST.sinks.pop()
        return False


def replay(s):
    k = sink()
    for f in s.facts:
        k.fact(f)
    for q in s.qfacts:
        k.qfact(q)
    for t in s.terms:
        k.term(*t)


# ------------------------------------------------------------ z3 convenience
def simp(e):
    return z3.simplify(e)


def zint(x):
    if isinstance(x, Num):
        if x.k is not FIN and not (isinstance(x.k, int) and x.k == 0):
            raise Unsupported("non-finite integer")
        x = x.v
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        if x.is_int():
            return x
        return z3.ToInt(x)
    if hasattr(x, "__index__"):
        return z3.IntVal(x.__index__())
    raise Unsupported("not an integer: %r" % (x,))


def zreal(e):
    if isinstance(e, (int, Fraction)):
        return z3.RealVal(str(e) if isinstance(e, int) else "%d/%d" % (e.numerator, e.denominator))
    if e.is_int():
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def const_of(e):
    """python number if the term is a literal"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


# ------------------------------------------------------------------ formulas
class F:
    """Formula node: op in z3/and/or/not/forall/exists/lazy"""
    __slots__ = ("op", "a", "b", "neg")

    def __init__(self, op, a, b=None):
        if op == "forall" or op == "exists":
            b = viewed(b)
        self.op, self.a, self.b = op, a, b


TRUE = F("z3", z3.BoolVal(True))
FALSE = F("z3", z3.BoolVal(False))


def fz(e):
    return F("z3", e)


def is_true(f):
    return f.op == "z3" and z3.is_true(f.a)


def is_false(f):
    return f.op == "z3" and z3.is_false(f.a)


def fand(*fs):
    out = []
    for f in fs:
        f = toF(f)
        if is_true(f):
            continue
        if is_false(f):
            return FALSE
        if f.op == "and":
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    if all(f.op == "z3" for f in out):
        return fz(z3.And(*[f.a for f in out]))
    return F("and", out)


def for_(*fs):
    out = []
    for f in fs:
        f = toF(f)
        if is_false(f):
            continue
        if is_true(f):
            return TRUE
        if f.op == "or":
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    if all(f.op == "z3" for f in out):
        return fz(z3.Or(*[f.a for f in out]))
    return F("or", out)


def fnot(f):
    f = toF(f)
    if f.op == "z3":
        if z3.is_true(f.a):
            return FALSE
        if z3.is_false(f.a):
            return TRUE
        return fz(z3.Not(f.a))
    if f.op == "not":
        return f.a
    return F("not", f)


def fimp(a, b):
    return for_(fnot(a), b)


class Q:
    """Universally quantified fact: for all vars in their ranges, (guard ->) body.
    ranges: list of (lo, hi, key); key selects candidate instantiation terms."""
    __slots__ = ("ranges", "body", "guard", "name", "src")

    def __init__(self, ranges, body, guard=None, name="", src=None):
        self.ranges, self.body, self.guard, self.name = ranges, viewed(body), guard, name
        self.src = src if src is not None else code_of(body)


def key_of(size):
    """instantiation key of an index range [0,size)"""
    if isinstance(size, (int, str)):
        return str(size)
    if isinstance(size, Num):
        size = size.v
        if isinstance(size, int):
            return str(size)
    s = simp(size)
    k = str(s) if s.num_args() < 3 else "e%d" % s.get_id()
    if "!" in k or k[0] == "e":
        KEYEXPR.setdefault(k, s)
    return k


KEYEXPR = {}


def subst_key(k, b, t):
    """instantiation key of the range whose size has b replaced by t"""
    e = KEYEXPR.get(k)
    if e is None:
        return k
    e2 = z3.substitute(e, (b, t))
    return k if e2.eq(e) else key_of(e2)


def forall(sizes, fn):
    """for all 0<=i<size: fn(i..) ; fn maps z3 Int terms to Bool/F"""
    return F("forall", [(0, s, key_of(s)) for s in sizes], fn)


def forall_range(ranges, fn):
    return F("forall", ranges, fn)


def exists(sizes, fn):
    return F("exists", [(0, s, key_of(s)) for s in sizes], fn)


def toF(x):
    if isinstance(x, F):
        return x
    if isinstance(x, Bool):
        return x.f
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, z3.BoolRef):
        return fz(x)
    if hasattr(x, "dtype") and x.dtype == bool and getattr(x, "ndim", 1) == 0:
        return TRUE if bool(x) else FALSE
    if isinstance(x, Num):
        return fnot((x == 0).f)
    if hasattr(x, "as_F"):
        return x.as_F()
    raise Unsupported("not a formula: %r" % (type(x),))


def in_range(t, lo, hi):
    lo_, hi_ = zint(lo), zint(hi)
    return z3.And(lo_ <= t, t < hi_)


class Grounder:
    """Turns F (assumed true) into ground z3 facts + Q facts, skolemising."""

    def __init__(self):
        pass

    def ground(self, f, pos=True):
        """z3 BoolRef g with (f if pos else not f) -> g-consistent (equisatisfiable use in assumption position)."""
        f = toF(f)
        if f.op == "z3":
            return f.a if pos else z3.Not(f.a)
        if f.op == "not":
            return self.ground(f.a, not pos)
        if f.op in ("and", "or"):
            sub = [self.ground(x, pos) for x in f.a]
            conj = (f.op == "and") == pos
            return z3.And(*sub) if conj else z3.Or(*sub)
        if f.op == "iff":
            a, b = f.a, f.b
            g = F("and", [for_(fnot(a), b), for_(fnot(b), a)])
            return self.ground(g, pos)
        universal = (f.op == "forall") == pos
        body = f.b
        if not universal:
            sks = []
            conds = []
            for lo, hi, key in f.a:
                sk = fresh_int("sk")
                sink().term(key, sk)
                conds.append(in_range(sk, lo, hi))
                sks.append(sk)
            return z3.And(*(conds + [self.ground(body(*sks), pos)]))
        b = fresh_bool("q")
        q = Q(f.a, (lambda *ix: body(*ix)) if pos else (lambda *ix: fnot(body(*ix))), guard=b, src=code_of(body))
        sink().qfact(q)
        return b


GR = Grounder()


def fiff(a, b):
    a, b = toF(a), toF(b)
    if a.op == "z3" and b.op == "z3":
        return fz(a.a == b.a)
    return F("iff", a, b)


# --------------------------------------------------------------------- fresh
def _fresh_name(base):
    c = ST.ctx
    if c is None:
        _fresh_name.n += 1
        return "%s!g%d" % (base, _fresh_name.n)
    c.counter += 1
    return "%s!%d" % (base, c.counter)


_fresh_name.n = 0


def fresh_int(base="i"):
    n = _fresh_name(base)
    if ST.scope:
        return z3.Function(n, *([z3.IntSort()] * len(ST.scope) + [z3.IntSort()]))(*ST.scope)
    return z3.Int(n)


def fresh_real(base="r"):
    n = _fresh_name(base)
    if ST.scope:
        return z3.Function(n, *([z3.IntSort()] * len(ST.scope) + [z3.RealSort()]))(*ST.scope)
    return z3.Real(n)


def fresh_bool(base="b"):
    n = _fresh_name(base)
    if ST.scope:
        return z3.Function(n, *([z3.IntSort()] * len(ST.scope) + [z3.BoolSort()]))(*ST.scope)
    return z3.Bool(n)


def fresh_fun(base, arity, sort="r"):
    """function of arity Int args (scope parameters are added silently)"""
    n = _fresh_name(base)
    rs = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[sort]
    sc = list(ST.scope)
    if not sc and arity == 0:
        c = z3.Const(n, rs)
        return lambda: c
    f = z3.Function(n, *([z3.IntSort()] * (len(sc) + arity) + [rs]))
    return lambda *ix: f(*sc, *ix)


# ------------------------------------------------------------------- numbers
def _isfin(k):
    return isinstance(k, int) and k == FIN


def _kz(k):
    return z3.IntVal(k) if isinstance(k, int) else k


def _kif(c, a, b):
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, _kz(a), _kz(b))


def _keq(k, c):
    if isinstance(k, int):
        return z3.BoolVal(k == c)
    return k == c


def _norm_v(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return zreal(v)
    return v


class Num:
    """extended real; v: z3 Int/Real term; k: kind"""
    __slots__ = ("v", "k", "np", "nn")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, v, k=FIN, np=False, nn=False):
        self.nn = nn            # known to be a non-negative index
        self.v, self.k, self.np = _norm_v(v), k, np

    # --- introspection
    @property
    def is_int(self):
        return self.v.is_int()

    def __repr__(self):
        return "Num(%s%s)" % (self.v, "" if _isfin(self.k) else ",k=%s" % (self.k,))

    def __hash__(self):
        c = const_of(simp(self.v))
        if c is not None and _isfin(self.k):
            return hash(c)
        raise Unsupported("symbolic number used as a key")

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, t):
        raise Unsupported("type conversion of a number")

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def __getattr__(self, n):
        if n.startswith("_vc") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("attribute %s of a symbolic number" % n)

    # --- arithmetic
    def __add__(self, o): return arith("add", self, o)
    def __radd__(self, o): return arith("add", o, self)
    def __sub__(self, o): return arith("sub", self, o)
    def __rsub__(self, o): return arith("sub", o, self)
    def __mul__(self, o): return arith("mul", self, o)
    def __rmul__(self, o): return arith("mul", o, self)
    def __truediv__(self, o): return arith("div", self, o)
    def __rtruediv__(self, o): return arith("div", o, self)
    def __floordiv__(self, o): return arith("floordiv", self, o)
    def __rfloordiv__(self, o): return arith("floordiv", o, self)
    def __mod__(self, o): return arith("mod", self, o)
    def __rmod__(self, o): return arith("mod", o, self)
    def __pow__(self, o): return arith("pow", self, o)
    def __rpow__(self, o): return arith("pow", o, self)
    def __neg__(self): return num_neg(self)
    def __pos__(self): return self
    def __abs__(self): return num_abs(self)

    # --- comparison
    def __lt__(self, o): return cmp_("lt", self, o)
    def __le__(self, o): return cmp_("le", self, o)
    def __gt__(self, o): return cmp_("gt", self, o)
    def __ge__(self, o): return cmp_("ge", self, o)
    def __eq__(self, o): return cmp_("eq", self, o)
    def __ne__(self, o): return cmp_("ne", self, o)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        c = const_of(simp(self.v))
        if isinstance(c, int):
            return c
        raise Unsupported("symbolic number used as a concrete index")

    __int__ = __index__

    def __float__(self):
        c = const_of(simp(self.v))
        if c is not None and _isfin(self.k):
            return float(c)
        raise Unsupported("symbolic number used as a concrete float")

    def __format__(self, spec):
        return "<sym>"

    def __round__(self, n=None):
        raise Unsupported("round")


class AnyNum(Num):
    """a number returned by the caller's function: an int or a float, unknown which"""
    __slots__ = ()


def is_sym(x):
    return isinstance(x, (Num, Bool)) or hasattr(x, "_vc_sym")


def to_num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, Bool):
        return Num(z3.If(bool_z(x), z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, z3.ArithRef):
        return Num(x)
    if isinstance(x, bool):
        return Num(int(x))
    if isinstance(x, int):
        return Num(x)
    if isinstance(x, Fraction):
        return Num(x)
    if hasattr(x, "ndim") and getattr(x, "ndim") == 0 and not isinstance(x, float):
        x = x.item()
        return to_num(x)
    if isinstance(x, float):
        if x != x:
            return Num(z3.RealVal(0), NAN)
        if x == float("inf"):
            return Num(z3.RealVal(0), PINF)
        if x == float("-inf"):
            return Num(z3.RealVal(0), NINF)
        return Num(zreal(Fraction(x)))
    if isinstance(x, complex):
        raise Unsupported("complex")
    raise Unsupported("not a number: %r" % (type(x),))


def _pair(a, b):
    """coerce value terms to a common sort"""
    if a.v.is_int() and b.v.is_int():
        return a.v, b.v
    return zreal(a.v), zreal(b.v)


def arith(op, a, b):
    if hasattr(a, "_vc_arr") or hasattr(b, "_vc_arr"):
        return NotImplemented
    if not isinstance(a, Num):
        try:
            a = to_num(a)
        except Unsupported:
            return NotImplemented
    if not isinstance(b, Num):
        try:
            b = to_num(b)
        except Unsupported:
            return NotImplemented
    fa, fb = _isfin(a.k), _isfin(b.k)
    x, y = _pair(a, b)
    if op == "add" or op == "sub":
        if fa and fb:
            cy, cx = const_of(y), const_of(x)
            if cy == 0:
                return Num(x)
            if op == "add":
                return Num(y) if cx == 0 else Num(x + y)
            return Num(x - y)
        kb = b.k
        if op == "sub":
            kb = {FIN: FIN, PINF: NINF, NINF: PINF, NAN: NAN}[kb] if isinstance(kb, int) else \
                z3.If(kb == PINF, z3.IntVal(NINF), z3.If(kb == NINF, z3.IntVal(PINF), kb))
        ka = a.k
        if isinstance(ka, int) and isinstance(kb, int):
            if NAN in (ka, kb) or {ka, kb} == {PINF, NINF}:
                k = NAN
            else:
                k = ka if ka else kb
        else:
            ka_, kb_ = _kz(ka), _kz(kb)
            k = z3.If(z3.Or(ka_ == NAN, kb_ == NAN), z3.IntVal(NAN),
                      z3.If(ka_ == FIN, kb_, z3.If(z3.Or(kb_ == FIN, kb_ == ka_), ka_, z3.IntVal(NAN))))
        return Num(x + y if op == "add" else x - y, k)
    if op == "mul":
        if fa and fb:
            cx, cy = const_of(x), const_of(y)
            if cx is not None and cx == 1:
                return Num(y)
            if cy is not None and cy == 1:
                return Num(x)
            return Num(x * y)
        sx = _sign(a)
        sy = _sign(b)
        nan = z3.Or(_keq(a.k, NAN), _keq(b.k, NAN), z3.And(_inf(a), _keq(b.k, FIN), y == 0),
                    z3.And(_inf(b), _keq(a.k, FIN), x == 0))
        k = z3.If(nan, z3.IntVal(NAN), z3.If(z3.And(_keq(a.k, FIN), _keq(b.k, FIN)), z3.IntVal(FIN),
                                             z3.If(sx == sy, z3.IntVal(PINF), z3.IntVal(NINF))))
        return Num(x * y, simp(k) if isinstance(a.k, int) and isinstance(b.k, int) else k)
    if op == "div":
        x, y = zreal(x), zreal(y)
        if fa and fb:
            cy = const_of(y)
            if cy is not None and cy != 0:
                return Num(x / y)
            zero = y == 0
            c = ST.ctx
            if c is not None and not c.pure and not ST.elem:
                if not c.spec_mode and not (a.np or b.np):
                    if c.branch(fz(zero)):
                        raise ZeroDivisionError("division by zero")
                if not c._feasible(zero):
                    q = ufun("div", x, y)
                    sink().fact(q * y == x)
                    return Num(q)
            k = z3.If(zero, z3.If(x == 0, z3.IntVal(NAN), z3.If(x > 0, z3.IntVal(PINF), z3.IntVal(NINF))),
                      z3.IntVal(FIN))
            q = ufun("div", x, y)
            sink().fact(z3.Implies(y != 0, q * y == x))
            return Num(q, k)
        if isinstance(b.k, int) and b.k == FIN:
            cy = const_of(y)
            if cy is not None and cy != 0:
                k = a.k
                if cy < 0:
                    k = z3.If(_keq(a.k, PINF), z3.IntVal(NINF), z3.If(_keq(a.k, NINF), z3.IntVal(PINF), _kz(a.k)))
                return Num(x / y, k)
            if not isinstance(y, int):
                pos = y > 0
                k = z3.If(_keq(a.k, NAN), z3.IntVal(NAN), z3.If(_keq(a.k, FIN), z3.IntVal(FIN),
                          z3.If(pos == _keq(a.k, PINF), z3.IntVal(PINF), z3.IntVal(NINF))))
                k = z3.If(y == 0, z3.If(z3.Or(_keq(a.k, NAN), z3.And(_keq(a.k, FIN), x == 0)), z3.IntVal(NAN),
                          z3.If(z3.Or(_keq(a.k, PINF), z3.And(_keq(a.k, FIN), x > 0)), z3.IntVal(PINF), z3.IntVal(NINF))), k)
                q = ufun("div", x, y)
                sink().fact(z3.Implies(y != 0, q * y == x))
                return Num(q, k)
        ka, kb = _kz(a.k), _kz(b.k)
        q = ufun("div", x, y)
        sink().fact(z3.Implies(y != 0, q * y == x))
        inf_a, inf_b = z3.Or(ka == PINF, ka == NINF), z3.Or(kb == PINF, kb == NINF)
        sa = z3.If(ka == FIN, z3.If(x > 0, 1, z3.If(x < 0, -1, 0)), z3.If(ka == PINF, 1, -1))
        # a zero divisor counts as +0
        sb = z3.If(kb == FIN, z3.If(y < 0, -1, 1), z3.If(kb == PINF, 1, -1))
        zero_b = z3.And(kb == FIN, y == 0)
        k = z3.If(z3.Or(ka == NAN, kb == NAN, z3.And(inf_a, inf_b), z3.And(zero_b, ka == FIN, x == 0)), z3.IntVal(NAN),
                  z3.If(z3.Or(inf_a, zero_b), z3.If(sa * sb > 0, z3.IntVal(PINF), z3.IntVal(NINF)), z3.IntVal(FIN)))
        return Num(z3.If(inf_b, z3.RealVal(0), q), k)
    if op in ("floordiv", "mod"):
        if op == "mod" and fb and not fa:
            r = arith("mod", Num(a.v), b)
            return Num(r.v, z3.If(_kz(a.k) != FIN, z3.IntVal(NAN), _kz(r.k)))
        if not (fa and fb):
            raise Unsupported("mod of non-finite numbers")
        if x.is_int() and y.is_int():
            c = const_of(y)
            if c is not None and c > 0:
                return Num(x / y if op == "floordiv" else x % y)
        if op == "mod":
            x, y = zreal(x), zreal(y)
            r = ufun("mod", x, y)
            q = ufun("modq", x, y, sort="i")
            s = sink()
            s.fact(z3.Implies(y > 0, z3.And(r >= 0, r < y)))
            s.fact(z3.Implies(y < 0, z3.And(r <= 0, r > y)))
            s.fact(z3.Implies(y != 0, x == z3.ToReal(q) * y + r))
            s.fact(z3.Implies(z3.And(y > 0, x >= 0, x < y), r == x))
            return Num(r, z3.If(y == 0, z3.IntVal(NAN), z3.IntVal(FIN)) if const_of(y) is None else (NAN if const_of(y) == 0 else FIN))
        raise Unsupported("floordiv")
    if op == "pow":
        c = const_of(y)
        if c is not None and (isinstance(c, int) or c.denominator == 1) and fb:
            n = int(c)
            if n == 0:
                return Num(1)
            if 0 < n <= 8:
                r = a
                for _ in range(n - 1):
                    r = arith("mul", r, a)
                return r
        if fb:
            x, y = zreal(x), zreal(y)
            r = ufun("pow", x, y)
            sink().fact(z3.Implies(x > 0, r > 0))
            sink().fact(z3.Implies(z3.And(x == 0, y > 0), r == 0))
            cx, frac = const_of(x), c is not None and c.denominator != 1 if not isinstance(c, int) else False
            if fa and cx is not None and cx > 0:
                return Num(r)
            nan = x < 0 if frac else z3.And(x < 0, z3.Not(z3.IsInt(y)))
            inf = z3.BoolVal(False) if c is not None and c > 0 else z3.And(x == 0, y < 0)
            if fa and not ST.elem and ST.ctx is not None and not ST.ctx.pure and not ST.scope and not ST.ctx._feasible(z3.Or(nan, inf)):
                return Num(r)
            k = z3.If(nan, z3.IntVal(NAN), z3.If(inf, z3.IntVal(PINF), z3.IntVal(FIN)))
            if fa:
                return Num(r, k)
            if frac and c > 0:
                return Num(r, z3.If(_keq(a.k, FIN), k, z3.If(_keq(a.k, NAN), z3.IntVal(NAN), z3.IntVal(PINF))))
        raise Unsupported("power of non-finite numbers")
    raise Unsupported(op)


def _inf(a):
    if isinstance(a.k, int):
        return z3.BoolVal(a.k in (PINF, NINF))
    return z3.Or(a.k == PINF, a.k == NINF)


def _sign(a):
    """term: is positive"""
    if isinstance(a.k, int):
        if a.k == PINF:
            return z3.BoolVal(True)
        if a.k == NINF:
            return z3.BoolVal(False)
        return a.v > 0
    return z3.If(a.k == FIN, a.v > 0, a.k == PINF)


def num_neg(a):
    if _isfin(a.k):
        return Num(-a.v)
    if isinstance(a.k, int):
        return Num(-a.v, {PINF: NINF, NINF: PINF, NAN: NAN}[a.k])
    return Num(-a.v, z3.If(a.k == PINF, z3.IntVal(NINF), z3.If(a.k == NINF, z3.IntVal(PINF), a.k)))


def num_abs(a):
    a = to_num(a)
    v = z3.If(a.v >= 0, a.v, -a.v)
    if _isfin(a.k):
        return Num(v)
    if isinstance(a.k, int):
        return Num(v, {PINF: PINF, NINF: PINF, NAN: NAN}[a.k])
    return Num(v, z3.If(a.k == NINF, z3.IntVal(PINF), a.k))


def lt_z(a, b):
    x, y = _pair(a, b)
    if _isfin(a.k) and _isfin(b.k):
        return x < y
    ka, kb = a.k, b.k
    return z3.And(z3.Not(_keq(ka, NAN)), z3.Not(_keq(kb, NAN)),
                  z3.Or(z3.And(_keq(ka, NINF), z3.Not(_keq(kb, NINF))),
                        z3.And(_keq(kb, PINF), z3.Not(_keq(ka, PINF))),
                        z3.And(_keq(ka, FIN), _keq(kb, FIN), x < y)))


def eq_z(a, b):
    x, y = _pair(a, b)
    if _isfin(a.k) and _isfin(b.k):
        return x == y
    ka, kb = _kz(a.k), _kz(b.k)
    return z3.And(ka != NAN, ka == kb, z3.Implies(ka == FIN, x == y))


def same_z(a, b):
    """equal as values, NaN equal to NaN"""
    x, y = _pair(a, b)
    if _isfin(a.k) and _isfin(b.k):
        return x == y
    ka, kb = _kz(a.k), _kz(b.k)
    return z3.And(ka == kb, z3.Implies(ka == FIN, x == y))


def cmp_(op, a, b):
    if hasattr(a, "_vc_arr") or hasattr(b, "_vc_arr"):
        return NotImplemented
    if b is None or isinstance(b, (str, tuple, list, dict)):
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    a, b = to_num(a), to_num(b)
    if op == "lt":
        e = lt_z(a, b)
    elif op == "gt":
        e = lt_z(b, a)
    elif op == "eq":
        e = eq_z(a, b)
    elif op == "ne":
        e = z3.Not(eq_z(a, b))
    elif op == "le":
        if _isfin(a.k) and _isfin(b.k):
            x, y = _pair(a, b)
            e = x <= y
        else:
            e = z3.Or(lt_z(a, b), eq_z(a, b))
    else:
        if _isfin(a.k) and _isfin(b.k):
            x, y = _pair(a, b)
            e = x >= y
        else:
            e = z3.Or(lt_z(b, a), eq_z(a, b))
    if const_of(a.v) is not None and const_of(b.v) is not None:
        e = simp(e)
    return Bool(e)


_UF = {}


def ufun(name, *args, sort="r"):
    """global uninterpreted function"""
    key = (name, len(args), sort)
    if key not in _UF:
        rs = {"r": z3.RealSort(), "i": z3.IntSort()}[sort]
        _UF[key] = z3.Function("uf_" + name, *([z3.RealSort()] * len(args) + [rs]))
    return _UF[key](*[zreal(a) for a in args])


class Bool:
    __slots__ = ("f",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f if isinstance(f, F) else fz(f)

    def __bool__(self):
        if self.f.op == "z3":
            if z3.is_true(self.f.a):
                return True
            if z3.is_false(self.f.a):
                return False
        if ST.ctx is None:
            raise Unsupported("branch outside of a path")
        return ST.ctx.branch(self.f)

    def __and__(self, o):
        if hasattr(o, "_vc_arr"):
            return NotImplemented
        return Bool(fand(self.f, toF(o)))
    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, "_vc_arr"):
            return NotImplemented
        return Bool(for_(self.f, toF(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return Bool(fnot(fiff(self.f, toF(o))))

    def __invert__(self):
        return Bool(fnot(self.f))

    def __eq__(self, o):
        if isinstance(o, (Bool, bool)):
            return Bool(fiff(self.f, toF(o)))
        return to_num(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, Bool) else not r

    def __hash__(self):
        return id(self)

    def __mul__(self, o): return to_num(self) * o
    __rmul__ = __mul__
    def __add__(self, o): return to_num(self) + o
    __radd__ = __add__
    def __rsub__(self, o): return to_num(o) - to_num(self)
    def __sub__(self, o): return to_num(self) - o
    def __lt__(self, o): return to_num(self) < o
    def __gt__(self, o): return to_num(self) > o
    def __le__(self, o): return to_num(self) <= o
    def __ge__(self, o): return to_num(self) >= o

    def __format__(self, spec):
        return "<sym>"

    def astype(self, t):
        raise Unsupported("type conversion of a number")

    def all(self):
        return self

    any = all
    item = all

    def __getattr__(self, n):
        if n.startswith("_vc") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported("attribute %s of a symbolic bool" % n)


def bool_z(b):
    """z3 BoolRef of a Bool; quantified formulas get a defining proxy"""
    f = toF(b)
    if f.op == "z3":
        return f.a
    if f.op == "not":
        return z3.Not(bool_z(f.a))
    if f.op in ("and", "or"):
        s = [bool_z(x) for x in f.a]
        return z3.And(*s) if f.op == "and" else z3.Or(*s)
    if f.op == "iff":
        return bool_z(f.a) == bool_z(f.b)
    p = fresh_bool("p")
    s = sink()
    s.fact(z3.Implies(p, GR.ground(f, True)))
    s.fact(z3.Implies(z3.Not(p), GR.ground(f, False)))
    f.op, f.a, f.b = "z3", p, None      # the same node now denotes its proxy
    return p


def ite(c, a, b):
    """conditional value (scalars)"""
    if isinstance(c, bool):
        return a if c else b
    f = toF(c)
    if is_true(f):
        return a
    if is_false(f):
        return b
    cz = bool_z(f)
    if isinstance(a, Bool) or isinstance(b, Bool) or isinstance(a, bool) and isinstance(b, bool):
        if isinstance(a, (Bool, bool)) and isinstance(b, (Bool, bool)):
            return Bool(z3.If(cz, bool_z(a), bool_z(b)))
    a, b = to_num(a), to_num(b)
    x, y = _pair(a, b)
    v = x if x.eq(y) else z3.If(cz, x, y)
    return Num(v, _kif(cz, a.k, b.k))


def isnan(a):
    a = to_num(a)
    return Bool(_keq(a.k, NAN))


def isfinite(a):
    a = to_num(a)
    return Bool(_keq(a.k, FIN))


def isinf(a):
    return Bool(_inf(to_num(a)))


def smin(a, b):
    """python min(a,b) semantic: b if b < a else a"""
    return ite(to_num(b) < to_num(a), b, a)


# -------------------------------------------------------------------- paths
class Obligation:
    def __init__(self, label, goal, ctx, tags, kind, where):
        self.label, self.goal, self.tags, self.kind, self.where = label, goal, tags, kind, where
        self.n_assumptions = len(ctx.assumptions)
        self.n_evals = len(ctx.log)
        self.ctx = ctx
        self.sinkmark = (len(ctx.sink.facts), len(ctx.sink.qfacts), len(ctx.sink.terms))
        self.status = None      # discharged / failed / unknown
        self.model = None
        self.backend = None
        self.time = 0.0


class Ctx:
    """one execution path"""

    def __init__(self, prefix, opts):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.counter = 0
        self.assumptions = []        # F, in order
        self.sink = Sink()
        self.obligations = []
        self.log = []
        self.opts = opts
        self.pure = 0
        self.events = []
        self.ghost = {}
        self.draws = []
        self.notes = set()
        self._solver = None
        self._solver_n = (0, 0)
        self.outcome = None
        self.spec_mode = 0

    # assumptions
    def assume(self, f, label=""):
        g = GR.ground(toF(f), True)
        if not z3.is_true(g):
            self.sink.fact(g)

    def oblige(self, label, goal, tags=(), kind="post", where="", hyps=None):
        """hyps: use only these (already established) facts and the ground facts of the path"""
        goal = toF(goal)
        if hyps is not None:
            goal = fimp(fand(*hyps), goal)
        ob = Obligation(label, goal, self, tags, kind, where)
        if hyps is not None:
            ob.sinkmark = (ob.sinkmark[0], 0, ob.sinkmark[2])
        self.obligations.append(ob)

    def _feasible(self, extra):
        if self._solver is None:
            self._solver = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
            self._solver.set("timeout", 400)
            self._nf = 0
        s = self._solver
        while self._nf < len(self.sink.facts):
            s.add(self.sink.facts[self._nf])
            self._nf += 1
        s.push()
        s.add(extra)
        # one round of instantiation of quantified facts on known terms
        inst = instantiate(self.sink.qfacts, self.sink.terms, limit=150)
        for g in inst:
            s.add(g)
        r = s.check()
        s.pop()
        return r != z3.unsat

    def branch(self, f):
        if self.pure:
            raise Unsupported("branch on a symbolic condition inside a parametric expression")
        e = bool_z(f)
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            es = simp(e)
            if z3.is_true(es):
                return True
            if z3.is_false(es):
                return False
            t, ff = self._feasible(e), self._feasible(z3.Not(e))
            if not t and not ff:
                raise Infeasible()
            if t and ff:
                self.pending.append(self.trace + [False])
                d = True
            else:
                d = t
        self.trace.append(d)
        self.sink.fact(e if d else z3.Not(e))
        return d

    def choose(self, n):
        """non-deterministic choice 0..n-1 (explored exhaustively)"""
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for j in range(1, n):
                self.pending.append(self.trace + [j])
        self.trace.append(d)
        return d


def instantiate(qfacts, terms, limit=4000, extra_terms=(), rounds=1):
    """ground instances of quantified facts over the candidate terms of each key"""
    out = []
    for q in qfacts:
        cands = []
        total = 1
        for lo, hi, key in q.ranges:
            c = [t for k, t in terms if k == key]
            cands.append(c)
            total *= max(1, len(c))
        if total > limit:
            cands = [c[-12:] for c in cands]
        _inst(q, cands, 0, [], out)
    return out


def _inst(q, cands, i, acc, out):
    if i == len(cands):
        conds = [in_range(t, lo, hi) for t, (lo, hi, _) in zip(acc, q.ranges) if not (lo is None)]
        with capture() as cs:
            g = GR.ground(toF(q.body(*acc)), True)
        out.extend(cs.facts)
        out.append(z3.Implies(z3.And(*(conds + ([q.guard] if q.guard is not None else []))), g))
        return
    for t in cands[i]:
        _inst(q, cands, i + 1, acc + [t], out)


class Path:
    pass


def explore(run, opts=None, max_paths=400):
    """run(ctx) executed for every feasible decision sequence; returns list of ctx"""
    work = [[]]
    done = []
    while work:
        if len(done) >= max_paths:
            raise Unsupported("more than %d paths" % max_paths)
        prefix = work.pop()
        ctx = Ctx(prefix, opts or {})
        ST.ctx = ctx
        ST.sinks = [ctx.sink]
        ST.scope = []
        ST.elem = 0
        try:
            run(ctx)
            ctx.outcome = ctx.outcome or "done"
            if "broken_loop" in ctx.ghost:
                raise Unsupported(ctx.ghost["broken_loop"])
        except PathEnd:
            ctx.outcome = "end"
            if "broken_loop" in ctx.ghost:
                raise Unsupported(ctx.ghost["broken_loop"])
        except Infeasible:
            ctx.outcome = "infeasible"
        finally:
            ST.ctx = None
            ST.sinks = []
            ST.scope = []
        work.extend(ctx.pending)
        done.append(ctx)
    return done
