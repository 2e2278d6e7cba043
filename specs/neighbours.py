"""Contracts of the neighbour graph of the random topology (P19) and of the Delannoy numbers (P23)"""
from .base import *
from .contracts import Record, bind

RQ = "pyswarms.backend.topology.random.Random.__compute_neighbors"
VQ = "pyswarms.backend.topology.von_neumann.VonNeumann.delannoy"


def one(v):
    return toF(to_num(v) == 1)


class Connect(LoopSpec):
    """while the graph is not connected: the matrix stays a reflexive symmetric 0/1 matrix that contains the drawn edges"""

    def __init__(self, n):
        self.n = n
        self.state = None

    def matches(self, c, q, line, seq):
        return seq is None and q == RQ

    def matrix(self, loc):
        bufs = {}
        for v in loc.values():
            if isinstance(v, Arr) and v.ndim == 2 and v.buf.dtype == "i" and all(size_same(norm_size(z), norm_size(self.n)) for z in v._shape):
                bufs[id(v.buf)] = v
        if len(bufs) != 1:
            raise Unsupported("the adjacency matrix of the loop is not identified")
        return list(bufs.values())[0]

    def inv(self, A, A0):
        n = self.n
        yield "adjacency entries are 0 or 1", forall([n, n], lambda i, j: for_(one(A.at(i, j)), toF(to_num(A.at(i, j)) == 0)))
        yield "every particle is joined to itself", forall([n], lambda i: one(A.at(i, i)))
        yield "the adjacency matrix is symmetric", forall([n, n], lambda i, j: toF(to_num(A.at(i, j)) == A.at(j, i)))
        yield "no edge is removed", forall([n, n], lambda i, j: fimp(one(A0.at(i, j)), one(A.at(i, j))))

    def init(self, c, loop):
        self.A0 = self.matrix(loop.loc0).copy()
        for lab, f in self.inv(self.A0, self.A0):
            c.oblige("initially: " + lab, f, ["P19"], kind="inv")

    def havoc(self, c, t, loc, loop):
        A, A0, n = self.matrix(loc), self.A0, self.n
        f = fresh_fun("adj", 2, "i")
        rd = A0.reader()

        def el(i, j):
            v = f(i, j)
            s = sink()
            s.fact(z3.And(z3.Or(v == 0, v == 1), f(j, i) == v))
            s.fact(z3.Implies(i == j, v == 1))
            s.fact(z3.Implies(z3.And(in_range(i, 0, n), in_range(j, 0, n), bool_z(to_num(rd(i, j)) == 1)), v == 1))
            return Num(v)
        A.buf.write(memo(el))
        return {}, [(A.buf, "<elements>")]

    def end(self, c, loop):
        n = self.n
        A = self.matrix(loop.loc_end).copy()
        for lab, f in self.inv(A, self.A0):
            c.oblige(lab, f, ["P19"], kind="inv")
        # progress: every pair that is unreachable in a subgraph is joined, so the graph is connected at the next test
        ds = [e for k, e in c.events if k == "dijkstra"]
        c.oblige("one pass joins every pair of particles without a path", fand(
            forall([n, n], lambda i, j: fimp(one(ds[-1]["adj"].at(i, j)), one(A.at(i, j)))),
            forall([n, n], lambda i, j: fimp(toF(isinf(ds[-1]["d"].at(i, j))), one(A.at(i, j))))) if ds else FALSE, [], kind="variant")


class Pairs(LoopSpec):
    """for i, j in product(range(n), range(n)): after t pairs the pairs before t without a path are joined"""

    def __init__(self, conn):
        self.conn = conn

    def matches(self, c, q, line, seq):
        return isinstance(seq, SProd) and len(seq.seqs) == 2 and q == RQ

    def init(self, c, loop):
        self.A = self.conn.matrix(loop.loc0)
        self.A0 = self.A.copy()
        ps = [e for k, e in c.events if k == "product"]
        ds = [e for k, e in c.events if k == "dijkstra"]
        if not ps or not ds:
            raise Unsupported("pair loop without distances")
        self.prod, self.d = ps[-1], ds[-1]["d"]

    def at(self, t, i, j):
        r = self.prod.rank((i, j))
        return Num(z3.If(z3.And(r < zint(t), GR.ground(toF(isinf(self.d.at(i, j))), True)), z3.IntVal(1), to_num(self.A0.at(i, j)).v))

    def havoc(self, c, t, loc, loop):
        self.t = t
        self.A.buf.write(memo(lambda i, j: self.at(t, i, j)))
        return {}, [(self.A.buf, "<elements>")]

    def end(self, c, loop):
        n = self.conn.n
        A = self.conn.matrix(loop.loc_end)
        c.oblige("after t pairs exactly the pairs before t without a path are joined",
                 same_arr(A, (n, n), lambda i, j: self.at(self.t + 1, i, j)) if A.buf is self.A.buf else FALSE, ["P19"], kind="inv")


@task("random_neighbors", ["P19", "P13"], [RQ])
def t_neighbors(c):
    n, d = sym_int("n", 2), sym_int("d", 1)
    k = sym_int("k", 1)
    c.assume(toF(k < n))
    s = mk_swarm(c, n, d)
    top = imp("backend.topology").Random()
    conn = Connect(n)
    c.opts = dict(c.opts, loops=[conn, Pairs(conn)])
    snap = Snapshot([s, top])
    f = getattr(top, "_Random__compute_neighbors", None)
    if f is None:
        raise Unsupported("no helper __compute_neighbors")
    r = no_raise(c, call(c, f, s, k), ["P19"])
    ok = is_arr(r, n, n)
    c.oblige("returns a matrix", same_arr(r, (n, n), r.at) if ok else FALSE, ["P19"])
    if not ok:
        raise PathEnd()
    A = r.copy()
    for lab, g in conn.inv(A, A):
        c.oblige(lab, g, ["P19"])
    comp = [e for kk, e in c.events if kk == "components"]
    c.oblige("the graph is connected", fand(toF(comp[-1]["n"] == 1), TRUE if comp[-1]["directed"] is False else FALSE,
                                            same_arr(A, (n, n), comp[-1]["adj"].at)) if comp else FALSE, ["P19"])
    cands = []
    for x in c.draws:
        if x[0] == "param" and x[2][0] == "choice" and size_same(norm_size(x[1][0]), norm_size(n)):
            (m, b), (_, sh, v) = x[1], x[2]
            rd = v.reader()
            cands.append((lambda rd, b: lambda i, q: z3.substitute(to_num(rd(q)).v, (b, i)))(rd, b))
    row = ST.ctx.ghost.get("rows")
    cands = [g for g in [row] if g] or cands
    c.oblige("every particle is joined to at least k other particles", for_(*[forall([n, k], lambda i, q, g=g: fand(
        fz(z3.And(in_range(g(i, q), 0, n), g(i, q) != i)), one(A.at(i, g(i, q))),
        forall([k], lambda u: fz(z3.Implies(u != q, g(i, u) != g(i, q)))))) for g in cands] or [FALSE]), ["P19"])
    frame(c, snap, ["P19", "P13"])


# ------------------------------------------------------------------- delannoy
DEL = z3.Function("Delannoy", z3.IntSort(), z3.IntSort(), z3.IntSort())


def D(d, r):
    """the Delannoy number; its recurrence is unfolded for each term that occurs"""
    d, r = zint(d), zint(r)
    sink().fact(z3.Implies(z3.And(d >= 0, r >= 0), DEL(d, r) == z3.If(z3.Or(d == 0, r == 0), 1, DEL(d - 1, r) + DEL(d - 1, r - 1) + DEL(d, r - 1))))
    return Num(DEL(d, r))


class Delannoy:
    """contract of delannoy: for non-negative arguments the Delannoy number. The outermost call is the body under proof."""

    def apply(self, c, f, a, k):
        if not c.ghost.get("delannoy_inside"):
            c.ghost["delannoy_inside"] = True
            return f(*a, **k)
        b = bind(f, a, k)
        d, r = to_num(b["d"]), to_num(b["r"])
        d0, r0 = c.ghost["delannoy_args"]
        c.oblige("recursive call on non-negative arguments", fand(toF(d >= 0), toF(r >= 0)), ["P23"], kind="pre")
        c.oblige("the recursion terminates: d + r decreases", toF(d + r < d0 + r0), ["P23"], kind="variant")
        return D(d.v, r.v)


@task("delannoy", ["P23"], [VQ], opts={"contracts": {VQ: Delannoy()}})
def t_delannoy(c):
    d, r = sym_int("d", 0), sym_int("r", 0)
    c.ghost["delannoy_args"] = (d, r)
    V = imp("backend.topology").VonNeumann
    x = no_raise(c, call(c, V.delannoy, d, r), ["P23"])
    ok = isinstance(x, (Num, int))
    c.oblige("the result satisfies the recurrence", toF(to_num(x) == D(d, r)) if ok else FALSE, ["P23"])
    c.oblige("the result is an integer", TRUE if ok and to_num(x).is_int else FALSE, ["P23"])


@task("delannoy_lemmas", ["P23"], [VQ])
def t_delannoy_lemmas(c):
    """induction on d + r over the recurrence: what follows for every function that satisfies it"""
    d, r = sym_int("d", 0), sym_int("r", 0)
    which = c.choose(3)

    def below(f):
        """induction hypothesis for the three smaller arguments"""
        for a, b in ((d - 1, r), (d - 1, r - 1), (d, r - 1)):
            c.assume(fimp(fand(toF(a >= 0), toF(b >= 0)), f(a.v, b.v)))
    if which == 0:
        P = lambda a, b: toF(D(a, b) >= 1)
        below(P)
        c.oblige("at least 1", P(d.v, r.v), ["P23"])
    elif which == 1:
        P = lambda a, b: toF(D(a, b) == D(b, a))
        below(P)
        c.oblige("symmetric", P(d.v, r.v), ["P23"])
    else:
        ge1 = lambda a, b: fimp(fand(fz(a >= 0), fz(b >= 0)), toF(D(a, b) >= 1))
        for a, b in ((d, r), (d + 1, r - 1), (d, r - 1), (d - 1, r + 1), (d - 1, r)):
            c.assume(ge1(a.v, b.v))
        c.oblige("non-decreasing in d", toF(D(d.v + 1, r.v) >= D(d.v, r.v)), ["P23"])
        c.oblige("non-decreasing in r", toF(D(d.v, r.v + 1) >= D(d.v, r.v)), ["P23"])
