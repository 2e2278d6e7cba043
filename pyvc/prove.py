"""Discharging proof obligations: ground, instantiate quantified facts by index sort, ask the SMT solver."""
import time
from . import core as _core0
import z3
from .core import *
from .core import _inst


class Result:
    __slots__ = ("status", "model", "rounds", "time", "backend", "ninst", "reason")


WEAK = ("exp", "log", "sin", "cos", "pow", "sqrt", "sum", "mod")


def weak_symbols(exprs):
    """incompletely axiomatised functions in the query: a counter-model may give them values the real ones do not have"""
    seen, out, todo = set(), set(), list(exprs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                b = e.decl().name().replace("uf_", "").split("!")[0]
                b = b[:-1] if b == "sumk" else b
                if b in WEAK:
                    out.add(b)
            todo.extend(e.children())
    return sorted(out)


class Session:
    def __init__(self, ob):
        self.ob = ob
        c = ob.ctx
        self.s = Sink()
        f, q, t = ob.sinkmark
        for x in c.sink.facts[:f]:
            self.s.fact(x)
        for x in c.sink.qfacts[:q]:
            self.s.qfact(x)
        for x in c.sink.terms[:t]:
            self.s.term(*x)
        self.done = set()

    def run(self, timeout=8000, max_inst=6000, deadline=None):
        ob = self.ob
        r = Result()
        t0 = time.time()
        r.backend = "z3"
        r.model = None
        r.reason = ""
        r.status = "unknown"
        r.rounds = 0
        old = ST.ctx, ST.sinks, ST.scope
        ST.ctx, ST.sinks, ST.scope = ob.ctx, [self.s], []
        ob.ctx.spec_mode += 1
        self.anc, self.tmpl = {}, {}
        self.ninst = 0
        self.saturated = False
        limit = deadline or 60
        try:
            g = GR.ground(ob.goal, False)
            if z3.is_false(simp(g)):
                r.status, r.rounds = "discharged", 0
                r.backend = "simplifier"
                return r
            solver = z3.Solver()
            solver.set("timeout", timeout)
            solver.add(g)
            self.solver = solver
            self.nf = 0
            # phase 0: an index term is not fed back into the quantifier that produced it; phase 1: it is
            for phase in (0, 1):
                self.phase = phase
                for rnd in range(8 if phase == 0 else 3):
                    r.rounds += 1
                    self.flush()
                    res = solver.check()
                    if res == z3.unsat:
                        r.status = "discharged"
                        return r
                    budget = (max_inst if phase else max_inst // 2) - self.ninst
                    new = self.instantiate(budget)
                    self.ninst += len(new)
                    if not new and self.nf == len(self.s.facts):
                        # only an exhausted phase 1 has tried every instance
                        self.saturated = phase == 1 and budget > 0
                        break
                    self.saturated = False
                    for x in new:
                        solver.add(x)
                    if self.ninst >= max_inst:
                        r.reason = "instantiation limit"
                        break
                    if time.time() - t0 > limit:
                        r.reason = "time"
                        break
                if time.time() - t0 > limit:
                    break
            self.flush()
            res = solver.check()
            if res == z3.unsat:
                r.status = "discharged"
            elif res == z3.sat and self.saturated:
                r.status = "refuted"
                r.model = solver.model()
                w = weak_symbols([g])
                if w:
                    r.status, r.reason = "unknown", "counter-model interprets " + ", ".join(w)
            elif res == z3.sat:
                r.reason = r.reason or "instantiation rounds"
            else:
                r.status = "unknown"
                r.reason = solver.reason_unknown()
            return r
        finally:
            r.time = time.time() - t0
            r.ninst = self.ninst
            ob.ctx.spec_mode -= 1
            ST.ctx, ST.sinks, ST.scope = old

    def flush(self):
        while self.nf < len(self.s.facts):
            self.solver.add(self.s.facts[self.nf])
            self.nf += 1

    def instantiate(self, budget):
        out = []
        terms = {}
        for k, t in list(self.s.terms):
            terms.setdefault(k, []).append(t)
        for q in list(self.s.qfacts):
            tm = self.tmpl.setdefault(id(q), (id(q),))
            cands = [terms.get(key, []) for lo, hi, key in q.ranges]
            if self.phase == 0:
                cands = [[t for t in cs if tm not in self.anc.get(t.get_id(), ())] for cs in cands]
            self._go(q, tm, cands, 0, [], out, budget)
            if len(out) > budget:
                break
        return out

    def _go(self, q, tm, cands, i, acc, out, budget):
        if len(out) > budget:
            return
        if i == len(cands):
            key = (id(q), tuple(t.get_id() for t in acc))
            if key in self.done:
                return
            self.done.add(key)
            conds = [in_range(t, lo, hi) for t, (lo, hi, _) in zip(acc, q.ranges) if lo is not None]
            nt, nq = len(self.s.terms), len(self.s.qfacts)
            g = GR.ground(toF(q.body(*acc)), True)
            anc = frozenset([tm]).union(*[self.anc.get(t.get_id(), ()) for t in acc])
            for k, t in self.s.terms[nt:]:
                self.anc.setdefault(t.get_id(), anc)
            for x in self.s.qfacts[nq:]:
                self.tmpl.setdefault(id(x), tm[:6] + (id(x.src) if x.src is not None else id(x),))
            if q.guard is not None:
                conds.append(q.guard)
            out.append(z3.Implies(z3.And(*conds), g) if conds else g)
            return
        for t in cands[i]:
            self._go(q, tm, cands, i + 1, acc + [t], out, budget)


def cvc5_check(solver, timeout_ms=8000):
    """second back end, on the SMT-LIB text of the final query"""
    try:
        import cvc5
    except ImportError:
        return None
    txt = "(set-logic ALL)\n" + solver.to_smt2()
    try:
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption("tlimit-per", str(timeout_ms))
        s.setOption("produce-models", "false")
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(s, sm)
            if str(o).strip() in ("sat", "unsat", "unknown"):
                res = str(o).strip()
        return res
    except Exception as e:
        return None


def isolated(f, limit, *a):
    """result of f in a child process, None when it takes longer than `limit` seconds"""
    import os, select, signal
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            os.write(wr, str(f(*a)).encode())
        finally:
            os._exit(0)
    os.close(wr)
    ok, _, _ = select.select([rd], [], [], limit)
    out = os.read(rd, 100).decode() if ok else ""
    os.close(rd)
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
    return out


def discharge(ob, timeout=6000, deadline=30):
    s = Session(ob)
    r = s.run(timeout=timeout, deadline=deadline)
    if r.status == "unknown" and hasattr(s, "solver") and r.ninst < 2500:
        a = isolated(cvc5_check, timeout / 1000 + 4, s.solver, timeout)
        if a == "unsat":
            r.status, r.backend = "discharged", "cvc5"
    ob.status, ob.model, ob.backend, ob.time = r.status, r.model, r.backend, r.time
    ob.reason = r.reason
    ob.rounds = r.rounds
    ob.session = s
    return r
