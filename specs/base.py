"""Proof tasks: symbolic pre-states, contracts, obligations."""
import linecache, os, re, sys, time, warnings, logging
from pyvc import core
from pyvc.core import *
from pyvc.arrays import *
from pyvc.seqs import *
from pyvc import npshim, runtime
from pyvc.npshim import NP
from pyvc.runtime import VCRT, Snapshot, LoopSpec, Poison
from pyvc.prove import discharge
import z3

TASKS = {}


class Task:
    def __init__(self, name, props, funcs, fn, opts=None, max_paths=400):
        self.name, self.props, self.funcs, self.fn = name, list(props), list(funcs), fn
        self.opts = opts or {}
        self.max_paths = max_paths


def task(name, props, funcs, **kw):
    def deco(fn):
        TASKS[name] = Task(name, props, funcs, fn, **kw)
        return fn
    return deco


_M = None


def mod():
    """the instrumented package of /repo's current tree"""
    global _M
    if _M is None:
        from pyvc.instrument import Loader
        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        repo = os.environ.get("VERIF_REPO", "/repo")
        ld = Loader(repo, VCRT)
        _M = ld.install()
        _M.__dict__["_vc_loader"] = ld
    return _M


def imp(name):
    import importlib
    mod()
    return importlib.import_module("vc_pyswarms" + ("." + name if name else ""))


# ----------------------------------------------------------------- helpers
def sym_int(name, lo=None, hi=None):
    v = fresh_int(name)
    if lo is not None:
        sink().fact(v >= zint(lo))
    if hi is not None:
        sink().fact(v < zint(hi))
    return Num(v)


def sym_real(name, ext=False):
    if ext:
        k = fresh_int(name + "_k")
        sink().fact(z3.And(k >= 0, k <= 3))
        return Num(fresh_real(name), k)
    return Num(fresh_real(name))


TIER = "quick"


class Obj:
    """plain record"""

    def __init__(self, **k):
        self.__dict__.update(k)


class AnyOf(str):
    """an arbitrary one of the given strings: decided only as far as the code under proof asks"""

    def __new__(cls, c, *cands):
        r = str.__new__(cls, "<any of %s>" % ", ".join(cands))
        r._c, r._cands = c, list(cands)
        return r

    def among(self, *xs):
        a, b = [x for x in self._cands if x in xs], [x for x in self._cands if x not in xs]
        if a and b:
            self._cands = b if self._c.choose(2) else a
            return self._cands is a
        return bool(a)

    def pick(self):
        if len(self._cands) > 1:
            self._cands = [self._cands[self._c.choose(len(self._cands))]]
        return self._cands[0]

    def __eq__(self, o):
        return True if o is self else isinstance(o, str) and self.among(o.pick() if isinstance(o, AnyOf) else o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.pick())

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return str.__str__(self)


def _delegate(n):
    def f(self, *a, **k):
        return getattr(self.pick(), n)(*a, **k)
    return f


for _n in dir(str):
    if _n not in vars(AnyOf) and _n not in ("__class__", "__new__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__init_subclass__", "__subclasshook__",
                                            "__reduce__", "__reduce_ex__", "__dir__", "__sizeof__", "__getnewargs__", "__getstate__", "__doc__"):
        setattr(AnyOf, _n, _delegate(_n))


def among(x, *xs):
    """is the string one of these?"""
    return x.among(*xs) if isinstance(x, AnyOf) else x in xs


class Raised:
    def __init__(self, e):
        self.e = e
        self.type = type(e).__name__


def engine_error(e):
    """is this exception a limit of the verification runtime (an operation its values do not support, an internal error)
    rather than something the code under verification would raise?"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if ("/pyvc/" in fn or "/specs/" in fn) and "raise" not in linecache.getline(fn, tb.tb_lineno):
            return True
    if isinstance(e, (TypeError, AttributeError, NotImplementedError, RecursionError)):
        names = {n for m in list(sys.modules.values()) if getattr(m, "__name__", "").startswith(("pyvc.", "specs."))
                 for n, v in list(vars(m).items()) if isinstance(v, type) and v.__module__.startswith(("pyvc.", "specs."))}
        return any(w in names for w in re.findall(r"[A-Za-z_]\w*", str(e)))
    return False


def call(c, f, *a, **k):
    """outcome of a call: ('ok', value) or ('raise', exception)"""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        if engine_error(e):
            raise Unsupported("%s: %s" % (type(e).__name__, str(e)[:200]))
        return "raise", e


def no_raise(c, out, tags=(), label="returns normally"):
    kind, v = out
    if kind == "raise":
        c.notes.add("%s: %s" % (type(v).__name__, v))
        c.oblige("%s [raised %s: %s]" % (label, type(v).__name__, str(v)[:120]), FALSE, tags=tags, kind="exception")
        raise PathEnd()
    return v


def must_raise(c, out, names, tags, label):
    kind, v = out
    ok = kind == "raise" and type(v).__name__ in names
    c.oblige(label if ok else "%s [got %s]" % (label, type(v).__name__ if kind == "raise" else "a normal return"), TRUE if ok else FALSE, tags=tags)
    raise PathEnd()


def same_arr(a, shape, fn):
    """formula: a has this shape and a[ix] is fn(ix) (NaN equal to NaN)"""
    a = to_arr(a).copy()
    if len(a._shape) != len(shape):
        return FALSE
    fs = [fz(zint(size_num(x)) == zint(size_num(y))) for x, y in zip(a._shape, shape)]

    def body(*ix):
        x, y = a.at(*ix), fn(*ix)
        if isinstance(x, Bool) or isinstance(y, Bool):
            return fiff(toF(to_bool(x)), toF(to_bool(y)))
        return fz(same_z(to_num(x), to_num(y)))
    return fand(*(fs + [forall(list(shape), body)]))


def lemma(c, label, goal, tags=(), kind="lemma"):
    """prove, then use"""
    c.oblige(label, goal, tags=tags, kind=kind)
    c.assume(goal)


def is_arr(x, *shape):
    return isinstance(x, Arr) and len(x._shape) == len(shape)


def frame(c, snap, tags, allowed=(), label="nothing else is modified"):
    """frame condition: locations outside `allowed` [(object, key)] are unchanged"""
    al = {(id(o), k) for o, k in allowed}
    bad = [(o, k) for o, k in snap.diff() if (id(o), k) not in al and (id(o), "*") not in al]
    names = ", ".join("%s.%s" % (type(o).__name__, k) for o, k in bad)
    c.oblige(label + (" [changed: %s]" % names if bad else ""), TRUE if not bad else FALSE, tags=tags, kind="frame")


def global_state():
    """module variables, class attributes and default arguments of the package"""
    import types
    out = []

    def fun(f):
        f = getattr(f, "__vc_raw__", f)
        out.extend(f.__defaults__ or ())
        out.extend((f.__kwdefaults__ or {}).values())
    for name, m in sorted(sys.modules.items()):
        if not (name == "vc_pyswarms" or name.startswith("vc_pyswarms.")):
            continue
        for k, v in vars(m).items():
            if k.startswith("__") or k in ("VC__", "_vc_loader") or k in VCRT.builtins:
                continue
            if isinstance(v, types.FunctionType):
                fun(v)
            elif isinstance(v, type) and v.__module__.startswith("vc_pyswarms"):
                for k2, w in vars(v).items():
                    if isinstance(w, (staticmethod, classmethod)):
                        w = w.__func__
                    if isinstance(w, types.FunctionType):
                        fun(w)
                    elif not k2.startswith("__"):
                        out.append(w)
            elif not isinstance(v, (types.ModuleType, type)):
                out.append(v)
    return [x for x in out if isinstance(x, (dict, list, set, Arr, SList, SDeque)) or type(x).__module__.startswith("vc_pyswarms")]


def mk_swarm(c, n, d, **over):
    """arbitrary swarm record through the real class"""
    S = imp("backend.swarms").Swarm
    kw = dict(position=sym_arr("X", (n, d)), velocity=sym_arr("V", (n, d)),
              pbest_pos=sym_arr("P", (n, d)), pbest_cost=sym_arr("PC", (n,), kinds=True),
              best_pos=sym_arr("G", (n, d)), current_cost=sym_arr("C", (n,), kinds=True),
              best_cost=sym_real("gc", ext=True))
    kw.update(over)
    kw.setdefault("options", {"c1": sym_real("c1"), "c2": sym_real("c2"), "w": sym_real("w")})
    return S(**kw)


def mk_bounds(c, d, strict=True):
    lb, ub = sym_arr("lb", (d,)), sym_arr("ub", (d,))
    c.assume(forall([d], lambda j: (lb.at(j) < ub.at(j)) if strict else (lb.at(j) <= ub.at(j))))
    return lb, ub


# ------------------------------------------------------------------- driver
class Result:
    def __init__(self, task):
        self.task = task
        self.obs = []          # obligations
        self.paths = 0
        self.error = None      # Unsupported / engine failure text
        self.wall = 0
        self.called = set()
        self.notes = set()
        self.vacuous = []


def _discharge_one(ob, timeout, deadline):
    try:
        discharge(ob, timeout=timeout, deadline=deadline)
    except Unsupported as e:
        ob.status, ob.reason, ob.backend, ob.time, ob.rounds = "unknown", "unsupported: %s" % e, "", 0, 0
    except (z3.Z3Exception, RecursionError) as e:
        ob.status, ob.reason, ob.backend, ob.time, ob.rounds = "unknown", "solver: %s" % e, "", 0, 0


def explore_task(t, verbose=False):
    """symbolic execution of the real functions: paths and their proof obligations"""
    from pyvc.core import explore
    r = Result(t)
    t0 = time.time()
    mod()
    try:
        paths = explore(lambda c: t.fn(c), dict(t.opts), max_paths=t.max_paths)
    except Unsupported as e:
        r.error = "unsupported: %s" % e
    except RecursionError:
        r.error = "engine: recursion limit"
    except Exception as e:
        r.error = "engine: %s: %s" % (type(e).__name__, e)
        if verbose:
            import traceback
            traceback.print_exc()
    r.ctxs = []
    if r.error is None:
        r.ctxs = paths
        r.paths = len(paths)
        for c in paths:
            r.called |= c.ghost.get("called", set())
            r.notes |= c.notes
            r.obs.extend(c.obligations)
    r.wall = time.time() - t0
    return r


def feasible(c):
    s = z3.Solver()
    s.set("timeout", 3000)
    for f in c.sink.facts:
        s.add(f)
    return s.check() != z3.unsat


def model_text(ob, limit=40):
    m = getattr(ob, "model", None)
    if m is None:
        return ""
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append("%s = %s" % (d.name(), m[d]))
    return "\n".join(sorted(out)[:limit])


def run_task(t, timeout=6000, deadline=30, budget=240, verbose=False, want=None, procs=1, sem=None):
    """explore, then discharge the obligations selected by want(ob), on `procs` worker processes;
    sem: semaphore shared with other tasks, one token per running job"""
    import pickle
    if sem is None:
        import contextlib
        sem = contextlib.nullcontext()
    with sem:
        r = explore_task(t, verbose)
    t0 = time.time()
    obs = [o for o in r.obs if want is None or want(o)]
    r.skipped = len(r.obs) - len(obs)
    r.obs = obs
    for o in obs:
        o.status, o.reason, o.backend, o.time, o.rounds, o.modeltext = "unknown", "task budget", "", 0, 0, ""
    jobs = [("ob", i) for i in range(len(obs))] + [("path", i) for i, c in enumerate(r.ctxs) if c.outcome != "infeasible"]
    r.feasible = 0

    def work(job):
        k, i = job
        if k == "path":
            return (k, i, feasible(r.ctxs[i]))
        o = obs[i]
        _discharge_one(o, timeout, deadline)
        return (k, i, o.status, o.reason, o.backend, o.time, o.rounds, model_text(o) if o.status == "refuted" else "")

    def take(x):
        if x[0] == "path":
            r.feasible += bool(x[2])
        else:
            o = obs[x[1]]
            o.status, o.reason, o.backend, o.time, o.rounds, o.modeltext = x[2:]
    if procs <= 1:
        for j in jobs:
            with sem:
                if time.time() - t0 > budget:
                    break
                take(work(j))
    elif jobs:
        import select, signal
        from multiprocessing import Value
        nxt = Value("i", 0)
        pipes = []
        for w in range(min(procs, len(jobs))):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rd)
                    f = os.fdopen(wr, "wb")
                    while True:
                        with nxt.get_lock():
                            j = nxt.value
                            nxt.value += 1
                        if j >= len(jobs) or time.time() - t0 > budget:
                            break
                        with sem:
                            if time.time() - t0 > budget:
                                break
                            x = work(jobs[j])
                        pickle.dump(x, f)
                        f.flush()
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            os.close(wr)
            pipes.append((pid, os.fdopen(rd, "rb")))
        import threading
        lock = threading.Lock()

        def drain(f):
            while True:
                try:
                    x = pickle.load(f)
                except EOFError:
                    return
                with lock:
                    take(x)
        ths = [threading.Thread(target=drain, args=(f,)) for _, f in pipes]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        for pid, f in pipes:
            f.close()
            os.waitpid(pid, 0)
    if verbose:
        for ob in r.obs:
            print("  %-11s %-7s %5.2fs %s" % (ob.status, ob.backend, ob.time, ob.label), ob.tags, getattr(ob, "reason", ""))
    r.vacuous = [c for c in r.ctxs if c.outcome == "done" and not c.obligations]
    r.wall += time.time() - t0
    return r
