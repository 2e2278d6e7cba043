"""Runtime contract checks on the real code: case generators, checks, replay.

A case is a JSON-able dict; `check(case)` runs the real code of /repo and raises Violation with a description when a
contract of the property is broken by that run. Everything random derives from case["seed"].
"""
import json, os, random, sys, time, traceback, warnings, logging
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class Known(Exception):
    """a defect recorded in /verif/known_findings.txt (a violation when it is not listed there)"""

    def __init__(self, ident, msg):
        Exception.__init__(self, msg)
        self.ident = ident


def listed_findings():
    """{(property, id)} of the recorded, unrepaired findings"""
    r = set()
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            w = l.split()
            if len(w) >= 3 and w[0] == "known:" and w[1].startswith("property=") and w[2].startswith("id="):
                r.add((w[1][9:], w[2][3:]))
    return r


KNOWN_HITS = {}


class Skip(Exception):
    """the case does not satisfy the preconditions"""


REG = {}


class Entry:
    def __init__(self, pid, name, gen, fn, quick, thorough):
        self.pid, self.name, self.gen, self.fn, self.quick, self.thorough = pid, name, gen, fn, quick, thorough


def rac(pids, name, gen, quick, thorough=None):
    """register a check; `gen(rng, i)` makes the i-th case; quick/thorough: number of cases"""
    def deco(fn):
        for p in pids:
            REG.setdefault(p, []).append(Entry(p, name, gen, fn, quick, thorough or quick * 10))
        return fn
    return deco


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def in_repo(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "/pyswarms/" in f and "vc_pyswarms" not in f:
            return True
        tb = tb.tb_next
    return False


def quiet():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)


class Late(BaseException):
    pass


class deadline:
    """the block must end within `cpu` seconds of processor time (for calls that take milliseconds)"""

    def __init__(self, cpu, msg):
        self.cpu, self.msg = cpu, msg

    def __enter__(self):
        import signal

        def h(*a):
            raise Late()
        self.old = signal.signal(signal.SIGVTALRM, h)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu)

    def __exit__(self, t, v, tb):
        import signal
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        if t is Late:
            raise Violation("%s within %d s of processor time" % (self.msg, self.cpu)) from None


class TooLong(BaseException):
    pass


def run_case(entry, case):
    """None when the contract held, a description when it did not; a case that takes too long is abandoned (no verdict)"""
    import signal

    def h(*a):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(60)
    try:
        return run_case1(entry, case)
    except TooLong:
        raise RuntimeError("abandoned after 60 s") from None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_case1(entry, case):
    """None when the contract held, a description when it did not"""
    quiet()
    np.random.seed(case["seed"] % (2 ** 32))
    random.seed(case["seed"])
    RTOL[0] = 1e-9
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            entry.fn(case, entry.pid)
    except Violation as e:
        return str(e)
    except Skip:
        return None
    except Known as e:
        if (entry.pid, e.ident) in listed_findings():
            KNOWN_HITS[e.ident] = str(e)
            return None
        return str(e)
    except Exception as e:
        if in_repo(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            at = [f for f in tb if "/pyswarms/" in f.filename]
            return "raises %s: %s (%s:%s)" % (type(e).__name__, e, os.path.relpath(at[-1].filename, REPO), at[-1].lineno)
        raise
    return None


def cases(entry, seed, count):
    for i in range(count):
        rng = random.Random("%s/%s/%s" % (seed, entry.name, i))
        case = entry.gen(rng, i)
        case["seed"] = rng.randrange(2 ** 31)
        case["check"] = entry.name
        yield case


def shape(x, *s):
    a = np.asarray(x)
    need(a.shape == tuple(s), "shape %s instead of %s" % (a.shape, tuple(s)))
    return a


def same(a, b):
    """equal, NaN equal to NaN"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    try:
        return bool(np.array_equal(a, b, equal_nan=True))
    except TypeError:
        return bool(np.array_equal(a, b))


RTOL = [1e-9]


def close(a, b, scale=1.0, rtol=None):
    """equal up to rounding; `scale`: magnitude of the operands of the computation"""
    rtol = rtol or RTOL[0]
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        return False
    if not np.array_equal(a[~fin], b[~fin], equal_nan=True):
        return False
    s = np.broadcast_to(np.asarray(scale, dtype=float), b.shape)[fin]
    return bool(np.all(np.abs(a[fin] - b[fin]) <= rtol * (np.abs(b[fin]) + s)))


def where_differs(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shapes %s and %s" % (a.shape, b.shape)
    with np.errstate(all="ignore"):
        m = ~((a == b) | (np.isnan(a) & np.isnan(b)))
    ix = np.argwhere(m)
    if len(ix) == 0:
        return "nowhere"
    i = tuple(int(v) for v in ix[0])
    return "at %s: got %r, expected %r" % (i, float(a[i]), float(b[i]))
