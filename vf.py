"""Common runtime of the checks: legs (a strategy plus an oracle function over a
plain-data case), case execution with classification of what went wrong, and
counting.  See run.py for the driver."""
import ast
import hashlib
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CASE_CPU_S = float(os.environ.get("VERIF_CASE_CPU", "90"))


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is broken (or no longer fits the code)."""


class CaseTimeout(BaseException):
    """Raised inside a case which used far more CPU than any case should."""


def check(cond, msg="property violated", *pa):
    if not cond:
        raise Violation(msg % pa if pa else msg)


def same(got, want, msg=""):
    if got != want:
        raise Violation(f"{msg}: got {short(got)} want {short(want)}")


def short(o, n=600):
    r = o if isinstance(o, str) else repr(o)
    return r if len(r) <= n else r[:n // 2] + f"...<{len(r)}>..." + r[-n // 2:]


class Leg:
    def __init__(self, name, strategy, fn, quick, thorough, enumerate_=None, dd=False):
        self.dd = dd   # any list in a case may lose elements and stay in the domain
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.enumerate_ = enumerate_


def leg(legs, strategy=None, quick=200, thorough=None, cases=None, dd=False):
    """Decorator: register fn(case)->label(s)|None as a leg.  A truthy return
    value marks the case as non-trivial; it is (one or more) class labels.
    `cases` instead of a strategy gives an explicit finite list of cases."""
    def deco(fn):
        legs.append(Leg(fn.__name__, strategy, fn, quick, thorough or quick * 25, cases, dd))
        return fn
    return deco


def weighted(*pairs):
    """A strategy drawing from each of (weight, strategy); one_of drops repeats."""
    from hypothesis import strategies as st
    table = [s for w, s in pairs for _ in range(w)]

    @st.composite
    def pick(draw):
        return draw(table[draw(st.integers(0, len(table) - 1))])
    return pick()


def setup_path():
    sys.dont_write_bytecode = True
    for p in (SRC, os.path.join(VERIF, "shims")):
        if p not in sys.path:
            sys.path.insert(0, p)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import _vfimport
    _vfimport.install()


def in_repo(path):
    return os.path.abspath(path).startswith(os.path.abspath(REPO) + os.sep)


def _alarm(signum, frame):
    raise CaseTimeout()


def quiet_keri():
    """Silence keri's logging (it would flood stderr on rejected inputs)."""
    import logging
    logging.disable(logging.CRITICAL)


def run_case(lg, case):
    """Returns the label(s) of a passing case; raises Violation / HarnessError."""
    try:
        import pysodium
        pysodium._vf_seed(1)
    except ImportError:
        pass
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return lg.fn(case)
    except (Violation, HarnessError):
        raise
    except CaseTimeout:
        raise Violation(f"case did not finish within {CASE_CPU_S} s of CPU time") from None
    except Exception as ex:
        if type(ex).__module__.startswith("hypothesis"):
            raise
        frames = traceback.extract_tb(ex.__traceback__)
        through = any(in_repo(f.filename) for f in frames)
        brief = "".join(traceback.format_exception_only(ex)).strip()
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in frames[-4:])
        last = frames[-1].filename if frames else ""
        api = isinstance(ex, (ImportError, NameError)) or (
            isinstance(ex, AttributeError) and "NoneType" not in str(ex)) or (
            isinstance(ex, TypeError) and ("argument" in str(ex) and "()" in str(ex)))
        if not through and api:
            raise HarnessError(f"{brief} [{where}]") from ex
        obj = getattr(ex, "obj", None)
        home = getattr(sys.modules.get(getattr(obj if isinstance(obj, type) else type(obj), "__module__", "")), "__file__", None) \
            if not hasattr(obj, "__file__") else obj.__file__
        standin = isinstance(ex, (AttributeError, ImportError)) and "/shims/" in (home or getattr(ex, "path", None) or "")
        if standin or isinstance(ex, NotImplementedError) and "shims" in last:
            raise HarnessError(f"{brief} [{where}]") from ex
        raise Violation(f"unexpected {brief} [{where}]") from ex
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def digest(case):
    return hashlib.blake2b(repr(case).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()


def literal(s):
    return ast.literal_eval(s)


def known(pid):
    """key -> description of the findings listed for a property."""
    out = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        if line.startswith(f"known: property={pid} key="):
            key, what = line.strip().split(" key=", 1)[1].split(" ", 1)
            out[key] = what
    return out


def finding(pid, key, msg):
    """A violation, unless this very one is listed as known."""
    if key not in known(pid):
        raise Violation(msg)
    return "known:" + key


def smaller(o):
    """Copies of a case with a run of elements of one of its lists removed."""
    if isinstance(o, list):
        n = len(o)
        size = n
        while size:
            for i in range(0, n, size):
                yield o[:i] + o[i + size:]
            size //= 2
    if isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            for y in smaller(x):
                z = list(o)
                z[i] = y
                yield tuple(z) if isinstance(o, tuple) else z


def reduce(lg, case, msg, until, clock):
    """Greedy deletion after the library's own shrinking."""
    again = True
    while again and clock() < until:
        again = False
        for c in smaller(case):
            if clock() > until:
                break
            try:
                run_case(lg, c)
            except Violation as ex:
                case, msg, again = c, str(ex), True
                break
            except HarnessError:
                pass
    return case, msg
