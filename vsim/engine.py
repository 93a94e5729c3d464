"""Running one plan safely, shrinking plans, and the worker loop."""
import copy, json, os, signal, sys, traceback

from . import world
from .world import Rng, real

CPU_LIMIT = 30.0         # CPU seconds one simulated run may take
REAL_LIMIT = 200.0       # wall seconds (deadlock guard)


class Hang(BaseException):
    """The run made no progress within its (generous) CPU budget."""


class Cap(BaseException):
    """The run executed more events than its plan can explain."""


class HarnessError(Exception):
    pass


def _on_alarm(signum, frame):
    raise Hang("run exceeded its time budget")


def _from_pysim(exc):
    """Does the innermost non-harness frame of this exception lie in the code
    under test (or in a library it called)?"""
    tb = exc.__traceback__
    root = os.path.join(os.path.abspath(world.REPO), "pysim")
    seen = False
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root + os.sep):
            seen = True
        elif os.sep + "vsim" + os.sep in f and os.path.basename(f) != "world.py":
            seen = False         # world.py only stands in for library calls
        tb = tb.tb_next
    return seen


def _malformed(e):
    """An observer found nothing where the code under test had to hand over a
    value (None), or an object that lost one of its public attributes. Any
    other exception of an observer is an error of the harness."""
    if type(e).__name__ == "Malformed":
        return str(e)
    if isinstance(e, (TypeError, AttributeError)) and "NoneType" in str(e):
        return "a value the run had to provide is None (%s)" % str(e)[:160]
    if isinstance(e, AttributeError) and not str(e.name or "_").startswith("_"):
        o = getattr(e, "obj", None)
        mod = getattr(o if isinstance(o, type) else type(o), "__module__", "") or ""
        if mod == "pysim" or mod.startswith("pysim."):
            return "%s (an observed value is incomplete)" % str(e)[:160]
    return None


def run_plan(check, plan, patience=1):
    """-> outcome dict. Exceptions of the harness itself propagate."""
    from . import kern
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT * patience)
    signal.setitimer(signal.ITIMER_REAL, REAL_LIMIT * patience)

    def failed(rule, msg):
        return {"viol": [{"rule": check.id + "." + rule, "msg": msg}], "digest": rule,
                "sim_time": 0.0, "faults": {}, "probes": {}, "events": 0,
                "nontrivial": True, "sample": None}
    try:
        return check.execute(copy.deepcopy(plan))
    except (Hang, Cap, kern.EventCap) as e:
        return failed("runaway", "the run did not end within its budget (%s)" % type(e).__name__)
    except RecursionError as e:
        return failed("abort", "RecursionError")
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not _from_pysim(e):
            raise
        if _from_pysim(e):
            tb = traceback.extract_tb(e.__traceback__)
            last = [f for f in tb if "pysim" in f.filename][-1]
            return failed("abort", "%s: %s (raised in %s)" % (
                type(e).__name__, str(e)[:200], last.name))
        m = _malformed(e)
        if m:
            return failed("malformed", m)
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        world.release()


def gen_plan(check, seed, i, tier):
    return check.gen(Rng(check.id, seed, i), i, tier)


# ---------------------------------------------------------------- shrinking ----
def _get(plan, path):
    o = plan
    for k in path:
        o = o[k]
    return o


def _resolve(plan, key):
    path = []
    o = plan
    for k in key.split("."):
        if isinstance(o, list):
            k = int(k)
            if k >= len(o):
                return None
        elif not isinstance(o, dict) or k not in o:
            return None
        path.append(k)
        o = o[k]
    return path


def _sublists(o, path):
    """paths of all lists below (and including) path holding lists (op trees)"""
    out = []
    if isinstance(o, list):
        if o and all(isinstance(x, (list, dict)) for x in o):
            out.append(path)
        for i, x in enumerate(o):
            out += _sublists(x, path + [i])
    elif isinstance(o, dict):
        for k, x in o.items():
            out += _sublists(x, path + [k])
    return out


def _numbers(o, path):
    out = []
    if isinstance(o, bool):
        return out
    if isinstance(o, (int, float)):
        out.append(path)
    elif isinstance(o, list):
        for i, x in enumerate(o):
            out += _numbers(x, path + [i])
    elif isinstance(o, dict):
        for k, x in o.items():
            out += _numbers(x, path + [k])
    return out


def shrink(plan, keys, fails, deadline):
    """Delta debugging on the lists named by `keys` (and op trees below them),
    then removal of optional entries, then simpler numbers."""
    best = copy.deepcopy(plan)

    def try_(cand):
        nonlocal best
        if real.monotonic() > deadline:
            return False
        if fails(cand):
            best = cand
            return True
        return False

    def reduce_list(path):
        chunk = max(1, len(_get(best, path)) // 2)
        any_ = False
        while chunk >= 1:
            i = 0
            while True:
                cur = _get(best, path)
                if i >= len(cur) or real.monotonic() > deadline:
                    break
                cand = copy.deepcopy(best)
                del _get(cand, path)[i:i + chunk]
                if try_(cand):
                    any_ = True
                else:
                    i += chunk
            chunk //= 2
        return any_

    progress = True
    while progress and real.monotonic() < deadline:
        progress = False
        for key in keys:
            path = _resolve(best, key)
            if path is None or not isinstance(_get(best, path), list):
                continue
            if reduce_list(path):
                progress = True
            for sub in _sublists(_get(best, path), path):
                try:
                    if isinstance(_get(best, sub), list) and reduce_list(sub):
                        progress = True
                except (KeyError, IndexError, TypeError):
                    continue
    for key in keys:
        path = _resolve(best, key)
        if path is None:
            continue
        for p in _numbers(_get(best, path), path):
            if real.monotonic() > deadline:
                break
            try:
                v = _get(best, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(v, (int, float)) or isinstance(v, bool):
                continue
            for s in (0, 1, int(v) if abs(v) < 1e9 else 0):
                if s == v and type(s) is type(v):
                    break
                if abs(s) > abs(v):
                    continue
                cand = copy.deepcopy(best)
                _get(cand, p[:-1])[p[-1]] = s
                if try_(cand):
                    break
    return best
