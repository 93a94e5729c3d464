"""Pristine processes: run a function in a forked child of this process.

A worker that never runs the code under test itself hands every execution to a
child, so each starts with the module state of a freshly imported package and
can leave nothing behind for the next."""
import json, os, signal, traceback

_fork, _pipe, _read, _write, _close, _exit = os.fork, os.pipe, os.read, os.write, os.close, os._exit
_waitpid, _kill = os.waitpid, os.kill


def warm():
    """Import everything once, so that children need not."""
    import importlib
    for m in ("numpy", "pysim.sim.simulator", "pysim.sim.logger", "pysim.models.rfid.configurator",
              "pysim.models.rfid.objects", "pysim.models.rfid.handlers", "pysim.models.rfid.cli",
              "pysim.models.pingpong.cli", "pysim.models.pingpong.objects",
              "pysim.models.tag_time.cli", "pysim.models.tag_time.objects", "pysim.models.tag_time.mc"):
        importlib.import_module(m)


def in_child(fn):
    """-> what fn returned (through JSON). Failures of the harness in the child
    are raised here again; fn is expected to catch those of the code under test."""
    from . import engine
    r, w = _pipe()
    pid = _fork()
    if pid == 0:
        code = 0
        try:
            _close(r)
            left = signal.getitimer(signal.ITIMER_REAL)[0]
            signal.setitimer(signal.ITIMER_VIRTUAL, engine.CPU_LIMIT * 2)
            signal.setitimer(signal.ITIMER_REAL, left or engine.REAL_LIMIT)
            try:
                out = {"ok": fn()}
            except (engine.Hang, engine.Cap) as e:
                out = {"hang": type(e).__name__}
            except BaseException as e:
                m = engine._malformed(e)
                out = {"malformed": m} if m else {"err": traceback.format_exc()}
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            data = json.dumps(out).encode()
            while data:
                data = data[_write(w, data):]
        except BaseException:
            code = 1
        finally:
            _exit(code)
    _close(w)
    buf = []
    try:
        while True:
            b = _read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    except BaseException:
        _kill(pid, signal.SIGKILL)
        raise
    finally:
        _close(r)
        _waitpid(pid, 0)
    if not buf:
        raise engine.HarnessError("a child process ended without a result")
    out = json.loads(b"".join(buf))
    if "hang" in out:
        raise engine.Hang(out["hang"])
    if "malformed" in out:
        raise Malformed(out["malformed"])
    if "err" in out:
        raise engine.HarnessError(out["err"])
    return out["ok"]


class Malformed(Exception):
    pass
