"""All checks by property id."""


def all_checks():
    out = {}
    import importlib
    for m in ("kern", "logs", "ping", "tagt", "rfid", "rfidobs", "tagdrive", "liveness", "sweep", "saving", "det"):
        try:
            mod = importlib.import_module("vsim." + m)
        except ModuleNotFoundError as e:
            if e.name != "vsim." + m:
                raise
            continue
        for c in mod.CHECKS:
            out[c.id] = c
    return out
