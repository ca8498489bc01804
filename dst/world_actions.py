"""event actions, as data: shared by the simulated program's user code and the reference"""


def apply_action(do, t, get, put):
    """the same action on a reference store"""
    for kind, v, val in do:
        if kind in ("add", "aug", "addk", "addh", "named"):
            put(v, get(v) + val)
        elif kind == "mul":
            put(v, get(v) * val)
        elif kind == "set":
            put(v, float(val))
        elif kind == "time":
            put(v, t)
        elif kind == "copy":
            put(v, get(val))
        elif kind == "addif":
            amount, cvar, thr = val
            if get(cvar) > thr:
                put(v, get(v) + amount)
