"""Python values -> TLA+ expressions."""
class Coin(dict): pass
def C(**k): return Coin(k)
class Raw(str): pass
def tla(v):
    if isinstance(v, Raw): return str(v)
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, Coin):
        e = "Zero"
        if v:
            e = "[Zero EXCEPT " + ", ".join('!["%s"] = %d' % (k, x) for k, x in v.items()) + "]"
        return e
    if isinstance(v, dict):
        if not v: return "<<>>"
        if all(isinstance(k, str) and k.isidentifier() for k in v):
            return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
        return "(" + " @@ ".join("%s :> %s" % (tla(k), tla(x)) for k, x in v.items()) + ")"
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, tuple) or isinstance(v, list): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)
class S(list):
    """a set given as a list (elements need not be hashable)"""
_old = tla
def tla(v):
    if isinstance(v, S): return "{" + ", ".join(tla(x) for x in v) + "}"
    if isinstance(v, dict) and not isinstance(v, Coin):
        if not v: return "<<>>"
        if all(isinstance(k, str) and k.isidentifier() for k in v):
            return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
        return "(" + " @@ ".join("%s :> %s" % (tla(k), tla(x)) for k, x in v.items()) + ")"
    if isinstance(v, (tuple, list)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    return _old(v)
