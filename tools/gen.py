"""configuration -> TLC model (MC.tla, MC.cfg) and the harness' JSON configuration"""
import json, os
from tla import *

def module(cfg, mode, logfile, depth=None):
    L = ["---- MODULE MC ----", "EXTENDS Milkyway"]
    def d(n, v): L.append("%s == %s" % (n, v))
    d("cUsers", tla(set(cfg["users"]))); d("cNatives", tla(set(cfg["natives"]))); d("cLocked", tla(set(cfg["locked"])))
    d("cNativeOf", '[x \\in {} |-> ""]' if not cfg["locked"] else "(" + " @@ ".join('"%s" :> "%s"' % kv for kv in cfg["locked"].items()) + ")")
    d("cRwd", tla(set(cfg["rwd"])))
    d("cExpMul", "(" + " @@ ".join("%d :> %d" % kv for kv in cfg["expmul"].items()) + ")")
    bs = " @@ ".join(['"%s" :> %s' % (a, tla(c)) for a, c in cfg["bal"].items()] + ["[z \\in Accts |-> Zero]"])
    par = cfg["par"]
    p = "[BaseState.par EXCEPT " + ", ".join("!.%s = %s" % (k, tla(v)) for k, v in par.items()) + "]" if par else "BaseState.par"
    ast = tla({k: dict(tick=v[0], exp=v[1]) for k, v in cfg["ast"].items()})
    d("cInit0", "[bal |-> %s, par |-> %s, ast |-> %s, price |-> %s]" % (bs, p, ast, tla(cfg["price"])))
    o = dict(cfg["opts"])
    o["kinds"] = set(cfg["kinds"])
    w = []
    for k in cfg["kinds"]: w += [k] * cfg["weights"].get(k, 2)
    o["weighted"] = w; o["okpct"] = cfg["okpct"]; o["txpct"] = cfg["txpct"]
    d("cC", tla(o)); d("cPrefix", tla(cfg["prefix"]))
    L.append("====")
    c = ["SPECIFICATION " + ("Spec" if mode == "mc" else "SimSpec"), "CHECK_DEADLOCK FALSE",
         "INVARIANT " + ("MCInv" if mode == "mc" else "SimInv"), "CONSTANTS"]
    if mode == "mc": c.insert(2, "VIEW View")
    for k in ["Users", "Natives", "Locked", "NativeOf", "Rwd", "ExpMul", "Init0", "C", "Prefix"]: c.append("  %s <- c%s" % (k, k))
    for k in ["op", "svc", "pool", "plan"]: c.append("  Max%s = %d" % (k.capitalize(), cfg["max" + k]))
    c.append("  UPD = %d" % cfg["upd"]); c.append("  Frac = %d" % cfg["frac"]); c.append("  Depth = %d" % (depth or cfg["depth"])); c.append('  LogFile = "%s"' % logfile)
    return "\n".join(L) + "\n", "\n".join(c) + "\n"

def plain(v):
    """python value of a configuration -> JSON"""
    if isinstance(v, (set, frozenset)): return sorted(plain(x) for x in v)
    if isinstance(v, dict): return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [plain(x) for x in v]
    return v

def harness(cfg):
    par = dict(unb=3, rden=set(), deact=2, opfee={}, svfee={}, plfee={}, pct=50, mint=set(), burn=set(), trust=set(), chan=set())
    par.update(cfg["par"])
    pairs = lambda c: [[k, v] for k, v in sorted(c.items())]
    return plain(dict(
        users=cfg["users"], initbal=[[u, d, x] for u, c in cfg["bal"].items() if u in cfg["users"] for d, x in c.items()],
        escrow=pairs(cfg["bal"].get("esc", {})), unbond=par["unb"], deact=par["deact"], restdenoms=par["rden"],
        opfee=pairs(par["opfee"]), svcfee=pairs(par["svfee"]), planfee=pairs(par["plfee"]), lvpct=par["pct"],
        minters=par["mint"], burners=par["burn"], trusted=par["trust"], channels=par["chan"],
        assets=[[d, v[0], v[1]] for d, v in sorted(cfg["ast"].items())], prices=pairs(cfg["price"]),
        unit=int(cfg["unit"] * 1000), scale=str(cfg["scale"]), denoms=cfg["denoms"], rwd=cfg["rwd"], natives=cfg["natives"], locked=cfg["locked"],
        frac=cfg["frac"], tol=cfg["tol"], tolstep=cfg["tolstep"], prefix=cfg["prefix"]))

def govmodule(cfg, mode, logfile, depth):
    """MWGov.tla: admission of transactions"""
    fn = lambda d, f: "(" + " @@ ".join('"%s" :> %s' % (k, f(v)) for k, v in sorted(d.items())) + ")" if d else "[x \\in {} |-> 0]"
    m = "\n".join(["---- MODULE MC ----", "EXTENDS MWGov", "cRate == " + fn(cfg["rate"], str), "cDele == " + fn(cfg["dele"], lambda v: fn(v, str)), "===="])
    c = "\n".join(["SPECIFICATION " + ("Spec" if mode == "govmc" else "SimSpec"), "CHECK_DEADLOCK FALSE", "INVARIANT Inv", "CONSTANTS", "  Rate <- cRate", "  Dele <- cDele",
                   "  Depth = %d" % depth, '  LogFile = "%s"' % logfile])
    return m + "\n", c + "\n"

def write(name, mode, out, depth=None):
    from configs import CONFIGS
    cfg = CONFIGS[name]
    os.makedirs(out, exist_ok=True)
    if mode.startswith("gov"):
        m, c = govmodule(cfg, mode, out + "/log.json", depth or cfg["depth"])
    else:
        m, c = module(cfg, mode, out + "/log.json", depth)
    open(out + "/MC.tla", "w").write(m); open(out + "/MC.cfg", "w").write(c)
    json.dump(cfg if mode.startswith("gov") else harness(cfg), open(out + "/cfg.json", "w"), indent=1)

if __name__ == "__main__":
    import sys
    write(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else None)
