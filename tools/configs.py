"""The configurations: each is one finite instance of spec/Milkyway.tla.

mc configurations are explored exhaustively up to `depth` steps after the prefix;
sim configurations are sampled (random behaviours of length `depth`).
"""
from tla import C, S

def base(**k):
    d = dict(users=["a", "b"], natives=["atom", "milk"], locked={}, rwd=[],
             maxop=1, maxsvc=1, maxpool=2, maxplan=1, upd=4, expmul={6: 1, 5: 10}, unit=21600, scale=1000000, frac=1,
             bal={}, par={}, ast={}, price={}, denoms={},
             prefix=[], depth=3, opts={}, kinds=[], weights={}, okpct=85, txpct=8, tol=0.001, tolstep=0.0)
    d.update(k)
    d["opts"] = dict(dict(actors=set(d["users"]), gov={"gov"}, names={"n"}, fees=S([C()]), planfees=S([C()])), **d["opts"])
    return d

def act(n, **k):
    return dict(n=n, **k)

# shorthands for prefixes
def RegOp(u, nm="n"): return act("RegOp", u=u, nm=nm, fee=C())
def CrSvc(u, nm="n"): return act("CrSvc", u=u, nm=nm, fee=C())
def ActSvc(u, i): return act("ActSvc", u=u, i=i)
def DelPool(u, d, x): return act("DelPool", u=u, d=d, x=x)
def DelOp(u, i, c): return act("DelOp", u=u, i=i, c=c)
def DelSvc(u, i, c): return act("DelSvc", u=u, i=i, c=c)
def UndPool(u, d, x): return act("UndPool", u=u, d=d, x=x)
def UndOp(u, i, c): return act("UndOp", u=u, i=i, c=c)
def UndSvc(u, i, c): return act("UndSvc", u=u, i=i, c=c)
def Join(u, i, o): return act("Join", u=u, i=i, o=o)
def AddAllow(u, i, o): return act("AddAllow", u=u, i=i, o=o)
def Borrow(u, i, p): return act("Borrow", u=u, i=i, p=p)
def Block(x): return act("Block", x=x)
def DeactOp(u, i): return act("DeactOp", u=u, i=i)
def SetOpPar(u, i, rate): return act("SetOpPar", u=u, i=i, rate=rate)
def SetSvcPar(u, i, den): return act("SetSvcPar", u=u, i=i, den=den)
def Accredit(i, on=True): return act("Accredit", u="gov", i=i, on=on)
def Prefs(u, tn, ta, ids=()): return act("SetPrefs", u=u, tn=tn, ta=ta, ids=set(ids))
def Mint(u, d, x, to): return act("Mint", u=u, d=d, x=x, to=to)
def Send(u, to, c): return act("Send", u=u, to=to, c=c)
def dist(ty="basic", w=0, ws=None): return dict(ty=ty, w=w, ws=ws or {})
def body(amt, off, ln, pd, od, uw, huge=False): return dict(amt=amt, huge=huge, off=off, len=ln, pd=pd, od=od, uw=uw)
def Plan(u, i, amt, frm, to, pd, od, uw, fee=C(), huge=False):
    return act("CreatePlan", u=u, i=i, amt=amt, huge=huge, **{"from": frm, "to": to}, pd=pd, od=od, uw=uw, fee=fee)
def pr(tn, ta, *ids): return dict(tn=tn, ta=ta, ids=set(ids))
def Deposit(snd, ch, rcv, d, x, lst, form): return dict(snd=snd, ch=ch, rcv=rcv, d=d, x=x, lst=[tuple(l) for l in lst], form=form)

# Reward amounts are large in the specification, so that rounding down there stays negligible.
G = 10000

CONFIGS = {}

# ---------------------------------------------------------------- restaking
STAKE = ["DelPool", "DelOp", "DelSvc", "UndPool", "UndOp", "UndSvc"]
CONFIGS["stake"] = base(
    bal={"a": C(atom=3, milk=1), "b": C(atom=1)},
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1)],
    kinds=STAKE + ["Block"],
    opts=dict(ddel={"atom", "milk"}, amts={1, 2}, coins=S([C(atom=1), C(atom=2, milk=1)]), dts={1, 3}),
    par=dict(unb=3, deact=2), depth=4)
CONFIGS["stakepar"] = base(
    bal={"a": C(atom=3, milk=2), "b": C(atom=2)},
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1), DelPool("a", "atom", 1), DelSvc("a", 1, C(atom=1, milk=1))],
    kinds=STAKE + ["ParRestaking", "SetSvcPar", "DeactSvc", "DeactOp", "Block"],
    opts=dict(ddel={"atom", "milk"}, amts={0, 1}, coins=S([C(), C(atom=1), C(milk=1)]), dts={2}, gov={"gov", "a"},
              unbs={1, 3}, rdens=S([set(), {"atom"}]), dens=S([set(), {"milk"}])),
    par=dict(unb=3, deact=2), depth=3)
# several unbondings from the same target, maturing together and apart
CONFIGS["entries"] = base(
    users=["a"], bal={"a": C(atom=9, milk=2)}, maxpool=1,
    prefix=[RegOp("a"), CrSvc("a"), ActSvc("a", 1), DelPool("a", "atom", 4), DelOp("a", 1, C(atom=3, milk=2)), DelSvc("a", 1, C(atom=2))],
    kinds=["UndPool", "UndOp", "UndSvc", "Block", "ParRestaking"],
    opts=dict(ddel={"atom"}, amts={1, 2}, coins=S([C(atom=1), C(atom=1, milk=1)]), dts={0, 1, 3}, unbs={1, 3}, rdens=S([set()]), gov={"gov"}),
    par=dict(unb=3, deact=2), depth=5)
CONFIGS["simstake"] = base(
    users=["a", "b", "c"], bal={u: C(atom=9, milk=6) for u in "abc"}, maxop=2, maxsvc=2, maxpool=2,
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1)],
    kinds=STAKE + ["ParRestaking", "SetSvcPar", "DeactSvc", "ActSvc", "DeactOp", "ReactOp", "RmOp", "RmSvc", "RegOp", "CrSvc", "Block", "Send"],
    weights={"Block": 5, "ParRestaking": 1, "DeactOp": 1, "DeactSvc": 1, "Send": 1, "UndPool": 3, "UndOp": 3, "UndSvc": 3, "DelPool": 3, "DelOp": 3, "DelSvc": 3},
    opts=dict(ddel={"atom", "milk"}, amts={1, 2, 3, 5}, coins=S([C(atom=1), C(milk=2), C(atom=2, milk=1), C(atom=4)]), dts={0, 1, 2, 5},
              unbs={1, 2, 4}, rdens=S([set(), {"atom"}, {"atom", "milk"}]), dens=S([set(), {"milk"}]),
              sendto={"a", "O1", "S1", "P1", "community"}, scoins=S([C(atom=1)])),
    par=dict(unb=3, deact=2), depth=60)

# ---------------------------------------------------------------- lifecycle
LIFE_OP = ["RegOp", "UpdOp", "DeactOp", "ReactOp", "RmOp", "XferOp", "SetOpPar"]
LIFE_SVC = ["CrSvc", "UpdSvc", "ActSvc", "DeactSvc", "RmSvc", "XferSvc", "SetSvcPar", "Accredit"]
CONFIGS["life"] = base(
    maxop=2, maxsvc=1, maxpool=1, bal={"a": C(atom=3), "b": C(atom=1)},
    prefix=[RegOp("a"), DelOp("b", 1, C(atom=1))],
    kinds=LIFE_OP + ["ParOps", "DelOp", "UndOp", "Block"],
    opts=dict(names={"n", "=", ""}, rates={0, 10, 101}, dts={1, 2}, coins=S([C(atom=1)]), parfees=S([C()]), deacts={1}, gov={"gov", "a"}),
    par=dict(unb=2, deact=2), depth=4)
CONFIGS["lifesvc"] = base(
    maxop=1, maxsvc=2, maxpool=1, bal={"a": C(atom=3), "b": C(atom=1)},
    prefix=[CrSvc("a")],
    kinds=LIFE_SVC + ["DelSvc", "UndSvc", "Block"],
    opts=dict(names={"n", "=", ""}, dens=S([set(), {"atom"}, {"milk"}]), dts={2}, coins=S([C(atom=1)]), gov={"gov", "a"}),
    par=dict(unb=2, deact=2), depth=4)
CONFIGS["simlife"] = base(
    users=["a", "b", "c"], maxop=3, maxsvc=3, maxpool=2, bal={u: C(atom=9, milk=4) for u in "abc"}, rwd=["gold"],
    prefix=[RegOp("a"), CrSvc("b")],
    kinds=LIFE_OP + LIFE_SVC + STAKE + ["ParOps", "ParRestaking", "Join", "Leave", "AddAllow", "RmAllow", "Borrow", "Cease", "SetPrefs", "Block", "WithdrawRewards", "SetWithdraw"],
    weights={"Block": 6, "DelOp": 3, "DelSvc": 3, "UndOp": 3, "UndSvc": 3, "DeactOp": 3, "ReactOp": 2, "RmOp": 4, "RmSvc": 4, "ParOps": 1, "ParRestaking": 1},
    opts=dict(names={"n", "m", "=", ""}, dens=S([set(), {"atom"}, {"milk"}]), dts={0, 1, 2, 4}, amts={1, 2}, ddel={"atom", "milk"},
              coins=S([C(atom=1), C(atom=2, milk=1)]), gov={"gov", "a"}, rates={0, 10, 50, 100, 101}, parfees=S([C()]), deacts={1, 3}, unbs={1, 3},
              rdens=S([set(), {"atom"}]), prefs=S([pr(True, True), pr(False, True), pr(False, False, 1), pr(True, False, 2, 3)]),
              wds={"a", "b", "community", "O1"}),
    par=dict(unb=2, deact=2), depth=70)

# ---------------------------------------------------------------- membership
MEMBER = ["Join", "Leave", "AddAllow", "RmAllow", "Borrow", "Cease"]
CONFIGS["member"] = base(
    maxop=2, maxsvc=2, maxpool=2, bal={"a": C(atom=3, milk=1), "b": C(atom=1)},
    prefix=[RegOp("a"), RegOp("b"), CrSvc("b"), CrSvc("a"), ActSvc("b", 1), DelPool("a", "atom", 1)],
    kinds=MEMBER + ["DeactOp", "RmOp", "DeactSvc", "ActSvc", "RmSvc", "XferOp", "XferSvc", "Block"],
    opts=dict(dts={2}), par=dict(unb=2, deact=2), depth=4)

# allowlists of several services naming the same operators, and the removal of these
CONFIGS["allow"] = base(
    maxop=2, maxsvc=3, maxpool=1, bal={"a": C(atom=1), "b": C(atom=1)},
    prefix=[RegOp("a"), RegOp("a"), CrSvc("b"), ActSvc("b", 1), CrSvc("b"), CrSvc("b"), ActSvc("b", 3), DeactOp("a", 1), DeactOp("a", 2), Block(2)],
    kinds=["AddAllow", "RmAllow", "RmOp", "DeactSvc", "ActSvc", "RmSvc"],
    opts=dict(), par=dict(unb=2, deact=2), depth=5)

# ---------------------------------------------------------------- fees
CONFIGS["fees"] = base(
    maxop=2, maxsvc=2, maxplan=2, rwd=["gold"], bal={"a": C(atom=5, milk=2), "b": C(atom=1, milk=1), "plan1": C()},
    prefix=[],
    kinds=["RegOp", "CrSvc", "CreatePlan", "ParOps", "ParSvc", "ParRewards", "UpdOp", "UpdSvc", "ActSvc", "XferOp"],
    opts=dict(names={"n", ""}, fees=S([C(), C(atom=1), C(atom=2), C(milk=1), C(atom=1, milk=2)]), planfees=S([C(), C(atom=1), C(atom=1, milk=1), C(atom=3)]),
              parfees=S([C(), C(atom=1), C(atom=2, milk=2)]), deacts={2}, gov={"gov", "a"},
              plans=S([body(C(gold=4), 0, 4, dist(), dist(), 0), body(C(gold=4), 4, 0, dist(), dist(), 0)])),
    par=dict(unb=2, deact=2, opfee=C(atom=2, milk=1), svfee=C(atom=1), plfee=C(atom=1, milk=1)), depth=3)

# ---------------------------------------------------------------- liquid vesting
LV = ["Mint", "Burn", "WInsure", "Deposit", "Send"]
IBCD = {"atom": {"base": "uatom", "chan": "channel-0"}}
LVP = lambda **k: dict(dict(pct=50, mint={"m"}, burn={"m"}, trust={"t"}, chan={"channel-0"}), **k)
DEP = lambda u, x, **k: Deposit(k.get("snd", "t"), k.get("ch", "channel-0"), k.get("rcv", "lv"), k.get("d", "atom"), k.get("tot", x), [(u, x)] if "lst" not in k else k["lst"], k.get("form", "v"))
CONFIGS["lv"] = base(
    users=["a", "b", "m"], natives=["atom"], locked={"latom": "atom"}, denoms=IBCD, maxpool=2, maxop=1, maxsvc=1,
    bal={"a": C(atom=1), "b": C(atom=1)},
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1), Mint("m", "atom", 3, "a"), dict(n="Deposit", **DEP("a", 2))],
    kinds=["Mint", "Burn", "WInsure", "Deposit", "Send", "DelPool", "DelOp", "DelSvc", "UndPool", "UndOp", "Block", "ParLV"],
    opts=dict(actors={"a", "m"}, dmint={"atom"}, mamts={2}, mto={"a", "b"}, bcoins=S([C(latom=2), C(latom=4)]), icoins=S([C(atom=1), C(atom=2)]),
              deps=[DEP("a", 1)] and S([DEP("a", 1), DEP("b", 2), DEP("a", 1, tot=2)]), sendto={"b", "O1", "lv"}, scoins=S([C(latom=1)]),
              ddel={"latom"}, amts={2}, coins=S([C(latom=1)]), dts={1, 2}, lvpars=S([LVP(pct=100)]), gov={"gov"}),
    par=dict(unb=2, deact=2, **LVP()), depth=3)
CONFIGS["lvburn"] = base(
    users=["a", "b", "m"], natives=["atom"], locked={"latom": "atom"}, denoms=IBCD, maxpool=1, maxop=1, maxsvc=1,
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1), Mint("m", "atom", 6, "a"), Mint("m", "atom", 2, "b"), dict(n="Deposit", **DEP("a", 4, tot=5, lst=[("a", 4), ("b", 1)])),
            DelPool("a", "latom", 2), DelOp("a", 1, C(latom=2)), DelSvc("a", 1, C(latom=1)), DelOp("b", 1, C(latom=1))],
    kinds=["Burn", "DelPool", "UndPool", "UndOp", "UndSvc", "Send", "Block", "ParRestaking", "WInsure"],
    opts=dict(actors={"a", "m"}, bcoins=S([C(latom=1), C(latom=3), C(latom=6)]), ddel={"latom"}, amts={1}, coins=S([C(latom=1)]), dts={1, 2},
              sendto={"b", "O1"}, scoins=S([C(latom=1)]), unbs={1}, rdens=S([set()]), icoins=S([C(atom=1)])),
    par=dict(unb=2, deact=2, **LVP()), depth=4)
CONFIGS["lvsend"] = base(
    users=["a", "b", "m"], natives=["atom", "milk"], locked={"latom": "atom", "lmilk": "milk"}, denoms=IBCD, maxpool=3, maxop=1, maxsvc=2,
    bal={"a": C(atom=2, milk=2), "b": C(atom=1), "esc": C(milk=3)},
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1), CrSvc("a"), Mint("m", "atom", 4, "a"), Mint("m", "milk", 2, "a"), Mint("m", "atom", 2, "b"), DelPool("a", "atom", 1)],
    kinds=["Mint", "Burn", "Deposit", "Send", "RmSvc", "ParLV", "DelOp", "WInsure", "UndPool", "Block"],
    opts=dict(actors={"a", "b", "m"}, gov={"gov", "m"}, dmint={"atom", "milk"}, mamts={0, 1}, mto={"a", "O1"}, bcoins=S([C(latom=1), C(latom=1, lmilk=1), C(atom=1)]), icoins=S([C(atom=1), C(milk=1), C(latom=1)]),
              sendto={"a", "b", "O1", "S1", "S2", "P1", "lv", "rwd", "community", "plan1"}, scoins=S([C(latom=1), C(latom=1, atom=1), C(lmilk=1), C(atom=1), C()]),
              coins=S([C(atom=1, latom=1), C(lmilk=1)]), ddel={"atom"}, amts={1}, dts={2},
              deps=S([DEP("a", 1), DEP("b", 1, d="milk", form="h"), DEP("a", 4, d="milk", form="h"), DEP("a", 2, lst=[("a", 1), ("b", 1)]), DEP("a", 1, snd="x"), DEP("a", 1, ch="channel-1"),
                      DEP("a", 1, rcv="a"), DEP("a", 2, lst=[("a", 1)]), DEP("a", 1, lst=[("a", 1), ("b", 1)]), DEP("a", 0), DEP("a", 1, lst=[])]),
              lvpars=S([LVP(pct=20, mint={"m", "b"}, burn=set()), LVP(chan=set()), LVP(trust=set())])),
    par=dict(unb=2, deact=2, **LVP()), depth=3)
CONFIGS["simlv"] = base(
    users=["a", "b", "c", "m"], natives=["atom", "milk"], locked={"latom": "atom", "lmilk": "milk"}, rwd=["gold"], denoms=IBCD, maxpool=4, maxop=2, maxsvc=2,
    bal={**{u: C(atom=4, milk=4) for u in "abc"}, "esc": C(milk=20)},
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1), Mint("m", "atom", 8, "a"), Mint("m", "milk", 8, "b"), Mint("m", "atom", 4, "c"), Mint("m", "milk", 4, "a"),
            dict(n="Deposit", **DEP("a", 10, lst=[("a", 3), ("b", 4), ("c", 3)])), dict(n="Deposit", **DEP("a", 8, d="milk", form="h", lst=[("a", 2), ("b", 6)]))],
    kinds=LV + STAKE + ["Block", "ParLV", "ParRestaking", "RegOp", "CrSvc", "ActSvc", "DeactSvc", "RmSvc", "DeactOp", "RmOp"],
    weights={"Block": 5, "Burn": 5, "Deposit": 3, "WInsure": 3, "Send": 3, "ParLV": 1, "ParRestaking": 1, "DeactOp": 1, "DeactSvc": 1},
    opts=dict(actors={"a", "b", "c", "m"}, dmint={"atom", "milk"}, mamts={1, 3}, mto={"a", "b", "c"},
              bcoins=S([C(latom=1), C(latom=3), C(latom=5), C(lmilk=2), C(latom=2, lmilk=2), C(latom=4, lmilk=1)]), icoins=S([C(atom=1), C(milk=1), C(atom=2, milk=1)]),
              sendto={"a", "b", "O1", "S1", "P1", "P2", "lv"}, scoins=S([C(latom=1), C(lmilk=1), C(latom=1, milk=1), C(atom=1)]),
              ddel={"atom", "latom", "lmilk"}, amts={1, 2, 3}, coins=S([C(latom=1), C(latom=2, lmilk=1), C(atom=1, lmilk=2), C(atom=1)]), dts={0, 1, 2, 3},
              deps=S([DEP("a", 1), DEP("b", 2), DEP("c", 2, lst=[("a", 1), ("c", 1)]), DEP("b", 1, d="milk", form="h"), DEP("a", 3, d="milk", form="h", lst=[("a", 1), ("a", 2)]), DEP("a", 2, tot=3)]),
              lvpars=S([LVP(), LVP(pct=100), LVP(pct=20), LVP(pct=33)]), unbs={1, 2, 3}, rdens=S([set()])),
    par=dict(unb=2, deact=2, **LVP()), depth=60)

# ---------------------------------------------------------------- rewards
B0 = dist("basic", 0)
REWBAL = {"a": C(atom=6, milk=4, gold=100*G), "b": C(atom=4, milk=4), "c": C(gold=1000*G)}
AST = {"atom": ("TATOM", 6), "milk": ("TMILK", 5)}
PRICE = {"TATOM": 2, "TMILK": 1}
RW = dict(tol=20, tolstep=20)
CONFIGS["rew"] = base(**RW,
    users=["a", "b", "c"], rwd=["gold"], maxop=1, maxsvc=1, maxpool=2, maxplan=1, bal=REWBAL, ast=AST, price=PRICE,
    prefix=[RegOp("a"), SetOpPar("a", 1, 10), CrSvc("b"), ActSvc("b", 1), Accredit(1), Join("a", 1, 1),
            Plan("b", 1, C(gold=40*G), 0, 40, B0, B0, 0), Send("c", "plan1", C(gold=300*G)), DelPool("a", "atom", 1), DelOp("b", 1, C(atom=1)), Block(1)],
    kinds=STAKE + ["WithdrawRewards", "Block", "SetPrefs", "Leave", "DeactOp", "DeactSvc"],
    opts=dict(actors={"a", "b"}, ddel={"atom"}, amts={1}, coins=S([C(atom=1), C(milk=2)]), dts={1, 2}, prefs=S([pr(False, False)])),
    par=dict(unb=3, deact=2), depth=3)
DISTS = [body(C(gold=40*G), 0, 20, dist("basic", 1), dist("basic", 2), 1), body(C(gold=40*G), 0, 20, dist("egal", 1), dist("egal", 1), 0),
         body(C(gold=40*G), 1, 20, dist("weighted", 1, {1: 3, 2: 1}), dist("weighted", 3, {1: 1, 2: 4}), 2), body(C(gold=40*G), 0, 2, B0, B0, 0)]
CONFIGS["dist"] = base(**RW,
    users=["a", "b", "c"], rwd=["gold"], maxop=2, maxsvc=1, maxpool=2, maxplan=1, bal=REWBAL, ast=AST, price=PRICE,
    prefix=[RegOp("a"), RegOp("b"), SetOpPar("a", 1, 25), CrSvc("b"), ActSvc("b", 1), Join("a", 1, 1), Join("b", 1, 2), Prefs("a", True, True), Prefs("b", True, False),
            DelPool("a", "atom", 2), DelPool("b", "milk", 1), DelPool("b", "atom", 1), DelOp("b", 1, C(atom=1, milk=1)), DelOp("a", 2, C(atom=1)), DelSvc("a", 1, C(milk=1)),
            Plan("b", 1, C(gold=40*G), 0, 40, B0, B0, 0), Send("c", "plan1", C(gold=300*G))],
    kinds=["EditPlan", "Block", "SetPrice", "DeregAsset", "RegAsset", "SetSvcPar", "ParRestaking", "Borrow", "AddAllow", "RmAllow", "Cease", "SetPrefs"],
    opts=dict(actors={"b"}, plans=S(DISTS), dts={1}, ticks={"TATOM"}, prices={0, 5}, adens={"atom"}, exps={5}, dens=S([{"atom"}, {"milk"}]), unbs={3}, rdens=S([{"atom"}, {"milk"}]),
              prefs=S([pr(False, False), pr(False, False, 1)])),
    par=dict(unb=3, deact=2), depth=4)
CONFIGS["plan"] = base(
    users=["a", "b", "c"], rwd=["gold", "silv"], maxop=1, maxsvc=2, maxpool=1, maxplan=2, bal={"a": C(atom=4), "b": C(atom=4), "c": C(gold=200, silv=50)}, ast=AST, price=PRICE,
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1), DelSvc("a", 1, C(atom=1)), Plan("b", 1, C(gold=8), 1, 4, B0, B0, 0), Send("c", "plan1", C(gold=5))],
    kinds=["CreatePlan", "EditPlan", "FundPlan", "DeactSvc", "ActSvc", "RmSvc", "UndSvc", "Block", "XferSvc", "WithdrawRewards"],
    opts=dict(actors={"a", "b"}, plans=S([body(C(gold=8), 0, 2, B0, B0, 0), body(C(gold=4, silv=4), 1, 3, B0, B0, 1), body(C(), 0, 4, B0, B0, 0, huge=True), body(C(gold=4), 2, 0, B0, B0, 0),
                                              body(C(gold=4), 0, 3, dist("weighted", 1, {1: 1}), B0, 0)]),
              funders={"c"}, funds=S([C(gold=3), C(gold=4, silv=2)]), coins=S([C(atom=1)]), dts={1, 3}),
    par=dict(unb=1, deact=2), depth=3)
CONFIGS["trust"] = base(**RW,
    users=["a", "b", "c"], rwd=["gold"], maxop=1, maxsvc=3, maxpool=2, maxplan=1, bal=REWBAL, ast=AST, price=PRICE,
    prefix=[CrSvc("b"), ActSvc("b", 1), CrSvc("b"), ActSvc("b", 2), DelPool("a", "atom", 1), DelPool("b", "atom", 2), Prefs("a", True, True), Prefs("b", False, False, [1]),
            Plan("b", 1, C(gold=40*G), 0, 40, B0, B0, 0), Send("c", "plan1", C(gold=300*G)), Block(1)],
    kinds=["SetPrefs", "Accredit", "DelPool", "UndPool", "CrSvc", "DeactSvc", "RmSvc", "Borrow", "Cease", "Block"],
    opts=dict(actors={"a", "b"}, gov={"gov"}, prefs=S([pr(False, True), pr(True, False), pr(False, False, 1), pr(False, True, 2), pr(False, False)]), ddel={"atom", "milk"}, amts={1}, dts={1}),
    par=dict(unb=3, deact=2), depth=3)
CONFIGS["comm"] = base(**RW,
    users=["a", "b", "c"], rwd=["gold"], maxop=2, maxsvc=1, maxpool=1, maxplan=1, bal=REWBAL, ast=AST, price=PRICE,
    prefix=[RegOp("a"), SetOpPar("a", 1, 50), CrSvc("b"), ActSvc("b", 1), Join("a", 1, 1), DelOp("b", 1, C(atom=2)),
            Plan("b", 1, C(gold=40*G), 0, 40, B0, B0, 0), Send("c", "plan1", C(gold=300*G)), Block(1)],
    kinds=["SetOpPar", "WithdrawCommission", "XferOp", "DeactOp", "RmOp", "ReactOp", "UndOp", "WithdrawRewards", "SetWithdraw", "Block", "UpdOp"],
    opts=dict(actors={"a", "b"}, names={"=", "z"}, rates={0, 20, 100}, coins=S([C(atom=2)]), wds={"c", "b", "community"}, dts={1}),
    par=dict(unb=1, deact=1), depth=4)
# small amounts: what is paid are whole units, a commission keeps its fraction (1000 units of the specification make a coin)
CONFIGS["dust"] = base(tol=0.001, tolstep=0, frac=1000, scale=1, unit=1.5, upd=57600,
    users=["a", "b", "c"], rwd=["gold"], maxop=1, maxsvc=1, maxpool=1, maxplan=1, bal={"a": C(atom=2), "b": C(atom=2), "c": C(gold=900000)}, ast={"atom": ("TATOM", 6)}, price=PRICE,
    prefix=[RegOp("a"), SetOpPar("a", 1, 25), CrSvc("b"), ActSvc("b", 1), Join("a", 1, 1), DelOp("b", 1, C(atom=1)),
            Plan("b", 1, C(gold=6000 * 57600), 0, 40, B0, B0, 0), Send("c", "plan1", C(gold=124000)), Block(1)],
    kinds=["DelOp", "UndOp", "SetOpPar", "WithdrawCommission", "WithdrawRewards", "Block", "DeactOp", "RmOp"],
    opts=dict(actors={"a", "b"}, rates={10, 50}, coins=S([C(atom=1)]), dts={1, 2}),
    par=dict(unb=1, deact=1), depth=5)
CONFIGS["simrew"] = base(**RW,
    users=["a", "b", "c", "d"], rwd=["gold", "silv"], maxop=2, maxsvc=2, maxpool=2, maxplan=2,
    bal={"a": C(atom=8, milk=8), "b": C(atom=8, milk=8), "c": C(gold=400*G, silv=200*G), "d": C(atom=5, milk=5)}, ast=AST, price=PRICE,
    prefix=[RegOp("a"), RegOp("b"), CrSvc("b"), ActSvc("b", 1), Join("a", 1, 1), Plan("b", 1, C(gold=40*G), 0, 30, B0, B0, 0), Send("c", "plan1", C(gold=100*G)), Prefs("d", True, True)],
    kinds=STAKE + ["Block", "CreatePlan", "EditPlan", "FundPlan", "WithdrawRewards", "WithdrawCommission", "SetWithdraw", "SetOpPar", "SetPrefs", "Accredit", "Join", "Leave", "AddAllow", "RmAllow",
                   "Borrow", "Cease", "DeactOp", "ReactOp", "RmOp", "CrSvc", "RegOp", "ActSvc", "DeactSvc", "RmSvc", "SetSvcPar", "SetPrice", "RegAsset", "DeregAsset", "ParRestaking", "XferOp"],
    weights={"Block": 12, "FundPlan": 3, "DeactOp": 1, "DeactSvc": 1, "ParRestaking": 1, "DeregAsset": 1, "WithdrawRewards": 4, "DelPool": 4, "DelOp": 4, "DelSvc": 4, "ActSvc": 3, "RegAsset": 2},
    opts=dict(actors={"a", "b", "d"}, ddel={"atom", "milk"}, amts={1, 2, 3}, coins=S([C(atom=1), C(milk=2), C(atom=2, milk=1)]), dts={0, 1, 2, 4},
              plans=S(DISTS + [body(C(gold=8*G, silv=16*G), 0, 8, dist("egal", 2), dist("basic", 1), 3), body(C(silv=20*G), 2, 10, B0, B0, 0), body(C(), 0, 30, B0, B0, 0, huge=True)]),
              funders={"c"}, funds=S([C(gold=20*G), C(gold=10*G, silv=10*G), C(silv=30*G)]), wds={"a", "b", "d", "O1", "S1"}, rates={0, 5, 30, 100},
              prefs=S([pr(False, True), pr(True, False), pr(True, True), pr(False, False, 1), pr(False, True, 2), pr(True, False, 1, 2)]),
              dens=S([set(), {"atom"}, {"milk"}]), ticks={"TATOM", "TMILK"}, prices={0, 1, 3, 7}, adens={"atom", "milk"}, exps={5, 6}, unbs={2}, rdens=S([set(), {"atom"}, {"atom", "milk"}])),
    par=dict(unb=3, deact=2), depth=60)

# ---------------------------------------------------------------- assets
CONFIGS["asset"] = base(
    users=["a"], natives=["atom", "milk", "usdx"], rwd=["gold"], maxop=1, maxsvc=1, maxpool=1, maxplan=1, bal={"a": C(atom=2, gold=100)},
    prefix=[CrSvc("a"), ActSvc("a", 1), DelSvc("a", 1, C(atom=1)), Plan("a", 1, C(gold=40), 0, 40, B0, B0, 0), Send("a", "plan1", C(gold=80))],
    kinds=["RegAsset", "DeregAsset", "SetPrice", "Block"],
    opts=dict(gov={"gov", "a"}, adens={"atom", "milk", "usdx"}, ticks={"TA", "TB", ""}, exps={5, 6}, prices={3}, dts={1}),
    par=dict(unb=1, deact=1), depth=3)

# ---------------------------------------------------------------- everything
ALL = STAKE + LIFE_OP + LIFE_SVC + MEMBER + LV + ["SetPrefs", "CreatePlan", "EditPlan", "FundPlan", "WithdrawRewards", "WithdrawCommission", "SetWithdraw",
     "RegAsset", "DeregAsset", "SetPrice", "Block", "ParRestaking", "ParOps", "ParSvc", "ParRewards", "ParLV"]
CONFIGS["simall"] = base(**RW,
    users=["a", "b", "c", "m"], natives=["atom", "milk"], locked={"latom": "atom"}, rwd=["gold"], denoms=IBCD, maxpool=3, maxop=3, maxsvc=3, maxplan=2,
    bal={**{u: C(atom=8, milk=8) for u in "ab"}, "c": C(gold=400*G, atom=4)}, ast={**AST, "latom": ("TATOM", 6)}, price=PRICE,
    prefix=[RegOp("a"), CrSvc("b"), ActSvc("b", 1), Mint("m", "atom", 8, "a"), dict(n="Deposit", **DEP("a", 6)), Join("a", 1, 1), Prefs("a", True, True),
            Plan("b", 1, C(gold=40*G), 0, 30, B0, B0, 0), Send("c", "plan1", C(gold=100*G))],
    kinds=ALL,
    weights={"Block": 12, "DeactOp": 1, "DeactSvc": 1, "ParRestaking": 1, "ParOps": 1, "ParSvc": 1, "ParRewards": 1, "ParLV": 1, "DelPool": 4, "DelOp": 4, "DelSvc": 4, "FundPlan": 3},
    opts=dict(actors={"a", "b", "m"}, gov={"gov", "m"}, names={"n", "q", "=", ""}, fees=S([C(), C(milk=1), C(atom=1)]), planfees=S([C(), C(milk=1)]), parfees=S([C(), C(milk=1)]), deacts={1, 3},
              ddel={"atom", "milk", "latom"}, amts={1, 2, 3}, coins=S([C(atom=1), C(milk=2), C(atom=2, milk=1), C(latom=1)]), dts={0, 1, 2, 4},
              plans=S(DISTS + [body(C(gold=8*G), 0, 8, dist("egal", 2), dist("basic", 1), 3), body(C(), 0, 30, B0, B0, 0, huge=True)]),
              funders={"c"}, funds=S([C(gold=20*G), C(gold=10*G)]), wds={"a", "b", "c", "community", "S1"}, rates={0, 5, 30, 100, 101},
              prefs=S([pr(False, True), pr(True, False), pr(True, True), pr(False, False, 1), pr(False, True, 2), pr(True, False, 1, 2)]),
              dens=S([set(), {"atom"}, {"milk", "latom"}]), ticks={"TATOM", "TMILK"}, prices={0, 1, 3, 7}, adens={"atom", "milk", "latom"}, exps={5, 6}, unbs={2, 3}, rdens=S([set(), {"atom", "latom"}]),
              dmint={"atom"}, mamts={1, 3}, mto={"a", "b"}, bcoins=S([C(latom=1), C(latom=3), C(latom=5)]), icoins=S([C(atom=1)]),
              sendto={"a", "b", "O1", "S1", "P1", "lv"}, scoins=S([C(latom=1), C(atom=1)]), deps=S([DEP("a", 2), DEP("b", 2)]), lvpars=S([LVP(), LVP(pct=100), LVP(pct=20)])),
    par=dict(unb=2, deact=2, **LVP()), depth=70)

# ---------------------------------------------------------------- who may do what
CONFIGS["auth"] = base(
    users=["a", "b", "m"], natives=["atom"], locked={"latom": "atom"}, rwd=["gold"], denoms=IBCD, maxop=1, maxsvc=1, maxpool=1, maxplan=1,
    bal={"a": C(atom=4), "b": C(atom=3), "m": C(gold=100)}, ast={"atom": ("TATOM", 6)}, price={"TATOM": 2},
    prefix=[RegOp("a"), CrSvc("a"), ActSvc("a", 1), Mint("m", "atom", 4, "b"), dict(n="Deposit", **DEP("b", 2)), DelPool("b", "atom", 1), DelOp("b", 1, C(atom=1)),
            SetOpPar("a", 1, 50), Join("a", 1, 1), Plan("a", 1, C(gold=8), 0, 8, B0, B0, 0), Send("m", "plan1", C(gold=40)), Block(1)],
    kinds=[k for k in LIFE_OP + LIFE_SVC + MEMBER + ["EditPlan", "CreatePlan", "WithdrawCommission", "WithdrawRewards", "SetWithdraw", "UndOp", "WInsure", "Mint", "Burn", "Deposit",
           "ParRestaking", "ParOps", "ParSvc", "ParRewards", "ParLV", "RegAsset", "DeregAsset", "SetPrefs"] if k not in ("RegOp", "CrSvc")],
    opts=dict(actors={"a", "b", "m"}, gov={"gov", "a", "m"}, names={"n", "="}, rates={10}, dens=S([{"atom"}]), dts={1}, coins=S([C(atom=1)]), icoins=S([C(atom=1)]),
              parfees=S([C()]), deacts={1}, unbs={3}, rdens=S([set()]), prefs=S([pr(True, True)]), wds={"a"}, plans=S([body(C(gold=4), 0, 4, B0, B0, 0)]), planfees=S([C()]),
              dmint={"atom"}, mamts={1}, mto={"a"}, bcoins=S([C(latom=1)]), deps=S([DEP("a", 1), DEP("a", 1, snd="x"), DEP("a", 1, ch="channel-1"), DEP("a", 1, d="atom", form="h"), DEP("a", 1, rcv="a")]),
              lvpars=S([LVP(mint={"b"}, burn={"b"})]), adens={"atom"}, ticks={"TATOM"}, exps={6}, prices={2}),
    par=dict(unb=2, deact=2, **LVP()), depth=2)

# ---------------------------------------------------------------- export and import of the state
def plus(name, kinds, **k):
    c = dict(CONFIGS[name]); c["kinds"] = c["kinds"] + kinds; c["weights"] = dict(c["weights"], **k.pop("weights", {})); c.update(k)
    return c
for n in ["simall", "simrew", "simlv", "simlife"]:
    CONFIGS[n + "gen"] = plus(n, ["ExportImport"], weights={"ExportImport": 6})
for n in ["rew", "plan", "comm", "lvburn", "member", "stakepar", "life", "lifesvc", "asset", "trust"]:
    CONFIGS[n + "gen"] = plus(n, ["ExportImport"])
CONFIGS["lvburngen"] = plus("lvburngen", ["ParLV"], depth=3)
CONFIGS["lvburngen"]["opts"] = dict(CONFIGS["lvburn"]["opts"], lvpars=S([LVP(pct=100)]))

# ---------------------------------------------------------------- governance: who may vote, what may be expedited (MWGov.tla)
ms = ["m%d" % i for i in range(1, 31)]
cs = ["c%d" % i for i in range(1, 102)]
CONFIGS["gov"] = dict(depth=3, rate=dict({"V": 4, "J": 4, "H": 2, "Q": 3}, **{v: 4 for v in ms + cs}),
    dele=dict(none={}, unb={}, few={"V": 999999}, exact={"V": 1000000}, two={"V": 400000, "J": 600000}, twof={"V": 500000, "J": 499999}, half={"H": 1999998}, halfx={"H": 2000000},
              mixf={"H": 1000000, "V": 250000, "Q": 333332}, mixx={"H": 1000000, "V": 250000, "Q": 333336}, jail={"J": 1000001},
              many={v: 33334 for v in ms}, manyf={v: 33333 for v in ms}, cap={v: 10000 for v in cs[:100]}, capf={v: 9999 for v in cs}))
