"""What each property's check explores, and which divergences it reports.

A slice is (configuration, mode, options): `mc` slices are explored exhaustively
by TLC, `sim` slices are random behaviours; every state and every step of both is
executed by the real code. `rules` say which differences between the specification
and the real code break the property; `checks` are the additional checks that the
harness runs on the real states.
"""
STAKE = ["DelPool", "DelOp", "DelSvc", "UndPool", "UndOp", "UndSvc"]
DEL, UND = STAKE[:3], STAKE[3:]
LIFE_OP = ["RegOp", "UpdOp", "DeactOp", "ReactOp", "RmOp", "XferOp", "SetOpPar"]
LIFE_SVC = ["CrSvc", "UpdSvc", "ActSvc", "DeactSvc", "RmSvc", "XferSvc", "SetSvcPar", "Accredit"]
MEMBER = ["Join", "Leave", "AddAllow", "RmAllow", "Borrow", "Cease"]
GOV = ["ParRestaking", "ParOps", "ParSvc", "ParRewards", "ParLV", "Accredit", "RegAsset", "DeregAsset"]
PLAN = ["CreatePlan", "EditPlan"]
OWNED = [k for k in LIFE_OP + LIFE_SVC + MEMBER if k not in ("RegOp", "CrSvc")] + PLAN + GOV + \
        ["WithdrawCommission", "WithdrawRewards", "SetWithdraw", "Mint", "Burn", "Deposit", "WInsure", "SetPrefs", "UndPool", "UndOp", "UndSvc"]

def rule(acts=("*",), outcome="none", rels=(), block=False, bad=False, checks=(), control=False):
    return dict(acts=list(acts), outcome=outcome, rels=list(rels), block=block, bad=bad, checks=list(checks), control=control)

def mc(c, depth=None, **k): return dict(cfg=c, mode="mc", depth=depth, **k)
def sim(c, **k): return dict(cfg=c, mode="sim", **k)

P = {}
def prop(id, rules, slices, checks=(), **k):
    P[id] = dict(id=id, rules=rules, slices=slices, checks=list(checks), **k)

prop("R01", [rule(rels=["bal", "sup", "tk", "ubd"], outcome="effect", checks=["drain"])],
     [mc("stake"), mc("entries", 4), mc("stakepar"), mc("lvburn"), sim("simstake"), sim("simlv"), sim("simall"), sim("simlife")], ["drain"])
prop("R02", [rule(rels=["tk", "del", "bad:shares*", "bad:empty*", "bad:*target*"], outcome="effect", checks=["inv"])],
     [mc("stake"), mc("stakepar"), mc("lifesvc"), sim("simstake"), sim("simlife"), sim("simlv"), sim("simall")], ["inv"])
prop("R03", [rule(acts=STAKE, outcome="any", rels=["*"], bad=True), rule(rels=["del"])],
     [mc("stake"), mc("stakepar"), mc("lv"), sim("simstake"), sim("simlv"), sim("simall")])
prop("R04", [rule(rels=["ubd", "bal", "bad:*unbonding*"], outcome="effect", block=True, checks=["drain"]), rule(acts=UND, outcome="any", rels=["*"])],
     [mc("entries"), mc("stake"), mc("stakepar"), mc("lifesvc"), mc("lvburn"), sim("simstake"), sim("simlife"), sim("simlv")], ["drain"])
prop("R05", [rule(acts=UND + ["WithdrawRewards"], outcome="any", rels=["*"], checks=["exit"], bad=True)],
     [mc("stakepar"), mc("rew"), mc("dist"), mc("lifesvc"), sim("simstake"), sim("simrew"), sim("simlife"), sim("simall")], ["exit"])
prop("R06", [rule(acts=["Block"], outcome="any", rels=["*"], block=True, bad=True, checks=["drain"]), rule(block=True, checks=["drain"])],
     [mc("plan"), mc("dist"), mc("lvburn"), sim("simall"), sim("simrew"), sim("simlv"), sim("simlife")], ["drain"])
prop("R08", [rule(acts=OWNED, outcome="any", bad=True), rule(bad=True), rule(acts=["XferOp", "XferSvc", "SetWithdraw", "UpdOp", "UpdSvc"], rels=["ops", "svs", "wd"]),
             rule(acts=["ParLV"], rels=["par", "pset"])],
     [mc("auth"), mc("comm"), mc("asset"), mc("lvsend", 2), mc("fees"), sim("simlife"), sim("simall")])
prop("R09", [rule(acts=MEMBER, outcome="any", rels=["*"], bad=True), rule(rels=["join", "allow", "sec"]), rule(acts=["Block"], rels=["ent", "com"])],
     [mc("member"), mc("allow"), mc("dist"), sim("simlife"), sim("simrew"), sim("simall")])
prop("O10", [rule(acts=LIFE_OP + ["ParOps"], outcome="any", rels=["*"], bad=True), rule(rels=["ops", "till", "oppar"], block=True)],
     [mc("life"), mc("comm"), mc("member"), sim("simlife"), sim("simall")])
prop("S11", [rule(acts=LIFE_SVC, outcome="any", rels=["*"], bad=True), rule(rels=["svs", "acc", "svden"])],
     [mc("lifesvc"), mc("member"), mc("trust"), sim("simlife"), sim("simall")])
prop("O12", [rule(rels=["next", "ops", "svs", "pls", "plans", "bad:target address*"]), rule(acts=["RegOp", "CrSvc", "DelPool", "CreatePlan"], outcome="any", rels=["*"])],
     [mc("fees"), mc("lifesvcgen"), mc("lifegen"), sim("simlifegen"), sim("simallgen"), sim("simlvgen")])
prop("O13", [rule(acts=["UpdOp", "UpdSvc", "XferOp", "XferSvc", "SetOpPar", "SetSvcPar", "Accredit", "SetPrefs", "SetWithdraw", "ParRestaking", "ParOps", "ParSvc", "ParRewards", "ParLV",
                        "ActSvc", "DeactSvc", "DeactOp", "ReactOp"] + MEMBER, rels=["del", "tk", "ubd", "bal", "sup", "bad:shares*", "ops", "svs", "prefs", "pids", "par", "pset", "pfee"], bad=False)],
     [mc("life"), mc("lifesvc"), mc("stakepar"), mc("trust"), mc("member"), sim("simlife"), sim("simall")])
prop("O14", [rule(acts=["RmOp", "RmSvc"], outcome="any", rels=["*"], bad=True), rule(rels=["bad:dangling*", "bad:*not exist*", "bad:no reward*", "join", "allow", "sec", "oppar"], checks=["drain", "inv"])],
     [mc("life"), mc("lifesvc"), mc("member"), mc("allow"), mc("comm"), mc("lvsend", 2), sim("simlife"), sim("simall"), sim("simrew")], ["drain", "inv"])
prop("F15", [rule(acts=["RegOp", "CrSvc", "CreatePlan"], outcome="any", rels=["*"], bad=True), rule(rels=["pfee"]), rule(acts=LIFE_OP + LIFE_SVC + PLAN + MEMBER + GOV, rels=["bal"])],
     [mc("fees"), sim("simall"), sim("simlife")])
prop("L16", [rule(rels=["sup", "lsup"], outcome="effect"), rule(acts=["Mint", "Burn"], outcome="any", rels=["*"]), rule(acts=["Block"], rels=["burnq", "bal"], block=True)],
     [mc("lv"), mc("lvburn"), mc("lvsend", 2), mc("auth"), sim("simlv"), sim("simall")])
prop("L17", [rule(acts=["Send"], outcome="any", rels=["*"], bad=True), rule(acts=["Mint", "WInsure", "Deposit", "Burn"] + STAKE, rels=["bal"], outcome="effect")],
     [mc("lvsend"), mc("lv"), sim("simlv"), sim("simall")])
prop("L18", [rule(acts=DEL + ["WInsure"], outcome="any", rels=["*"]), rule(rels=["ins", "par"])],
     [mc("lv"), mc("lvburn"), mc("lvsend", 2), sim("simlv"), sim("simall")])
prop("L19", [rule(acts=["Deposit", "WInsure"], outcome="any", rels=["*"], bad=True), rule(rels=["ins"]), rule(acts=["ParLV", "Send", "Burn"], rels=["bal", "pset"])],
     [mc("lv"), mc("lvsend", 2), mc("auth"), sim("simlv"), sim("simall")])
prop("L20", [rule(acts=["Burn"], outcome="any", rels=["*"], bad=True), rule(acts=["Block"], rels=["burnq", "bal", "sup", "ubd"], block=True)],
     [mc("lvburn"), mc("lv"), mc("lvsend", 2), sim("simlv"), sim("simall")])
prop("W21", [rule(rels=["rbal"], checks=["solvent"]), rule(acts=["WithdrawRewards", "WithdrawCommission"], outcome="any", rels=["*"]), rule(rels=["bad:rewards*"])],
     [mc("rew"), mc("dust"), mc("dist"), mc("comm"), sim("simrew"), sim("simall")], ["solvent"])
prop("W22", [rule(acts=["Block"], rels=["ent", "com", "rbal"], block=True, outcome="any")],
     [mc("dist"), mc("rew"), mc("plan"), mc("trust"), sim("simrew"), sim("simall")])
prop("W23", [rule(acts=STAKE + LIFE_OP + LIFE_SVC + MEMBER + ["WithdrawRewards", "SetPrefs", "SetWithdraw", "ParRestaking", "EditPlan"], rels=["ent", "rbal", "wd"]),
             rule(acts=["WithdrawRewards", "SetWithdraw"], outcome="any", rels=["*"], bad=True), rule(rels=["bad:*starting info*", "bad:rewards*"])],
     [mc("rew"), mc("dust"), mc("trust"), mc("comm"), sim("simrew"), sim("simall")])
prop("W24", [rule(acts=PLAN, outcome="any", rels=["*"], bad=True), rule(rels=["plans", "plamt", "pldis", "plws", "rbal"], block=True), rule(acts=["Block"], rels=["ent", "bal"])],
     [mc("plan"), mc("dust"), mc("rew"), mc("dist"), sim("simrew"), sim("simall")])
prop("W25", [rule(rels=["trust"]), rule(acts=["SetPrefs", "Accredit"], outcome="any", rels=["*"])],
     [mc("trust"), mc("rew"), mc("dist"), sim("simrew"), sim("simlife"), sim("simall")])
prop("W26", [rule(rels=["com"]), rule(acts=["WithdrawCommission", "RmOp", "SetOpPar", "XferOp", "UpdOp"], outcome="any", rels=["rbal", "ent", "com", "oppar", "bal"]), rule(acts=["Block"], rels=["ent"])],
     [mc("comm"), mc("dust"), mc("dist"), mc("rew"), sim("simrew"), sim("simall")])
prop("A27", [rule(acts=["RegAsset", "DeregAsset"], outcome="any", rels=["*"], bad=True), rule(rels=["ast", "bad:*ticker*"]), rule(acts=["Block"], rels=["ent"])],
     [mc("asset"), mc("dist"), sim("simrew"), sim("simall")])
prop("G28", [rule(acts=["ExportImport"], outcome="any", rels=["*"], bad=True), rule(acts=["*"], outcome="any", rels=["*"], block=True, bad=True, control=True)],
     [mc(c) for c in ["rewgen", "plangen", "commgen", "lvburngen", "membergen", "stakepargen", "lifegen", "lifesvcgen", "assetgen", "trustgen"]]
     + [sim(c) for c in ["simallgen", "simrewgen", "simlvgen", "simlifegen"]])
prop("I30", [rule(checks=["inv", "damage"])],
     [mc("stake"), mc("rew"), mc("lv"), mc("dist"), sim("simall"), sim("simrew"), sim("simlife")], ["inv", "damage"], persample=200)
prop("Q31", [rule(checks=["query"])],
     [mc("stake", 4), mc("lifesvc"), mc("member"), mc("lv"), mc("asset"), mc("plan"), sim("simall"), sim("simlife"), sim("simlv"), sim("simrew"), sim("simstake")], ["query"], persample=120)
prop("G29", [rule(outcome="any")], [dict(cfg="gov", mode="govmc", depth=None), dict(cfg="gov", mode="govsim", depth=None)], num=12,
     note="Every transaction of up to three messages and three levels of delegated execution around each kind of vote and proposal (exhaustive), and random deeper ones, are signed and run "
          "through the real application in CheckTx and FinalizeBlock mode; admission is compared with the specification (spec/MWGov.tla). Assumes the stakes listed in tools/configs.py.")
