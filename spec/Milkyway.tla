------------------------------- MODULE Milkyway -------------------------------
(***************************************************************************)
(* The transition system of the MilkyWay restaking chain, its properties,  *)
(* and the generators of behaviours that are replayed into the real code.  *)
(*                                                                         *)
(* `Step(s, a)` is the specification of one transaction (or block, or      *)
(* oracle update) `a` in state `s`.  `ActsOf(s, k)` are the concrete       *)
(* instances of kind k that a configuration C explores in state s - the    *)
(* accepted ones and the ones that have to be rejected.                    *)
(***************************************************************************)
EXTENDS MWAssets, Json, CSV, TLCExt, SequencesExt

CONSTANTS
    C,        \* option sets of the configuration (record)
    Prefix,   \* sequence of actions executed from InitState before the exploration
    Depth,    \* bound on the number of explored steps
    LogFile   \* where behaviours are written ("" = nowhere)

---------------------------------------------------------------------------
(* one block ends, and the next one begins dt later *)
Block(s, a) ==
    LET s1 == BurnMature(PayMature(s))
        s2 == BeginRewards([s1 EXCEPT !.now = @ + a.x], a.x)
    IN Ok(BeginOps(s2))

(* exporting and importing the state changes nothing. (Known finding G28-1: the
   import fails while governance has raised the coverage above what some depositor has.) *)
ExportImport(s) == [ok |-> TRUE, s |-> s,
                    soft |-> \E u \in DOMAIN s.ins : ~Covers(s.par.pct, s.ins[u], ActiveLocked(s, u))]

Step1(s, a) ==
    CASE a.n = "DelPool"   -> DelPool(s, a)
      [] a.n = "DelOp"     -> DelOp(s, a)
      [] a.n = "DelSvc"    -> DelSvc(s, a)
      [] a.n = "UndPool"   -> UndPool(s, a)
      [] a.n = "UndOp"     -> UndOp(s, a)
      [] a.n = "UndSvc"    -> UndSvc(s, a)
      [] a.n = "RegOp"     -> RegOp(s, a)
      [] a.n = "UpdOp"     -> UpdOp(s, a)
      [] a.n = "DeactOp"   -> DeactOp(s, a)
      [] a.n = "ReactOp"   -> ReactOp(s, a)
      [] a.n = "RmOp"      -> RmOp(s, a)
      [] a.n = "XferOp"    -> XferOp(s, a)
      [] a.n = "SetOpPar"  -> SetOpPar(s, a)
      [] a.n = "CrSvc"     -> CrSvc(s, a)
      [] a.n = "UpdSvc"    -> UpdSvc(s, a)
      [] a.n = "ActSvc"    -> ActSvc(s, a)
      [] a.n = "DeactSvc"  -> DeactSvc(s, a)
      [] a.n = "RmSvc"     -> RmSvc(s, a)
      [] a.n = "XferSvc"   -> XferSvc(s, a)
      [] a.n = "SetSvcPar" -> SetSvcPar(s, a)
      [] a.n = "Accredit"  -> Accredit(s, a)
      [] a.n = "Join"      -> Join(s, a)
      [] a.n = "Leave"     -> Leave(s, a)
      [] a.n = "AddAllow"  -> AddAllow(s, a)
      [] a.n = "RmAllow"   -> RmAllow(s, a)
      [] a.n = "Borrow"    -> Borrow(s, a)
      [] a.n = "Cease"     -> Cease(s, a)
      [] a.n = "SetPrefs"  -> SetPrefs(s, a)
      [] a.n = "ParRestaking" -> ParRestaking(s, a)
      [] a.n = "ParOps"    -> ParOps(s, a)
      [] a.n = "ParSvc"    -> ParSvc(s, a)
      [] a.n = "ParRewards" -> ParRewards(s, a)
      [] a.n = "ParLV"     -> ParLV(s, a)
      [] a.n = "CreatePlan" -> CreatePlan(s, a)
      [] a.n = "EditPlan"  -> EditPlan(s, a)
      [] a.n = "WithdrawRewards" -> WithdrawRewards(s, a)
      [] a.n = "WithdrawCommission" -> WithdrawCommission(s, a)
      [] a.n = "SetWithdraw" -> SetWithdraw(s, a)
      [] a.n = "Mint"      -> Mint(s, a)
      [] a.n = "Burn"      -> Burn(s, a)
      [] a.n = "WInsure"   -> WInsure(s, a)
      [] a.n = "Deposit"   -> Deposit(s, a)
      [] a.n = "Send"      -> Send(s, a)
      [] a.n = "RegAsset"  -> RegAsset(s, a)
      [] a.n = "DeregAsset" -> DeregAsset(s, a)
      [] a.n = "SetPrice"  -> SetPrice(s, a)
      [] a.n = "Block"     -> Block(s, a)
      [] a.n = "ExportImport" -> ExportImport(s)

(* several requests in one transaction: all of them take effect, or none *)
RECURSIVE Run(_, _, _)
Run(s, as, i) == IF i > Len(as) THEN Ok(s)
                 ELSE LET r == Step1(s, as[i]) IN IF r.ok THEN Run(r.s, as, i + 1) ELSE r
Tx(s, a) == LET r == Run(s, a.as, 1) IN IF r.ok THEN r ELSE No(s)

Step(s, a) == IF a.n = "Tx" THEN Tx(s, a) ELSE Step1(s, a)

---------------------------------------------------------------------------
(* the instances explored *)
Lesser(a, b) == IF a < b THEN a ELSE b
OpIds(s)   == 1..Lesser(s.nop, MaxOp)
SvcIds(s)  == 1..Lesser(s.nsv, MaxSvc)
PoolIds(s) == 1..Lesser(s.npl, MaxPool)
PlanIds(s) == 1..Lesser(s.npn, MaxPlan)
TargetsOf(s) == {OT[i] : i \in OpIds(s)} \cup {ST[i] : i \in SvcIds(s)} \cup {PT[i] : i \in PoolIds(s)}
AA == C.actors
GV == C.gov      \* who tries what only governance may do

Body(b, now) == [amt |-> b.amt, huge |-> b.huge, from |-> now + b.off, to |-> now + b.off + b.len, pd |-> b.pd, od |-> b.od, uw |-> b.uw]

ActsOf(s, k) ==
    CASE k = "DelPool" -> {[n |-> k, u |-> u, d |-> d, x |-> x] : u \in AA, d \in {d \in C.ddel : PoolFor(s, d) # 0 \/ s.npl <= MaxPool}, x \in C.amts}
      [] k \in {"DelOp", "UndOp"}   -> {[n |-> k, u |-> u, i |-> i, c |-> c] : u \in AA, i \in OpIds(s), c \in C.coins}
      [] k \in {"DelSvc", "UndSvc"} -> {[n |-> k, u |-> u, i |-> i, c |-> c] : u \in AA, i \in SvcIds(s), c \in C.coins}
      [] k = "UndPool" -> {[n |-> k, u |-> u, d |-> d, x |-> x] : u \in AA, d \in C.ddel, x \in C.amts}
      [] k = "RegOp" -> IF s.nop > MaxOp THEN {} ELSE {[n |-> k, u |-> u, nm |-> nm, fee |-> f] : u \in AA, nm \in C.names, f \in C.fees}
      [] k = "CrSvc" -> IF s.nsv > MaxSvc THEN {} ELSE {[n |-> k, u |-> u, nm |-> nm, fee |-> f] : u \in AA, nm \in C.names, f \in C.fees}
      [] k = "UpdOp"  -> {[n |-> k, u |-> u, i |-> i, nm |-> nm] : u \in AA, i \in OpIds(s), nm \in C.names}
      [] k = "UpdSvc" -> {[n |-> k, u |-> u, i |-> i, nm |-> nm] : u \in AA, i \in SvcIds(s), nm \in C.names}
      [] k \in {"DeactOp", "ReactOp", "RmOp", "WithdrawCommission"} -> {[n |-> k, u |-> u, i |-> i] : u \in AA, i \in OpIds(s)}
      [] k \in {"ActSvc", "DeactSvc", "RmSvc"} -> {[n |-> k, u |-> u, i |-> i] : u \in AA, i \in SvcIds(s)}
      [] k = "XferOp"  -> {[n |-> k, u |-> u, i |-> i, to |-> t] : u \in AA, i \in OpIds(s), t \in AA}
      [] k = "XferSvc" -> {[n |-> k, u |-> u, i |-> i, to |-> t] : u \in AA, i \in SvcIds(s), t \in AA}
      [] k = "SetOpPar"  -> {[n |-> k, u |-> u, i |-> i, rate |-> r] : u \in AA, i \in OpIds(s), r \in C.rates}
      [] k = "SetSvcPar" -> {[n |-> k, u |-> u, i |-> i, den |-> d] : u \in AA, i \in SvcIds(s), d \in C.dens}
      [] k = "Accredit" -> {[n |-> k, u |-> u, i |-> i, on |-> b] : u \in GV, i \in SvcIds(s), b \in BOOLEAN}
      [] k \in {"Join", "Leave", "AddAllow", "RmAllow"} -> {[n |-> k, u |-> u, i |-> i, o |-> o] : u \in AA, i \in SvcIds(s), o \in OpIds(s)}
      [] k \in {"Borrow", "Cease"} -> {[n |-> k, u |-> u, i |-> i, p |-> p] : u \in AA, i \in SvcIds(s), p \in PoolIds(s)}
      [] k = "SetPrefs" -> {[n |-> k, u |-> u, tn |-> p.tn, ta |-> p.ta, ids |-> p.ids] : u \in AA, p \in C.prefs}
      [] k = "ParRestaking" -> {[n |-> k, u |-> u, unb |-> x, rden |-> d] : u \in GV, x \in C.unbs, d \in C.rdens}
      [] k = "ParOps" -> {[n |-> k, u |-> u, fee |-> f, deact |-> x] : u \in GV, f \in C.parfees, x \in C.deacts}
      [] k \in {"ParSvc", "ParRewards"} -> {[n |-> k, u |-> u, fee |-> f] : u \in GV, f \in C.parfees}
      [] k = "ParLV" -> {[n |-> k, u |-> u] @@ p : u \in GV, p \in C.lvpars}
      [] k = "CreatePlan" -> IF s.npn > MaxPlan THEN {} ELSE {[n |-> k, u |-> u, i |-> i, fee |-> f] @@ Body(b, s.now) : u \in AA, i \in SvcIds(s), f \in C.planfees, b \in C.plans}
      [] k = "EditPlan" -> {[n |-> k, u |-> u, p |-> p] @@ Body(b, s.now) : u \in AA, p \in PlanIds(s), b \in C.plans}
      [] k = "WithdrawRewards" -> {[n |-> k, u |-> u, t |-> t] : u \in AA, t \in TargetsOf(s)}
      [] k = "SetWithdraw" -> {[n |-> k, u |-> u, to |-> t] : u \in AA, t \in C.wds}
      [] k = "Mint" -> {[n |-> k, u |-> u, d |-> d, x |-> x, to |-> t] : u \in AA, d \in C.dmint, x \in C.mamts, t \in C.mto}
      [] k = "Burn" -> {[n |-> k, u |-> u, who |-> w, c |-> c] : u \in AA, w \in AA, c \in C.bcoins}
      [] k = "WInsure" -> {[n |-> k, u |-> u, c |-> c] : u \in AA, c \in C.icoins}
      [] k = "Deposit" -> {[n |-> k] @@ d : d \in C.deps}
      [] k = "Send" -> {[n |-> k, u |-> u, to |-> t, c |-> c] : u \in AA, t \in C.sendto, c \in C.scoins}
      [] k = "FundPlan" -> {[n |-> "Send", u |-> u, to |-> LT[p], c |-> c] : u \in C.funders, p \in {p \in PlanIds(s) : p < s.npn}, c \in C.funds}
      [] k = "RegAsset" -> {[n |-> k, u |-> u, d |-> d, tick |-> t, exp |-> e] : u \in GV, d \in C.adens, t \in C.ticks, e \in C.exps}
      [] k = "DeregAsset" -> {[n |-> k, u |-> u, d |-> d] : u \in GV, d \in C.adens}
      [] k = "SetPrice" -> {[n |-> k, tick |-> t, x |-> x] : t \in C.ticks \ {""}, x \in C.prices}
      [] k = "Block" -> {[n |-> k, x |-> dt] : dt \in C.dts}
      [] k = "ExportImport" -> {[n |-> k]}

---------------------------------------------------------------------------
(* the observable state, as relations: what the conformance harness compares *)
Tup(k, c) == {k \o <<d, c[d]>> : d \in Supp(c)}
Total0 == [d \in Denoms |-> MapThenSumSet(LAMBDA a : InitState.bal[a][d], Accts)]
CoinsOf(f(_), D) == UNION {Tup(<<k>>, f(k)) : k \in D}
Out(s) ==
  [ now   |-> {<<s.now>>},
    bal   |-> CoinsOf(LAMBDA a : s.bal[a], Accts),
    sup   |-> Tup(<<>>, [d \in Denoms |-> Total0[d] + s.lsup[d] + s.vin[d]]),
    ops   |-> {<<i, s.ops[i].st, s.ops[i].adm, s.ops[i].nm>> : i \in DOMAIN s.ops},
    till  |-> {<<i, s.ops[i].till>> : i \in {i \in DOMAIN s.ops : s.ops[i].st = "I"}},
    oppar |-> {<<i, s.ops[i].rate>> : i \in {i \in DOMAIN s.ops : s.ops[i].hp}},
    svs   |-> {<<i, s.svs[i].st, s.svs[i].adm, s.svs[i].nm>> : i \in DOMAIN s.svs},
    acc   |-> {<<i>> : i \in {i \in DOMAIN s.svs : s.svs[i].acc}},
    svden |-> UNION {{<<i, d>> : d \in s.svs[i].den} : i \in DOMAIN s.svs},
    pls   |-> {<<i, s.pls[i]>> : i \in DOMAIN s.pls},
    tk    |-> CoinsOf(LAMBDA t : Tokens(s, t), {t \in Targets : Exists(s, t)}),
    del   |-> UNION {Tup(k, s.del[k]) : k \in DOMAIN s.del},
    ubd   |-> UNION {Tup(k, s.ubd[k]) : k \in DOMAIN s.ubd},
    join  |-> s.join,
    allow |-> s.allow,
    sec   |-> s.sec,
    prefs |-> {<<u, s.prefs[u].tn, s.prefs[u].ta>> : u \in DOMAIN s.prefs},
    pids  |-> UNION {{<<u, i>> : i \in s.prefs[u].ids} : u \in DOMAIN s.prefs},
    trust |-> UNION {Tup(x, TrustingShares(s, x[1], x[2])) : x \in (DOMAIN s.pls) \X (DOMAIN s.svs)},
    par   |-> {<<"unb", s.par.unb>>, <<"deact", s.par.deact>>, <<"pct", s.par.pct>>},
    pset  |-> {<<"rden", d>> : d \in s.par.rden} \cup {<<"mint", d>> : d \in s.par.mint} \cup {<<"burn", d>> : d \in s.par.burn}
              \cup {<<"trust", d>> : d \in s.par.trust} \cup {<<"chan", d>> : d \in s.par.chan},
    pfee  |-> Tup(<<"op">>, s.par.opfee) \cup Tup(<<"svc">>, s.par.svfee) \cup Tup(<<"plan">>, s.par.plfee),
    ins   |-> UNION {Tup(<<u>>, s.ins[u]) : u \in DOMAIN s.ins},
    burnq |-> UNION {Tup(k, s.burnq[k]) : k \in DOMAIN s.burnq},
    plans |-> {<<i, s.plans[i].svc, s.plans[i].from, s.plans[i].to, s.plans[i].huge>> : i \in DOMAIN s.plans},
    plamt |-> UNION {Tup(<<i>>, s.plans[i].amt) : i \in {i \in DOMAIN s.plans : ~s.plans[i].huge}},
    pldis |-> UNION {LET p == s.plans[i] IN {<<i, "pool", p.pd.ty, p.pd.w>>, <<i, "op", p.od.ty, p.od.w>>, <<i, "user", "basic", p.uw>>} : i \in DOMAIN s.plans},
    plws  |-> UNION {LET p == s.plans[i] IN {<<i, "pool", j, p.pd.ws[j]>> : j \in DOMAIN p.pd.ws} \cup {<<i, "op", j, p.od.ws[j]>> : j \in DOMAIN p.od.ws} : i \in DOMAIN s.plans},
    ent   |-> UNION {Tup(k, s.ent[k]) : k \in DOMAIN s.ent},
    com   |-> UNION {Tup(<<k>>, s.com[k]) : k \in DOMAIN s.com},
    wd    |-> {<<u, s.wd[u]>> : u \in {u \in Users : s.wd[u] # u}},
    ast   |-> {<<d, s.ast[d].tick, s.ast[d].exp>> : d \in DOMAIN s.ast},
    next  |-> {<<"op", s.nop>>, <<"svc", s.nsv>>, <<"pool", s.npl>>, <<"plan", s.npn>>} ]

---------------------------------------------------------------------------
(* invariants: the properties on the specification *)
SumF(S, f(_)) == SumOver(S, f)
TargetsIn(s) == {t \in Targets : Exists(s, t)}
UbdOf(s, t) == SumOver({k \in DOMAIN s.ubd : k[2] = t}, LAMBDA k : s.ubd[k])

Custody(s)   == \A t \in TargetsIn(s) : GE(s.bal[t], Plus(Tokens(s, t), UbdOf(s, t)))          \* R01
Supply(s)    == \A d \in Denoms : MapThenSumSet(LAMBDA a : s.bal[a][d], Accts)
                                  = Total0[d] + s.lsup[d] + s.vin[d]                              \* R01 L16
NoNegative(s) == \A a \in Accts : GE(s.bal[a], Zero)
Ledger(s)    == \A t \in TargetsIn(s) :
                   Tokens(s, t) = SumOver({k \in DOMAIN s.del : k[2] = t}, LAMBDA k : s.del[k])   \* R02
NoEmpty(s)   == (\A k \in DOMAIN s.del : Pos(s.del[k])) /\ (\A k \in DOMAIN s.ubd : Pos(s.ubd[k]))
NoDangling(s) ==                                                                                  \* O14
    /\ \A k \in DOMAIN s.del : Exists(s, k[2])
    /\ \A k \in DOMAIN s.ubd : Exists(s, k[2])
    /\ \A x \in s.join : HasOp(s, x[1]) /\ HasSvc(s, x[2])
    /\ \A x \in s.allow : HasSvc(s, x[1]) /\ HasOp(s, x[2])
    /\ \A x \in s.sec : HasSvc(s, x[1]) /\ HasPool(s, x[2])
    /\ \A k \in DOMAIN s.ent : k \in DOMAIN s.del
    /\ \A i \in DOMAIN s.com : HasOp(s, i)
UniqueIds(s) ==                                                                                   \* O12
    /\ \A i \in DOMAIN s.ops : i < s.nop
    /\ \A i \in DOMAIN s.svs : i < s.nsv
    /\ \A i \in DOMAIN s.plans : i < s.npn
    /\ \A i, j \in DOMAIN s.pls : s.pls[i] = s.pls[j] => i = j
BackedRewards(s) ==                                                                               \* W21
    GE(s.bal["rwd"], Plus(SumOver(DOMAIN s.ent, LAMBDA k : s.ent[k]), SumOver(DOMAIN s.com, LAMBDA k : s.com[k])))
BackedInsurance(s) == GE(s.bal["lv"], SumOver(DOMAIN s.ins, LAMBDA u : s.ins[u]))                 \* L19
\* everything waiting to be burned is going to be there: it is covered by unbondings that mature by then
BurnsCovered(s) ==                                                                                \* L20 R06
    \A k \in DOMAIN s.burnq :
        \A d \in Denoms :
            MapThenSumSet(LAMBDA q : s.burnq[q][d], {q \in DOMAIN s.burnq : q[1] = k[1] /\ q[2] <= k[2]})
            <= s.bal[k[1]][d] + MapThenSumSet(LAMBDA b : s.ubd[b][d], {b \in DOMAIN s.ubd : b[1] = k[1] /\ b[3] <= k[2]})
LockedPlace(s) ==                                                                                 \* L17
    \A a \in Accts \ (Users \cup Targets \cup {"lv"}) : \A d \in Locked : s.bal[a][d] = 0

Sound(s) ==
    /\ Custody(s) /\ Supply(s) /\ NoNegative(s) /\ Ledger(s) /\ NoEmpty(s) /\ NoDangling(s)
    /\ UniqueIds(s) /\ BackedRewards(s) /\ BackedInsurance(s) /\ LockedPlace(s)

---------------------------------------------------------------------------
(* behaviours *)
VARIABLES s, last
vars == <<s, last>>

RECURSIVE RunAll(_, _)
RunAll(st, n) == IF n > Len(Prefix) THEN st
                 ELSE LET r == Step(st, Prefix[n])
                      IN IF r.ok THEN RunAll(r.s, n + 1)
                         ELSE Assert(FALSE, <<"prefix action rejected", n, Prefix[n]>>)
Start == RunAll(InitState, 1)

None == [n |-> "Init"]
Init == s = Start /\ last = [a |-> None, ok |-> TRUE, soft |-> FALSE]

Id(st) == ToString(TLCFP(st)) \o "/" \o ToString(TLCFP(<<st.bal, st.now, st.del, st.ops, st.svs, st>>))
Write(x) == CSVWrite("%1$s", <<ToJson(x)>>, LogFile)

(* exhaustive exploration, up to Depth steps *)
AllActs(st) == UNION {ActsOf(st, k) : k \in C.kinds}
Next == /\ TLCGet("level") <= Depth
        /\ \E k \in C.kinds : \E a \in ActsOf(s, k) :
              LET r == Step(s, a) IN
              /\ r.ok /\ ~r.soft
              /\ s' = r.s
              /\ last' = last
Spec == Init /\ [][Next]_vars
View == s

\* written once for each distinct state: the state, and the outcome of every action in it
LogState ==
    Write([id |-> Id(s), l |-> TLCGet("level"), o |-> Out(s),
           e |-> IF TLCGet("level") > Depth THEN {}
                 ELSE {LET r == Step(s, a) IN
                       [a |-> a, ok |-> r.ok, soft |-> r.soft, t |-> IF r.ok /\ ~r.soft /\ r.s # s THEN Id(r.s) ELSE ""]
                       : a \in AllActs(s)}])
MCInv == Sound(s) /\ LogState

(* random behaviours *)
Pick1(st) ==
    LET k  == C.weighted[RandomElement(1..Len(C.weighted))]
        A  == ActsOf(st, k)
        OK == {a \in A : Step(st, a).ok}
    IN IF A = {} THEN {}
       ELSE IF OK # {} /\ RandomElement(1..100) <= C.okpct THEN {RandomElement(OK)}
       ELSE {RandomElement(A)}
\* requests of persons, which can share a transaction
InTx(p) == \A a \in p : "u" \in DOMAIN a /\ a.u # "gov"
Pick(st) ==
    LET p == Pick1(st) IN
    IF C.txpct = 0 \/ p = {} \/ ~InTx(p) THEN p
    ELSE IF RandomElement(1..100) > C.txpct THEN p
    ELSE LET a == CHOOSE x \in p : TRUE
             r == Step1(st, a)
             q == Pick1(IF r.ok THEN r.s ELSE st)
         IN IF q = {} \/ ~InTx(q) \/ r.soft THEN p
            ELSE IF Step1(IF r.ok THEN r.s ELSE st, CHOOSE x \in q : TRUE).soft THEN p
            ELSE {[n |-> "Tx", as |-> <<a, CHOOSE x \in q : TRUE>>]}
SimNext == \E a \in (LET p == Pick(s) IN IF p = {} THEN {[n |-> "Block", x |-> 0]} ELSE p) :
              LET r == Step(s, a) IN
              /\ s' = IF r.soft THEN s ELSE r.s
              /\ last' = [a |-> a, ok |-> r.ok, soft |-> r.soft]
SimSpec == Init /\ [][SimNext]_vars
SimInv == Sound(s) /\ Write([l |-> TLCGet("level"), a |-> last.a, ok |-> last.ok, soft |-> last.soft, o |-> Out(s)])
=============================================================================
