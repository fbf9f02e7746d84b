------------------------------ MODULE MWRewards ------------------------------
(***************************************************************************)
(* Rewards. The implementation computes rewards lazily (periods, historical*)
(* ratios); here they are pushed: every allocation immediately adds to what*)
(* each delegator is owed (`ent`). Divisions round down; the conformance   *)
(* harness compares reward amounts up to that rounding.                    *)
(***************************************************************************)
EXTENDS MWBase

Tokens(s, t) ==
    CASE t \in PoolTs -> s.ptk[IdOf[t]]
      [] t \in OpTs   -> s.ops[IdOf[t]].tk
      [] OTHER        -> s.svs[IdOf[t]].tk

\* Pay what the user has earned from the target, to the chosen address.
Settle(s, u, t) ==
    IF <<u, t>> \notin DOMAIN s.ent THEN s
    ELSE [Move(s, "rwd", s.wd[u], Whole(s.ent[<<u, t>>])) EXCEPT !.ent = Drop(@, {<<u, t>>})]

RECURSIVE SettleAll(_, _)
SettleAll(s, K) == IF K = {} THEN s
                   ELSE LET k == CHOOSE k \in K : TRUE
                        IN SettleAll(Settle(s, k[1], k[2]), K \ {k})

\* value of one unit of a denom
Val(s, d) == IF d \in DOMAIN s.ast /\ s.ast[d].tick \in DOMAIN s.price
             THEN s.price[s.ast[d].tick] * ExpMul[s.ast[d].exp] ELSE 0
Value(s, c, RD) == MapThenSumSet(LAMBDA d : c[d] * Val(s, d),
                                 {d \in Denoms : c[d] > 0 /\ (RD = {} \/ d \in RD)})

\* the denoms that count for a service (together with whether it has any)
Countable(s, i) ==
    LET G == s.par.rden  A == s.svs[i].den
    IN IF G = {} THEN [any |-> TRUE, d |-> A]
       ELSE IF A = {} THEN [any |-> TRUE, d |-> G]
       ELSE [any |-> (G \cap A) # {}, d |-> G \cap A]

TrustingShares(s, p, i) ==
    SumOver({u \in Users : Trusts(s, u, i)}, LAMBDA u : Del(s, u, PT[p]))

\* The targets that take part in the distribution of a service, with their value.
PoolInfos(s, i, RD) ==
    {x \in { [t |-> PT[p], v |-> Value(s, s.ptk[p], RD)] :
             p \in {p \in DOMAIN s.pls :
                      /\ s.par.rden = {} \/ s.pls[p] \in s.par.rden
                      /\ Secures(s, p, i)
                      /\ Pos(TrustingShares(s, p, i))} } : x.v > 0}
OpInfos(s, i, RD) ==
    {x \in { [t |-> OT[o], v |-> Value(s, s.ops[o].tk, RD)] :
             o \in {o \in DOMAIN s.ops :
                      /\ s.ops[o].st = "A"
                      /\ <<o, i>> \in s.join
                      /\ CanValidate(s, o, i)} } : x.v > 0}

\* Split r among the targets by the distribution type: set of [t, v, r].
Split(infos, dist, r) ==
    LET tot == MapThenSumSet(LAMBDA x : x.v, infos)
        n   == Cardinality(infos)
        present == {x \in infos : IdOf[x.t] \in DOMAIN dist.ws}
        wtot == MapThenSumSet(LAMBDA x : dist.ws[IdOf[x.t]], present)
    IN CASE dist.ty = "basic" -> {[t |-> x.t, v |-> x.v, r |-> (r * x.v) \div tot] : x \in infos}
         [] dist.ty = "egal"  -> {[t |-> x.t, v |-> x.v, r |-> r \div n] : x \in infos}
         [] dist.ty = "weighted" ->
               {[t |-> x.t, v |-> x.v, r |-> (r * dist.ws[IdOf[x.t]]) \div wtot] : x \in present}

\* One grant: r of reward denom rd to target t of value v, for service i.
Grant(s, i, RD, rd, g) ==
    LET toks == {d \in Denoms : Tokens(s, g.t)[d] > 0 /\ (RD = {} \/ d \in RD) /\ Val(s, d) > 0}
        isPool == g.t \in PoolTs
        isOp == g.t \in OpTs
        part(d) == (g.r * (Tokens(s, g.t)[d] * Val(s, d))) \div g.v
        cm(d) == IF isOp THEN (part(d) * s.ops[IdOf[g.t]].rate) \div 100 ELSE 0
        base(d) == IF isPool THEN TrustingShares(s, IdOf[g.t], i)[d] ELSE Tokens(s, g.t)[d]
        recv == {k \in DOMAIN s.del : k[2] = g.t /\ (isPool => Trusts(s, k[1], i))}
        earn(k) == MapThenSumSet(LAMBDA d : ((part(d) - cm(d)) * s.del[k][d]) \div base(d),
                                 {d \in toks : s.del[k][d] > 0})
        ent1 == [k \in DOMAIN s.ent \cup {k \in recv : earn(k) > 0} |->
                   Plus(Get(s.ent, k, Zero), IF k \in recv THEN Of(rd, earn(k)) ELSE Zero)]
        c == MapThenSumSet(cm, toks)
    IN [s EXCEPT !.ent = ent1,
                 !.com = IF isOp /\ s.ops[IdOf[g.t]].rate > 0 THEN AddTo(@, IdOf[g.t], Of(rd, c)) ELSE @]

RECURSIVE Grants(_, _, _, _, _)
Grants(s, i, RD, rd, gs) ==
    IF gs = {} THEN s
    ELSE LET g == CHOOSE g \in gs : TRUE
         IN Grants(Grant(s, i, RD, rd, g), i, RD, rd, gs \ {g})

\* distribute the amount r of denom rd of plan p
Distribute(s, p, RD, pi, oi, rd, r) ==
    LET i  == p.svc
        vp == MapThenSumSet(LAMBDA x : x.v, pi)
        vo == MapThenSumSet(LAMBDA x : x.v, oi)
        vu == Value(s, s.svs[i].tk, RD)
        W  == (IF vp > 0 THEN p.pd.w ELSE 0) + (IF vo > 0 THEN p.od.w ELSE 0) + (IF vu > 0 THEN p.uw ELSE 0)
        cat(w, v) == IF W > 0 THEN (r * w) \div W ELSE (r * v) \div (vp + vo + vu)
        s1 == IF vp > 0 THEN Grants(s, i, RD, rd, Split(pi, p.pd, cat(p.pd.w, vp))) ELSE s
        s2 == IF vo > 0 THEN Grants(s1, i, RD, rd, Split(oi, p.od, cat(p.od.w, vo))) ELSE s1
    IN IF vu > 0 THEN Grant(s2, i, RD, rd, [t |-> ST[i], v |-> vu, r |-> cat(p.uw, vu)]) ELSE s2

RECURSIVE DistributeAll(_, _, _, _, _, _, _)
DistributeAll(s, p, RD, pi, oi, R, ds) ==
    IF ds = {} THEN s
    ELSE LET d == CHOOSE d \in ds : TRUE
         IN DistributeAll(Distribute(s, p, RD, pi, oi, d, R[d]), p, RD, pi, oi, R, ds \ {d})

PlanActive(s, p) == p.from <= s.now /\ s.now < p.to

\* one plan, one block, dt time units after the previous block
RunPlan(s, n, dt) ==
    LET p == s.plans[n] IN
    IF ~PlanActive(s, p) \/ ~HasSvc(s, p.svc) \/ p.huge THEN s
    ELSE LET cb == Countable(s, p.svc)
             R  == Whole([d \in Denoms |-> (p.amt[d] * dt) \div UPD])
             pi == PoolInfos(s, p.svc, cb.d)
             oi == OpInfos(s, p.svc, cb.d)
         IN IF \/ ~cb.any \/ s.svs[p.svc].st # "A" \/ ~GE(s.bal[LT[n]], R)
               \/ (pi = {} /\ oi = {} /\ Value(s, s.svs[p.svc].tk, cb.d) = 0)
               \/ ~Allowed(s, LT[n], "rwd", R)
            THEN s
            ELSE DistributeAll(Move(s, LT[n], "rwd", R), p, cb.d, pi, oi, R, Supp(R))

RECURSIVE RunPlans(_, _, _)
RunPlans(s, n, dt) ==
    IF n > MaxPlan THEN s
    ELSE RunPlans(IF HasPlan(s, n) THEN RunPlan(s, n, dt) ELSE s, n + 1, dt)

RECURSIVE EndPlans(_, _)
EndPlans(s, n) ==
    IF n > MaxPlan THEN s
    ELSE IF ~HasPlan(s, n) \/ s.plans[n].to > s.now THEN EndPlans(s, n + 1)
    ELSE LET dest == IF HasSvc(s, s.plans[n].svc) THEN ST[s.plans[n].svc] ELSE "community"
             rest == s.bal[LT[n]]
         IN EndPlans(IF Allowed(s, LT[n], dest, rest)
                     THEN [Move(s, LT[n], dest, rest) EXCEPT !.plans = Drop(@, {n})]
                     ELSE s, n + 1)

\* beginning of a block, dt after the previous one (s.now is already the new time)
BeginRewards(s, dt) == IF dt = 0 THEN EndPlans(s, 1) ELSE RunPlans(EndPlans(s, 1), 1, dt)

---------------------------------------------------------------------------
(* messages *)
\* weights may only name existing targets
DistOK(s, dist, ts) == dist.ty = "weighted" =>
    \A i \in DOMAIN dist.ws : i \in DOMAIN ts /\ Exists(s, ts[i])

ChargeFee(s, u, fee, offer) == Move(s, u, "community", offer)
FeeOK(s, u, fee, offer) == \/ ~Pos(fee)
                           \/ /\ \E d \in Denoms : fee[d] > 0 /\ offer[d] >= fee[d]
                              /\ CanSend(s, u, "community", offer)
WithFee(s, u, fee, offer) == IF Pos(fee) THEN ChargeFee(s, u, fee, offer) ELSE s

CreatePlan(s, a) ==
    LET n == s.npn
        p == [svc |-> a.i, amt |-> a.amt, huge |-> a.huge, from |-> a.from, to |-> a.to, pd |-> a.pd, od |-> a.od, uw |-> a.uw]
    IN If( /\ HasSvc(s, a.i) /\ s.svs[a.i].adm = a.u
           /\ a.from < a.to
           /\ DistOK(s, a.pd, PT) /\ DistOK(s, a.od, OT)
           /\ FeeOK(s, a.u, s.par.plfee, a.fee),
           s, [WithFee(s, a.u, s.par.plfee, a.fee) EXCEPT !.plans = Put(@, n, p), !.npn = n + 1])

EditPlan(s, a) ==
    IF ~HasPlan(s, a.p) THEN No(s)
    ELSE LET o == s.plans[a.p]
             p == [svc |-> o.svc, amt |-> a.amt, huge |-> a.huge, from |-> a.from, to |-> a.to, pd |-> a.pd, od |-> a.od, uw |-> a.uw]
         IN If( /\ HasSvc(s, o.svc) /\ s.svs[o.svc].adm = a.u
                /\ s.now < o.to /\ a.from < a.to
                /\ DistOK(s, a.pd, PT) /\ DistOK(s, a.od, OT),
                s, [s EXCEPT !.plans = Put(@, a.p, p)])

WithdrawRewards(s, a) ==
    If(Exists(s, a.t) /\ <<a.u, a.t>> \in DOMAIN s.del, s, Settle(s, a.u, a.t))

\* The whole units accumulated are paid, the fraction stays. When only a fraction is left
\* the implementation may accept and pay nothing, or reject: the outcome is left open.
WithdrawCommission(s, a) ==
    IF ~HasOp(s, a.i) \/ s.ops[a.i].adm # a.u \/ a.i \notin DOMAIN s.com THEN No(s)
    ELSE LET c == Whole(s.com[a.i])
         IN [ok |-> TRUE, soft |-> ~Pos(c),
             s |-> [Move(s, "rwd", s.wd[a.u], c) EXCEPT !.com = Put(@, a.i, Minus(@[a.i], c))]]

SetWithdraw(s, a) == If(a.to \in Users \cup Targets, s, [s EXCEPT !.wd[a.u] = a.to])

ParRewards(s, a) == If(a.u = "gov", s, [s EXCEPT !.par.plfee = a.fee])

---------------------------------------------------------------------------
(* reactions to lifecycle changes *)
\* an operator disappears: its commission goes to its administrator
OnOpDeleted(s, i) ==
    LET c == Whole(Get(s.com, i, Zero))
    IN [Move(s, "rwd", s.wd[s.ops[i].adm], c) EXCEPT !.com = Drop(@, {i})]

\* the trust of users in service i is about to change: everything earned from pools is paid first
SettleTrust(s, us) == SettleAll(s, {k \in DOMAIN s.ent : k[1] \in us /\ k[2] \in PoolTs})
=============================================================================
