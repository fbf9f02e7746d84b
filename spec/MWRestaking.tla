----------------------------- MODULE MWRestaking -----------------------------
(***************************************************************************)
(* Restaking, unbonding, lifecycle of operators and services, membership.  *)
(***************************************************************************)
EXTENDS MWRewards

---------------------------------------------------------------------------
(* coverage of restaked locked coins by the insurance fund *)
LockedPart(c) == [d \in Denoms |-> IF d \in Locked THEN c[d] ELSE 0]
ActiveLocked(s, u) ==
    LockedPart(Plus(SumOver({k \in DOMAIN s.del : k[1] = u}, LAMBDA k : s.del[k]),
                    SumOver({k \in DOMAIN s.ubd : k[1] = u}, LAMBDA k : s.ubd[k])))
Ins(s, u) == Get(s.ins, u, Zero)
Covers(pct, ins, act) == \A d \in Locked : ins[NativeOf[d]] >= Ceil(pct * act[d], 100)
RestakeOK(s, u, c) ==
    (\E d \in Locked : c[d] > 0) =>
        Covers(s.par.pct, Ins(s, u), Plus(ActiveLocked(s, u), LockedPart(c)))

---------------------------------------------------------------------------
AddTk(s, t, c) ==
    CASE t \in PoolTs -> [s EXCEPT !.ptk[IdOf[t]] = Plus(@, c)]
      [] t \in OpTs   -> [s EXCEPT !.ops[IdOf[t]].tk = Plus(@, c)]
      [] OTHER        -> [s EXCEPT !.svs[IdOf[t]].tk = Plus(@, c)]
SubTk(s, t, c) ==
    CASE t \in PoolTs -> [s EXCEPT !.ptk[IdOf[t]] = Minus(@, c)]
      [] t \in OpTs   -> [s EXCEPT !.ops[IdOf[t]].tk = Minus(@, c)]
      [] OTHER        -> [s EXCEPT !.svs[IdOf[t]].tk = Minus(@, c)]

\* stake c with target t: earned rewards are paid first
Stake(s, u, t, c) ==
    LET s1 == Move(Settle(s, u, t), u, t, c)
    IN AddTk([s1 EXCEPT !.del = AddTo(@, <<u, t>>, c)], t, c)

\* start to unbond c from target t
Unstake(s, u, t, c) ==
    LET s1 == Settle(s, u, t)
    IN SubTk([s1 EXCEPT !.del = SetOrDrop(@, <<u, t>>, Minus(s1.del[<<u, t>>], c)),
                        !.ubd = AddTo(@, <<u, t, s.now + s.par.unb>>, c)], t, c)

Restakable(s, d) == s.par.rden = {} \/ d \in s.par.rden

DelPool(s, a) ==
    LET c == Of(a.d, a.x)
        known == PoolFor(s, a.d)
        p == IF known # 0 THEN known ELSE s.npl
        s1 == IF known # 0 THEN s
              ELSE [s EXCEPT !.pls = Put(@, p, a.d), !.ptk = Put(@, p, Zero), !.npl = p + 1]
    IN IF known = 0 /\ s.npl > MaxPool THEN No(s)   \* never offered, see Milkyway!Acts
       ELSE If(/\ a.x > 0 /\ Restakable(s, a.d) /\ RestakeOK(s, a.u, c)
               /\ CanSend(s1, a.u, PT[p], c),
               s, Stake(s1, a.u, PT[p], c))

DelOp(s, a) ==
    If(/\ HasOp(s, a.i) /\ s.ops[a.i].st = "A"
       /\ Pos(a.c) /\ \A d \in Supp(a.c) : Restakable(s, d)
       /\ RestakeOK(s, a.u, a.c) /\ CanSend(s, a.u, OT[a.i], a.c),
       s, Stake(s, a.u, OT[a.i], a.c))

DelSvc(s, a) ==
    If(/\ HasSvc(s, a.i) /\ s.svs[a.i].st = "A"
       /\ Pos(a.c)
       /\ Countable(s, a.i).any
       /\ Countable(s, a.i).d = {} \/ Supp(a.c) \subseteq Countable(s, a.i).d
       /\ RestakeOK(s, a.u, a.c) /\ CanSend(s, a.u, ST[a.i], a.c),
       s, Stake(s, a.u, ST[a.i], a.c))

Und(s, u, t, c) ==
    If(/\ Exists(s, t) /\ Pos(c) /\ <<u, t>> \in DOMAIN s.del /\ GE(s.del[<<u, t>>], c),
       s, Unstake(s, u, t, c))
UndPool(s, a) == LET p == PoolFor(s, a.d) IN IF p = 0 THEN No(s) ELSE Und(s, a.u, PT[p], Of(a.d, a.x))
UndOp(s, a)  == Und(s, a.u, OT[a.i], a.c)
UndSvc(s, a) == Und(s, a.u, ST[a.i], a.c)

\* end of block: everything mature is paid to its delegator
PayMature(s) ==
    LET K == {k \in DOMAIN s.ubd : k[3] <= s.now}
    IN [s EXCEPT !.bal = [x \in Accts |->
                            Plus(Minus(s.bal[x], SumOver({k \in K : k[2] = x}, LAMBDA k : s.ubd[k])),
                                 SumOver({k \in K : k[1] = x}, LAMBDA k : s.ubd[k]))],
                 !.ubd = Drop(@, K)]

ParRestaking(s, a) == If(a.u = "gov", s, [s EXCEPT !.par.unb = a.unb, !.par.rden = a.rden])

---------------------------------------------------------------------------
(* operators *)
RegOp(s, a) ==
    LET n == s.nop
    IN If(a.nm \notin {"", "="} /\ FeeOK(s, a.u, s.par.opfee, a.fee),
          s, [WithFee(s, a.u, s.par.opfee, a.fee) EXCEPT
                !.ops = Put(@, n, [st |-> "A", adm |-> a.u, nm |-> a.nm, till |-> 0, tk |-> Zero, rate |-> 0, hp |-> FALSE]),
                !.nop = n + 1,
                !.com = Put(@, n, Zero)])
OpAdmin(s, a) == HasOp(s, a.i) /\ s.ops[a.i].adm = a.u
UpdOp(s, a)   == If(OpAdmin(s, a) /\ a.nm # "", s, IF a.nm = "=" THEN s ELSE [s EXCEPT !.ops[a.i].nm = a.nm])
DeactOp(s, a) == If(OpAdmin(s, a) /\ s.ops[a.i].st = "A",
                    s, [s EXCEPT !.ops[a.i].st = "I", !.ops[a.i].till = s.now + s.par.deact])
ReactOp(s, a) == If(OpAdmin(s, a) /\ s.ops[a.i].st = "X", s, [s EXCEPT !.ops[a.i].st = "A"])
XferOp(s, a)  == If(OpAdmin(s, a), s, [s EXCEPT !.ops[a.i].adm = a.to])
SetOpPar(s, a) == If(OpAdmin(s, a) /\ a.rate \in 0..100, s, [s EXCEPT !.ops[a.i].rate = a.rate, !.ops[a.i].hp = TRUE])
\* A service whose last allowed operator disappears is deactivated, because an empty
\* list would let every operator in.
RmOp(s, a) ==
    LET i == a.i
        hit == {v \in DOMAIN s.svs : /\ <<v, i>> \in s.allow
                                     /\ \A x \in s.allow : x[1] = v => x[2] = i}
        s1 == OnOpDeleted(s, i)
    IN If(/\ OpAdmin(s, a) /\ s.ops[i].st = "X" /\ ~Pos(s.ops[i].tk)
          /\ \A k \in DOMAIN s.ubd : k[2] # OT[i],
          s, [s1 EXCEPT !.ops = Drop(@, {i}),
                        !.join = {x \in @ : x[1] # i},
                        !.allow = {x \in @ : x[2] # i},
                        !.svs = [v \in DOMAIN @ |-> IF v \in hit /\ @[v].st = "A"
                                                    THEN [@[v] EXCEPT !.st = "X"] ELSE @[v]]])
ParOps(s, a) == If(a.u = "gov", s, [s EXCEPT !.par.opfee = a.fee, !.par.deact = a.deact])

\* beginning of block: deactivations that are due take effect
BeginOps(s) ==
    [s EXCEPT !.ops = [i \in DOMAIN @ |-> IF @[i].st = "I" /\ @[i].till <= s.now
                                          THEN [@[i] EXCEPT !.st = "X", !.rate = 0, !.hp = FALSE] ELSE @[i]]]

---------------------------------------------------------------------------
(* services *)
CrSvc(s, a) ==
    LET n == s.nsv
    IN If(a.nm \notin {"", "="} /\ FeeOK(s, a.u, s.par.svfee, a.fee),
          s, [WithFee(s, a.u, s.par.svfee, a.fee) EXCEPT
                !.svs = Put(@, n, [st |-> "C", acc |-> FALSE, adm |-> a.u, nm |-> a.nm, tk |-> Zero, den |-> {}]),
                !.nsv = n + 1])
SvcAdmin(s, a) == HasSvc(s, a.i) /\ s.svs[a.i].adm = a.u
UpdSvc(s, a)   == If(SvcAdmin(s, a) /\ a.nm # "", s, IF a.nm = "=" THEN s ELSE [s EXCEPT !.svs[a.i].nm = a.nm])
ActSvc(s, a)   == If(SvcAdmin(s, a) /\ s.svs[a.i].st # "A", s, [s EXCEPT !.svs[a.i].st = "A"])
DeactSvc(s, a) == If(SvcAdmin(s, a) /\ s.svs[a.i].st = "A", s, [s EXCEPT !.svs[a.i].st = "X"])
XferSvc(s, a)  == If(SvcAdmin(s, a), s, [s EXCEPT !.svs[a.i].adm = a.to])
SetSvcPar(s, a) == If(SvcAdmin(s, a), s, [s EXCEPT !.svs[a.i].den = a.den])
TrustersOf(s, i) == {u \in Users : Trusts(s, u, i)}
RmSvc(s, a) ==
    LET s1 == SettleTrust(s, TrustersOf(s, a.i))
    IN If(/\ SvcAdmin(s, a) /\ s.svs[a.i].st # "A" /\ ~Pos(s.svs[a.i].tk)
          /\ \A k \in DOMAIN s.ubd : k[2] # ST[a.i],
          s, [s1 EXCEPT !.svs = Drop(@, {a.i}),
                        !.join = {x \in @ : x[2] # a.i},
                        !.allow = {x \in @ : x[1] # a.i},
                        !.sec = {x \in @ : x[1] # a.i}])
Accredit(s, a) ==      \* a.on: accredit or revoke
    IF ~(a.u = "gov" /\ HasSvc(s, a.i)) THEN No(s)
    ELSE IF s.svs[a.i].acc = a.on THEN Ok(s)
    ELSE LET ch == {u \in Users : TrustBy(Prefs(s, u), a.i, a.on) # Trusts(s, u, a.i)}
         IN Ok([SettleTrust(s, ch) EXCEPT !.svs[a.i].acc = a.on])
ParSvc(s, a) == If(a.u = "gov", s, [s EXCEPT !.par.svfee = a.fee])

---------------------------------------------------------------------------
(* membership and preferences *)
\* joining again, and leaving what was not joined, are accepted and have no effect
Join(s, a)  == If(HasOp(s, a.o) /\ s.ops[a.o].adm = a.u /\ HasSvc(s, a.i) /\ s.svs[a.i].st = "A", s, [s EXCEPT !.join = @ \cup {<<a.o, a.i>>}])
Leave(s, a) == If(HasOp(s, a.o) /\ s.ops[a.o].adm = a.u /\ HasSvc(s, a.i),
                  s, [s EXCEPT !.join = @ \ {<<a.o, a.i>>}])
AddAllow(s, a) == If(SvcAdmin(s, a) /\ HasOp(s, a.o) /\ <<a.i, a.o>> \notin s.allow,
                     s, [s EXCEPT !.allow = @ \cup {<<a.i, a.o>>}])
RmAllow(s, a) == If(SvcAdmin(s, a) /\ <<a.i, a.o>> \in s.allow, s, [s EXCEPT !.allow = @ \ {<<a.i, a.o>>}])
Borrow(s, a) == If(SvcAdmin(s, a) /\ s.svs[a.i].st = "A" /\ HasPool(s, a.p) /\ <<a.i, a.p>> \notin s.sec,
                   s, [s EXCEPT !.sec = @ \cup {<<a.i, a.p>>}])
Cease(s, a)  == If(SvcAdmin(s, a) /\ <<a.i, a.p>> \in s.sec, s, [s EXCEPT !.sec = @ \ {<<a.i, a.p>>}])

SetPrefs(s, a) ==
    LET p == [tn |-> a.tn, ta |-> a.ta, ids |-> a.ids]
        ch == \E i \in DOMAIN s.svs : TrustBy(p, i, s.svs[i].acc) # Trusts(s, a.u, i)
    IN If(a.ids \subseteq DOMAIN s.svs,
          s, [(IF ch THEN SettleTrust(s, {a.u}) ELSE s) EXCEPT !.prefs = Put(@, a.u, p)])
=============================================================================
