--------------------------- MODULE MWLiquidVesting ---------------------------
(***************************************************************************)
(* Locked coins (minted, burned by authorised accounts) and the insurance  *)
(* fund that covers what users restake of them.                            *)
(***************************************************************************)
EXTENDS MWRestaking

Mint(s, a) ==      \* a.u mints a.x of the locked form of a.d for a.to
    LET c == Of(LockedFor[a.d], a.x)
    IN If(a.u \in s.par.mint /\ a.x > 0,
          s, [s EXCEPT !.bal[a.to] = Plus(@, c), !.lsup = Plus(@, c)])

\* take c from the stakes of u, in the order pools, services, operators
RECURSIVE TakeFrom(_, _, _, _)
TakeFrom(s, u, c, n) ==
    IF n > Len(TOrder) \/ ~Pos(c) THEN [s |-> s, rest |-> c]
    ELSE LET t == TOrder[n]
             x == IF <<u, t>> \in DOMAIN s.del THEN Mins(s.del[<<u, t>>], c) ELSE Zero
         IN IF Pos(x) THEN TakeFrom(Unstake(s, u, t, x), u, Minus(c, x), n + 1)
            ELSE TakeFrom(s, u, c, n + 1)

Burn(s, a) ==      \* a.u burns a.c of a.who
    LET liq  == Mins(s.bal[a.who], a.c)
        miss == Minus(a.c, liq)
        tk   == TakeFrom(s, a.who, miss, 1)
        s1   == IF Pos(miss) THEN [tk.s EXCEPT !.burnq = AddTo(@, <<a.who, s.now + s.par.unb>>, miss)] ELSE s
    IN If(/\ a.u \in s.par.burn
          /\ Pos(a.c) /\ Supp(a.c) \subseteq Locked
          /\ Pos(miss) => ~Pos(tk.rest),
          s, [s1 EXCEPT !.bal[a.who] = Minus(@, liq), !.lsup = Minus(@, liq)])

\* end of block, after the unbondings were paid: burn what was waiting for them
BurnMature(s) ==
    LET K == {k \in DOMAIN s.burnq : k[2] <= s.now}
        c(u) == SumOver({k \in K : k[1] = u}, LAMBDA k : s.burnq[k])
    IN [s EXCEPT !.bal = [x \in Accts |-> IF x \in Users THEN Minus(s.bal[x], c(x)) ELSE s.bal[x]],
                 !.lsup = Minus(@, SumOver(K, LAMBDA k : s.burnq[k])),
                 !.burnq = Drop(@, K)]

WInsure(s, a) ==
    If(/\ Pos(a.c) /\ a.u \in DOMAIN s.ins /\ GE(s.ins[a.u], a.c)
       /\ Covers(s.par.pct, Minus(s.ins[a.u], a.c), ActiveLocked(s, a.u)),
       s, [Move(s, "lv", a.u, a.c) EXCEPT !.ins[a.u] = Minus(@, a.c)])

\* A deposit arrives over IBC: a.x coins of denom a.d, to be credited to the users of
\* a.lst (a sequence of <<user, amount>>). a.form = "v": the coins come from the other
\* chain (minted here as vouchers); "h": they return home (released from escrow).
Total(lst) == LET RECURSIVE T(_)
                  T(n) == IF n = 0 THEN 0 ELSE lst[n][2] + T(n - 1)
              IN T(Len(lst))
RECURSIVE Credit(_, _, _, _)
Credit(ins, lst, d, n) == IF n > Len(lst) THEN ins
                          ELSE Credit(AddTo(ins, lst[n][1], Of(d, lst[n][2])), lst, d, n + 1)
Deposit(s, a) ==
    LET in == IF a.form = "h" THEN Move(s, "esc", "lv", Of(a.d, a.x))
              ELSE [s EXCEPT !.bal["lv"] = Plus(@, Of(a.d, a.x)), !.vin = Plus(@, Of(a.d, a.x))]
    IN If(/\ a.snd \in s.par.trust
          /\ a.ch \in s.par.chan
          /\ a.rcv = "lv" /\ Len(a.lst) > 0 /\ a.x > 0
          /\ Total(a.lst) = a.x
          /\ a.form = "h" => s.bal["esc"][a.d] >= a.x,
          s, [in EXCEPT !.ins = Credit(@, a.lst, a.d, 1)])

\* A transfer initiated by a user.
Blocked == {"community", "rwd"}
Send(s, a) == If(Pos(a.c) /\ a.to \notin Blocked /\ CanSend(s, a.u, a.to, a.c), s, Move(s, a.u, a.to, a.c))

ParLV(s, a) == If(a.u = "gov", s, [s EXCEPT !.par.pct = a.pct, !.par.mint = a.mint, !.par.burn = a.burn,
                                            !.par.trust = a.trust, !.par.chan = a.chan])
=============================================================================
