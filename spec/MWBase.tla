------------------------------- MODULE MWBase -------------------------------
(***************************************************************************)
(* State and elementary operations of the MilkyWay restaking system.       *)
(*                                                                         *)
(* The whole system is one record `s`; every operation of the system is an *)
(* operator  s |-> [ok, s]  (see Milkyway.tla for the transition system).  *)
(* Coins are total functions Denoms -> Nat; collections that start empty   *)
(* are partial functions with a growing domain.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

CONSTANTS
    Users,      \* accounts of persons (strings)
    Natives,    \* ordinary denoms that can be staked, deposited, ... (strings)
    Locked,     \* locked representation denoms (strings)
    NativeOf,   \* function Locked -> Natives
    Rwd,        \* denoms in which rewards are paid (strings)
    MaxOp, MaxSvc, MaxPool, MaxPlan,   \* how many of each are ever created
    UPD,        \* time units per day
    Frac,       \* units of the specification per unit of a reward denom: rewards are
                \* accounted in units of the specification, and paid in whole units
    ExpMul,     \* asset exponent -> value multiplier (scale / 10^exponent)
    Init0       \* overrides of the initial state (record)

Denoms == Natives \cup Locked \cup Rwd
LockedFor == [n \in {NativeOf[l] : l \in Locked} |-> CHOOSE l \in Locked : NativeOf[l] = n]

PT == [i \in 1..MaxPool |-> "P" \o ToString(i)]
OT == [i \in 1..MaxOp   |-> "O" \o ToString(i)]
ST == [i \in 1..MaxSvc  |-> "S" \o ToString(i)]
LT == [i \in 1..MaxPlan |-> "plan" \o ToString(i)]
PoolTs == {PT[i] : i \in 1..MaxPool}
OpTs   == {OT[i] : i \in 1..MaxOp}
SvcTs  == {ST[i] : i \in 1..MaxSvc}
PlanAs == {LT[i] : i \in 1..MaxPlan}
Targets == PoolTs \cup OpTs \cup SvcTs
IdOf == [t \in Targets |-> IF t \in PoolTs THEN CHOOSE i \in 1..MaxPool : PT[i] = t
                           ELSE IF t \in OpTs THEN CHOOSE i \in 1..MaxOp : OT[i] = t
                           ELSE CHOOSE i \in 1..MaxSvc : ST[i] = t]
\* the order in which the stakes of a user are visited when burning: pools, services, operators
TOrder == [i \in 1..(MaxPool + MaxSvc + MaxOp) |->
             IF i <= MaxPool THEN PT[i]
             ELSE IF i <= MaxPool + MaxSvc THEN ST[i - MaxPool]
             ELSE OT[i - MaxPool - MaxSvc]]

Accts == Users \cup Targets \cup PlanAs \cup {"community", "rwd", "lv", "esc"}

---------------------------------------------------------------------------
(* coins *)
Zero        == [d \in Denoms |-> 0]
Plus(a, b)  == [d \in Denoms |-> a[d] + b[d]]
Minus(a, b) == [d \in Denoms |-> a[d] - b[d]]
GE(a, b)    == \A d \in Denoms : a[d] >= b[d]
Pos(a)      == \E d \in Denoms : a[d] > 0
Of(d, x)    == [Zero EXCEPT ![d] = x]
Mins(a, b)  == [d \in Denoms |-> IF a[d] < b[d] THEN a[d] ELSE b[d]]
Supp(a)     == {d \in Denoms : a[d] > 0}
SumOver(S, f(_)) == [d \in Denoms |-> MapThenSumSet(LAMBDA x : f(x)[d], S)]
Ceil(a, b)  == (a + b - 1) \div b
Whole(a)    == [d \in Denoms |-> IF d \in Rwd THEN (a[d] \div Frac) * Frac ELSE a[d]]
Max0(a)     == IF a > 0 THEN a ELSE 0

(* partial functions *)
Put(f, k, v) == (k :> v) @@ f
Drop(f, K)   == [x \in DOMAIN f \ K |-> f[x]]
Get(f, k, v) == IF k \in DOMAIN f THEN f[k] ELSE v
AddTo(f, k, c) == Put(f, k, Plus(Get(f, k, Zero), c))
SetOrDrop(f, k, c) == IF Pos(c) THEN Put(f, k, c) ELSE Drop(f, {k})

---------------------------------------------------------------------------
(* results of handlers *)
Ok(s)     == [ok |-> TRUE,  s |-> s, soft |-> FALSE]
No(s)     == [ok |-> FALSE, s |-> s, soft |-> FALSE]
If(c, s, t) == IF c THEN Ok(t) ELSE No(s)

---------------------------------------------------------------------------
(* existence *)
HasOp(s, i)   == i \in DOMAIN s.ops
HasSvc(s, i)  == i \in DOMAIN s.svs
HasPool(s, i) == i \in DOMAIN s.pls
HasPlan(s, i) == i \in DOMAIN s.plans
Exists(s, t) ==
    CASE t \in PoolTs -> HasPool(s, IdOf[t])
      [] t \in OpTs   -> HasOp(s, IdOf[t])
      [] t \in SvcTs  -> HasSvc(s, IdOf[t])
      [] OTHER        -> FALSE
PoolFor(s, d) == IF \E i \in DOMAIN s.pls : s.pls[i] = d
                 THEN CHOOSE i \in DOMAIN s.pls : s.pls[i] = d ELSE 0

Del(s, u, t) == Get(s.del, <<u, t>>, Zero)

(* trust *)
DefaultPrefs == [tn |-> FALSE, ta |-> TRUE, ids |-> {}]
Prefs(s, u)  == Get(s.prefs, u, DefaultPrefs)
TrustBy(p, i, acc) == i \in p.ids \/ (IF acc THEN p.ta ELSE p.tn)
Trusts(s, u, i) == TrustBy(Prefs(s, u), i, s.svs[i].acc)

(* membership: empty lists mean "everybody" *)
CanValidate(s, o, i) == (\E x \in s.allow : x[1] = i) => <<i, o>> \in s.allow
Secures(s, p, i)     == (\E x \in s.sec : x[1] = i) => <<i, p>> \in s.sec

---------------------------------------------------------------------------
(* transfers *)
Move(s, a, b, c) == [s EXCEPT !.bal[a] = Minus(@, c), !.bal[b] = Plus(@, c)]

\* The restriction on transfers. Locked coins move only between an account and a
\* target; nothing moves from a target to a target.
Allowed(s, a, b, c) ==
    \/ a = "lv" \/ b = "lv"
    \/ /\ ~(Exists(s, a) /\ Exists(s, b))
       /\ (\E d \in Locked : c[d] > 0) => (Exists(s, a) \/ Exists(s, b))
CanSend(s, a, b, c) == GE(s.bal[a], c) /\ Allowed(s, a, b, c)

---------------------------------------------------------------------------
(* the initial state *)
BaseState ==
    [ now   |-> 0,
      bal   |-> [a \in Accts |-> Zero],
      lsup  |-> Zero,                    \* locked coins in existence: minted - burned
      vin   |-> Zero,                    \* vouchers received over IBC
      ops   |-> <<>>, nop |-> 1,         \* id -> [st, adm, nm, till, tk, rate, hp]
      svs   |-> <<>>, nsv |-> 1,         \* id -> [st, acc, adm, nm, tk, den]
      pls   |-> <<>>, npl |-> 1,         \* id -> denom
      ptk   |-> <<>>,                    \* pool id -> tokens
      del   |-> <<>>,                    \* <<user, target>> -> coins
      ubd   |-> <<>>,                    \* <<user, target, completion>> -> coins
      join  |-> {}, allow |-> {}, sec |-> {},   \* <<op, svc>>, <<svc, op>>, <<svc, pool>>
      prefs |-> <<>>,
      par   |-> [unb |-> 3, rden |-> {}, deact |-> 2, opfee |-> Zero, svfee |-> Zero, plfee |-> Zero,
                 pct |-> 50, mint |-> {}, burn |-> {}, trust |-> {}, chan |-> {}],
      ins   |-> <<>>,                    \* user -> coins
      burnq |-> <<>>,                    \* <<user, completion>> -> coins
      plans |-> <<>>, npn |-> 1,
      ent   |-> <<>>,                    \* <<user, target>> -> reward coins not yet paid
      com   |-> <<>>,                    \* op -> commission not yet paid
      wd    |-> [u \in Users |-> u],
      ast   |-> <<>>,                    \* denom -> [tick, exp]
      price |-> <<>> ]                   \* ticker -> price

InitState == Init0 @@ BaseState
=============================================================================
