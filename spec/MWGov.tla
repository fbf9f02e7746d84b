-------------------------------- MODULE MWGov --------------------------------
(***************************************************************************)
(* Which transactions are admitted: the restrictions on governance votes   *)
(* and on expedited proposals. A transaction is a sequence of messages; an *)
(* `exec` message executes other messages on behalf of other accounts, to  *)
(* any depth.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, FiniteSetsExt, Json, CSV

CONSTANTS
    Rate,     \* validator -> coins that four of its shares are worth
    Dele,     \* voter -> validator -> shares
    LogFile, Depth

MinStake == 1000000
MaxCounted == 100

Voters == DOMAIN Dele
\* four times what is staked, counted over at most MaxCounted delegations (who has
\* more of them has equal ones here, so it does not matter which are counted)
ASSUME \A u \in Voters : Cardinality(DOMAIN Dele[u]) > MaxCounted =>
          \A v, w \in DOMAIN Dele[u] : Dele[u][v] * Rate[v] = Dele[u][w] * Rate[w]
Staked4(u) == LET D == DOMAIN Dele[u] IN
    IF Cardinality(D) <= MaxCounted THEN MapThenSumSet(LAMBDA v : Dele[u][v] * Rate[v], D)
    ELSE LET v == CHOOSE v \in D : TRUE IN MaxCounted * Dele[u][v] * Rate[v]
Enough == [u \in Voters |-> Staked4(u) >= 4 * MinStake]
MayVote(u) == Enough[u]

Forms == {"v1", "v1w", "beta", "betaw"}
Whitelisted == {"upgrade", "cancel"}

Vote(f, u)    == [n |-> "vote", f |-> f, u |-> u]
Prop(x, c)    == [n |-> "prop", x |-> x, c |-> c]
Exec(ms)      == [n |-> "exec", ms |-> ms]
Other         == [n |-> "other"]

\* the messages that take effect, however deep
RECURSIVE Leaves(_)
Leaves(ms) == UNION {IF ms[i].n = "exec" THEN Leaves(ms[i].ms) ELSE {ms[i]} : i \in DOMAIN ms}

MsgOK(m) == CASE m.n = "vote" -> MayVote(m.u)
              [] m.n = "prop" -> m.x => (m.c # <<>> /\ \A i \in DOMAIN m.c : m.c[i] \in Whitelisted)
              [] OTHER -> TRUE
Admitted(ms) == \A m \in Leaves(ms) : MsgOK(m)

---------------------------------------------------------------------------
Contents == {<<>>, <<"upgrade">>, <<"cancel">>, <<"send">>, <<"text">>, <<"legacy">>, <<"exec">>, <<"upgrade", "cancel">>,
             <<"upgrade", "send">>, <<"send", "cancel">>, <<"upgrade", "text">>, <<"legacy", "upgrade">>, <<"cancel", "upgrade", "send">>}
Base == {Vote(f, u) : f \in Forms, u \in Voters} \cup {Prop(x, c) : x \in BOOLEAN, c \in Contents} \cup {Other}
Fine == {Other, Vote("v1", "exact"), Prop(TRUE, <<"upgrade">>)}

Contexts(m) ==
    { <<m>>, <<Exec(<<m>>)>>, <<Exec(<<Exec(<<m>>)>>)>>, <<Exec(<<Exec(<<Exec(<<m>>)>>)>>)>> }
    \cup UNION { { <<o, m>>, <<m, o>>, <<o, Exec(<<m>>)>>, <<Exec(<<m>>), o>>, <<Exec(<<o, m>>)>>, <<Exec(<<m, o>>)>>,
                   <<Exec(<<Exec(<<o>>), m>>)>>, <<Exec(<<o, Exec(<<m>>)>>)>>, <<Exec(<<Exec(<<m>>), o>>)>>, <<Exec(<<o>>), Exec(<<m>>)>> } : o \in Fine }

VARIABLES tx, todo
Init == tx \in UNION {Contexts(m) : m \in Base} /\ todo = 0
Next == UNCHANGED <<tx, todo>>
Spec == Init /\ [][Next]_<<tx, todo>>
Log == CSVWrite("%1$s", <<ToJson([tx |-> tx, ok |-> Admitted(tx)])>>, LogFile)

\* arbitrary transactions, about half of them admitted (the depth depends on the state, as
\* TLC would otherwise choose once and for all)
GoodMsgs == Fine \cup {m \in Base : MsgOK(m)}
RECURSIVE Some(_, _)
Some(d, bad) == LET k == RandomElement(1..100) IN
           IF d > 0 /\ k <= 45 THEN Exec([i \in 1..RandomElement(1..3) |-> Some(d - 1, bad)])
           ELSE IF k <= 80 \/ ~bad THEN RandomElement(GoodMsgs) ELSE RandomElement(Base)
SimInit == tx = <<Other>> /\ todo = 0
SimNext == \E x \in { LET bad == RandomElement({TRUE, FALSE}) IN [i \in 1..RandomElement(1..3) |-> Some(Depth + 0 * todo, bad)] } : tx' = x /\ todo' = 1 - todo
SimSpec == SimInit /\ [][SimNext]_<<tx, todo>>

\* properties of the restriction itself: nothing inside changes when it is executed for somebody else
Transparent == Admitted(tx) <=> Admitted(<<Exec(tx)>>)
Inv == Transparent /\ Log
=============================================================================
