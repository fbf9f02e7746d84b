------------------------------- MODULE MWAssets -------------------------------
EXTENDS MWLiquidVesting
RegAsset(s, a) == If(a.u = "gov" /\ a.tick # "", s, [s EXCEPT !.ast = Put(@, a.d, [tick |-> a.tick, exp |-> a.exp])])
DeregAsset(s, a) == If(a.u = "gov" /\ a.d \in DOMAIN s.ast, s, [s EXCEPT !.ast = Drop(@, {a.d})])
\* the oracle reports a price (environment)
SetPrice(s, a) == Ok([s EXCEPT !.price = Put(@, a.tick, a.x)])
=============================================================================
