---------------------------- MODULE CoveragesMC -----------------------------
(* All guesses on a grid for small networks.                                 *)
EXTENDS Coverages, Json, IOUtils

CONSTANTS D, Lo, Hi, Totals

Nets == {<<"CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s">>, <<"CO_g + *_s -> CO_s", "CO_s + *_t -> CO_t + *_s", "O2_g + 2*_s -> 2O_s">>}
Grid == Lo..Hi
LoDef == -2

VARIABLES texts, net, tot, x
vars == <<texts, net, tot, x>>
Init == /\ texts \in Nets /\ net = [i \in DOMAIN texts |-> ParseRxn(texts[i])]
        /\ tot \in [SiteNames(net) -> Totals] /\ x \in [Adsorbates(net) -> Grid]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

C == Constrain(net, tot, D, x)
\* Comparing quotients q = <<n, d>> with d > 0.
Leq(p, q) == p[1] * q[2] <= q[1] * p[2]
Within == \A a \in DOMAIN C : C[a][1] >= 0 /\ Leq(C[a], <<tot["*_" \o KindOf(net, a)], D>>)
\* All adsorbates of one kind share a denominator when they are scaled.
SumWithin == \A k \in SiteKinds(net) : LET S == OnKind(net, k) IN
  S # {} => LET d == C[CHOOSE a \in S : TRUE][2] IN SumOver(S, LAMBDA a : C[a][1]) * D <= tot["*_" \o k] * d
Fixpoint == Physical(net, tot, D, x) => \A a \in DOMAIN C : C[a] = <<x[a], D>>
KeepsOrder == \A a, b \in DOMAIN C : KindOf(net, a) = KindOf(net, b) /\ x[a] <= x[b] => Leq(C[a], C[b])
Emit == IF "OUT" \in DOMAIN IOEnv
        THEN PrintT("SCN " \o ToJson([rxns |-> texts, D |-> D, tot |-> SetToSeq(Pairs(tot)), x |-> SetToSeq(Pairs(x))])) ELSE TRUE
=============================================================================
