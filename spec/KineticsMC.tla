----------------------------- MODULE KineticsMC -----------------------------
(* A reactor running mean-field kinetics: pick any network from the family,  *)
(* pass it through the gate, then visit coverages by Euler-like unit moves   *)
(* along the allowed range.  Balance and derivative laws hold everywhere.    *)
EXTENDS Kinetics, TLC, Json, IOUtils

CONSTANTS Steps, Den, NetSize

VARIABLES net, env, texts
vars == <<net, env, texts>>

Parsed == [t \in Steps |-> ParseRxn(t)]
Networks == {q \in UNION {[1..n -> Steps] : n \in 1..NetSize} : IsInjective(q)}
P(q) == [i \in DOMAIN q |-> Parsed[q[i]]]

Init == \E q \in Networks :
  LET n == P(q) IN
    /\ \A r \in DOMAIN n : Conserved(n[r])
    /\ net = n
    /\ texts = q
    /\ env = [theta |-> [a \in Adsorbates(n) |-> 0],
              p |-> [g \in Gases(n) |-> 2], c |-> [g \in Liquids(n) |-> 3],
              tot |-> [s \in SiteNames(n) |-> Den],
              kf |-> [r \in DOMAIN n |-> r + 1], kr |-> [r \in DOMAIN n |-> 3],
              D |-> Den, ord |-> Order(n)]
\* One unit of coverage adsorbs while there is room.
Occupy(a) == /\ Free(net, env, SiteOf(a, net)) > 0
             /\ env' = [env EXCEPT !.theta[a] = @ + 1]
             /\ UNCHANGED <<net, texts>>
Next == \E a \in Adsorbates(net) : Occupy(a)
Spec == Init /\ [][Next]_vars

SitesBalanced == SingleSite(net) => SiteBalance(net, env)
ElementsBalanced == ElementBalance(net, env)
Derivative == Order(net) <= 4 => JacIsDerivative(net, env)
FreeNonNegative == \A k \in SiteKinds(net) : Free(net, env, k) >= 0

\* Every visited state is a scenario for the real code.
Emit == IF "OUT" \in DOMAIN IOEnv /\ Adsorbates(net) # {} THEN
  PrintT("SCN " \o ToJson([rxns |-> texts, theta |-> PairSeq(env.theta), tot |-> PairSeq(env.tot),
    p |-> PairSeq(env.p), c |-> PairSeq(env.c), kf |-> env.kf, kr |-> env.kr, D |-> env.D, ord |-> env.ord])) ELSE TRUE

StepsQuick == {"CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "O2_g + 2*_s <-> O-O_2s -> O_s + O_s",
  "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "CO_g + *_s + O_s -> CO_s + O_s", "N_s + 3H_s -> NH3_g + 4*_s",
  "O_s + *_t -> O_t + *_s", "2O_s -> O2_s + *_s", "CO_l + O_t -> CO2_t", "O_s + *_s -> *_s + O_s",
  "CO_s + 2O_s <-> CO-O_2s + O_s -> CO2_g + O_s + 2*_s",
  "2O_l + 2*_s -> 2O_s", "CO_g + 2O_s -> CO_l + 2O_l + 2*_s"}
=============================================================================
