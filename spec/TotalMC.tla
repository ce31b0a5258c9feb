------------------------------- MODULE TotalMC -------------------------------
(* All networks of at most MaxLen steps of a pool, in every order direction. *)
EXTENDS Total, Json, IOUtils

CONSTANTS MaxLen
Pool == << "CO_g + *_s -> CO_s", "O2_g + 2*_s -> 2O_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "CO2_g + *_s -> CO2_s",
  "CO_s + O_s -> CO2_s + *_s", "2O_s -> O2_g + 2*_s", "H2_g + 2*_s -> 2H_s", "H_s + H_s + O_s -> H2O_l + 3*_s", "CO_s + *_t -> CO_t + *_s",
  "CO_t + O_s -> CO2_g + *_s + *_t", "CO_g + H2O_l -> CO2_g + H2_g", "3H2_g + CO_s -> CH4_g + H2O_l + *_s" >>
VARIABLES pick, net
vars == <<pick, net>>
Init == pick = <<>> /\ net = <<>>
Next == /\ Len(pick) < MaxLen
        /\ \E i \in DOMAIN Pool : (\A k \in DOMAIN pick : pick[k] < i) /\ pick' = Append(pick, i)
              /\ net' = Append(net, ParseRxn(Pool[i]))
Spec == Init /\ [][Next]_vars

Unique == net # <<>> /\ Ways(net) = 1
\* The combination eliminates every surface species.
Eliminates == Unique => LET x == Combination(net) IN
  \A ss \in SiteNames(net) \cup Adsorbates(net) : SumSeq([r \in DOMAIN net |-> x[r] * Net(net[r], ss)]) = 0
IsBalanced == Unique => Balanced(TotalOf(net))
Primitive == Unique /\ TotalOf(net) # {} => GcdSeq(SetToSeq({q[2] : q \in TotalOf(net)})) = 1
\* Reversing a step changes its sign in the combination only.
ReverseStep == Unique => \A i \in DOMAIN net :
  LET rev == [net EXCEPT ![i] = Reverse(net[i])] T == TotalOf(rev) IN Ways(rev) = 1 /\ T \in {TotalOf(net), Opposite(TotalOf(net))}
Emit == IF net # <<>> /\ "OUT" \in DOMAIN IOEnv
        THEN PrintT("SCN " \o ToJson([rxns |-> [k \in DOMAIN pick |-> Pool[pick[k]]]])) ELSE TRUE
=============================================================================
