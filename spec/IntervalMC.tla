------------------------------ MODULE IntervalMC ------------------------------
(* Analysis intervals that grow entry by entry: a list is valid exactly when  *)
(* every entry is, wherever an invalid one stands.                            *)
EXTENDS Attr, TLC, Json, IOUtils
CONSTANTS MaxLen, Bounds
VARIABLES v, bad
I(n) == <<"i", ToString(n)>>
Triples == {<<t, <<I(a), I(b), I(c)>>>> : t \in {"l", "t"}, a \in Bounds, b \in Bounds, c \in Bounds}
Others == {I(0), I(7), <<"f", "1.5">>, <<"s", "1">>, <<"n", "">>, <<"b", "True">>, <<"l", <<>>>>, <<"l", <<I(1), I(5)>>>>, <<"t", <<I(1), I(5), I(1), I(1)>>>>,
           <<"t", <<<<"f", "1.0">>, I(5), I(1)>>>>, <<"l", <<I(1), I(5), <<"f", "1.0">>>>>>, <<"t", <<I(1), <<"s", "5">>, I(1)>>>>}
D == [kind |-> "AnalysisInterval", cands |-> <<>>, entry |-> ""]
EntryOk(x) == x[1] = "i" \/ Range3(x)
Init == /\ bad = 0
        /\ v \in {<<"l", <<>>>>, <<"t", <<>>>>, I(3), <<"f", "2.0">>, <<"s", "all">>, <<"b", "True">>}
Grow == /\ IsSeqV(v) /\ Len(v[2]) < MaxLen
        /\ \E x \in Triples \cup Others :
             /\ v' = <<v[1], Append(v[2], x)>>
             /\ bad' = IF EntryOk(x) THEN bad ELSE bad + 1
Next == Grow
Spec == Init /\ [][Next]_<<v, bad>>
Everywhere == IsSeqV(v) => (Accepts(D, v) <=> bad = 0)
\* What was refused stays refused, whatever follows.
Sticky == [][~Accepts(D, v) => ~Accepts(D, v')]_<<v, bad>>
Emit == IF "OUT" \in DOMAIN IOEnv THEN PrintT("SCN " \o ToJson([interval |-> v])) ELSE TRUE
=============================================================================
