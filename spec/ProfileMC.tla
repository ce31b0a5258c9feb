------------------------------- MODULE ProfileMC ------------------------------
(* All short histories of reading energies and plotting them.                 *)
EXTENDS Profile, TLC, Json, IOUtils
CONSTANTS NRxn, Barriers, Heats, MaxOps
VARIABLES states, hist, have, now, shown
vars == <<states, hist, have, now, shown>>
Signed == {h - 2000000 : h \in Heats}
Rels == [1..NRxn -> Barriers \X Signed]
Init == /\ states \in [1..NRxn -> {2, 3}] /\ hist = <<>> /\ have = FALSE /\ now = <<>> /\ shown = <<>>
Parse(r) == /\ have' = TRUE /\ now' = Normal(r) /\ hist' = Append(hist, [op |-> "parse", rel |-> r]) /\ UNCHANGED <<states, shown>>
Plot == /\ hist' = Append(hist, [op |-> "plot", rel |-> <<>>]) /\ UNCHANGED <<states, have, now>>
        /\ shown' = IF have THEN now ELSE shown
Next == Len(hist) < MaxOps /\ (Plot \/ \E r \in Rels : Parse(r))
Spec == Init /\ [][Next]_vars
\* Every reaction has a shape; every shape starts at zero, ends at the heat and its peak is a peak.
Total == \A i \in DOMAIN now : LET S == Shapes(now[i][1], now[i][2]) IN
           /\ S # {}
           /\ \A s \in S : s[1] = 0 /\ s[Len(s)] = now[i][2] /\ (Len(s) = 3 => s[2] > 0 /\ s[2] > s[3])
           /\ now[i][1] > Top(now[i][2]) + Thin => Cardinality(S) = 1
Latest == hist # <<>> /\ hist[Len(hist)].op = "plot" /\ have => shown = now
Emit == IF "OUT" \in DOMAIN IOEnv /\ hist # <<>> /\ hist[Len(hist)].op = "plot"
        THEN PrintT("SCN " \o ToJson([states |-> states, hist |-> hist])) ELSE TRUE
=============================================================================
