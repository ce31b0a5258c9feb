---------------------------- MODULE TracePartition ----------------------------
(* C18: what every rank of a group of P got from the real MPI helper.        *)
EXTENDS Partition, TraceBase
VARIABLES l
Falsy == <<"0", "0.0", "''", "[]", "{}", "False", "None">>
Fails(e) == IF e.ev # "partition" THEN {e.ev} ELSE
  IF e.exc # "" THEN {"raised"} ELSE Failing({
    <<"ranks", Len(e.pieces) = e.P>>,
    <<"partition", IsPartition(e.whole, e.pieces)>>,
    <<"sizes", e.sizes = [i \in 1..e.P |-> Len(e.pieces[i])]>>,
    <<"merged", e.counts[1] = e.P /\ e.merged = <<e.whole>>>>,
    <<"worked", e.counts[2] = e.P /\ e.worked = <<e.work>>>>,
    <<"kind", e.same_kind>>,
    <<"master", e.ran = <<0>> /\ e.masters = <<0>>>>,
    <<"result", e.results = <<0>>>>,
    \* Only the first rank gets results, whatever they are.
    <<"falsy-result", \A r \in 1..e.P : e.falsy[r] = IF r = 1 THEN Falsy ELSE [i \in DOMAIN Falsy |-> "None"]>>,
    <<"broadcast", \A r \in 1..e.P : e.told[r] = e.tells>>, <<"barrier", \A r \in 1..e.P : e.barriers[r] = 1>>})
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
