------------------------------ MODULE TraceTotal ------------------------------
(* C23: recorded total reactions.                                            *)
EXTENDS Total, TraceBase
VARIABLES l
Side(t, sgn) == {<<f.ss, sgn * Coef(t, f.ss)>> : f \in ToSet(t)}
Fails(e) == IF e.ev # "total" THEN {e.ev} ELSE
  LET net == [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])] IN
  IF Ways(net) > 1 \/ SurfCols(net) = <<>> THEN {}   \* out of scope
  ELSE IF ~Defined(net) THEN Failing({<<"refused", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE LET q == ParseRxn(e.out) T == Side(IS(q), -1) \cup Side(FS(q), 1) IN Failing({
    <<"states", Len(q) = 2>>, <<"fluids-only", \A f \in ToSet(IS(q)) \cup ToSet(FS(q)) : f.ss \in Fluids(net)>>,
    <<"balanced", Conserved(q)>>, <<"total", T \in Totals_(net)>>,
    <<"once", Len(IS(q)) + Len(FS(q)) = Cardinality(T)>>})
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
