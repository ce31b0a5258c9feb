----------------------------- MODULE TraceProfile -----------------------------
(* C34: the pictures of energy profiles.                                      *)
EXTENDS Profile, Chem, TraceBase
VARIABLES l, now
States(e) == [i \in DOMAIN e.rxns |-> Len(ParseRxn(e.rxns[i]))]
Fresh(e) == e.first
Now(e) == IF e.first THEN <<>> ELSE now
PlotFails(e) ==
  IF Now(e) = <<>> THEN Failing({<<"plotted-nothing", e.exc # "" /\ e.pictures = <<>>>>})
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.pictures) # Len(e.rxns) THEN {"number-of-pictures"}
  ELSE LET P(Q(_, _, _)) == \A i \in DOMAIN e.rxns : Q(i, e.pictures[i], Now(e)[i]) IN
  Failing({<<"name", P(LAMBDA i, p, r : p.name = "energy_profile/" \o ToString(i - 1) \o "_" \o e.rxns[i] \o ".png")>>,
           <<"one-line", P(LAMBDA i, p, r : p.lines = 1)>>,
           <<"energies", P(LAMBDA i, p, r : p.energies \in Shapes(r[1], r[2]))>>,
           <<"curve", P(LAMBDA i, p, r : Abs(p.first) <= 1 /\ Abs(p.last - r[2]) <= 1)>>,
           <<"equation", P(LAMBDA i, p, r : p.energies \in Shapes(r[1], r[2]) => p.equation \in Note(e.rxns[i], States(e)[i], p.energies))>>,
           <<"style", P(LAMBDA i, p, r : p.style = e.style)>>,
           <<"files", e.files = Len(e.rxns)>>})
Fails(e) == CASE e.ev = "plot" -> PlotFails(e) [] e.ev = "parse" -> Failing({<<"raised", e.exc = "">>}) [] OTHER -> {e.ev}
Init == l = 1 /\ now = <<>>
Next == /\ l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
        /\ now' = LET e == Trace[l] IN IF e.ev = "parse" THEN Normal(e.rel) ELSE Now(e)
Spec == Init /\ [][Next]_<<l, now>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
