----------------------------- MODULE TraceFormula -----------------------------
(* C27: recorded expansions and masses of molecular formulas.                *)
EXTENDS Formula, TraceBase
VARIABLES l
Fails(e) == IF e.ev # "formula" THEN {e.ev} ELSE
  LET r == Read(e.text) IN
  IF ~r.ok THEN Failing({<<"malformed-accepted", e.exc # "">>, <<"malformed-mass", e.mexc # "">>})
  ELSE IF e.exc # "" THEN {"raised"} ELSE Failing({
    <<"atoms", e.atoms = r.atoms>>,
    <<"unknown", ~Known(r.atoms) => e.mexc = "ElementSearchingError">>,
    <<"mass", Known(r.atoms) => e.mexc = "" /\ Abs(e.mass - MassOf(r.atoms)) <= 1 + Len(r.atoms)>>,
    <<"kilograms", Known(r.atoms) /\ r.atoms # <<>> => Abs(e.unit - Amu) <= 2>>})
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
