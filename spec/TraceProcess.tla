------------------------------ MODULE TraceProcess ------------------------------
(* C19: processes handed to the engine, and the mapping, against Process.     *)
EXTENDS Process, Rates, TraceBase
VARIABLES l, m
vars == <<l, m>>

Tol == 25
FunOf(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> LnRatio(ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2])]
Setting(e) == [T |-> e.T, act |-> LnRatio(e.act), area |-> LnE(e.area[1], e.area[2]), p |-> FunOf(e.p)]
DefOf(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
Text(e) == e.rxns
\* Rate of a process: that of its own reaction and direction, with pressure.
LnRate(p) == LET r == CHOOSE i \in DOMAIN m.rxns : m.rxns[i] = p.rxn
                 q == Rate(m.algo, ParseRxn(m.rxns[r]), m.e[r], Setting(m), TRUE)
             IN  IF p.dir = "->" THEN q.f ELSE q.r
Same(p, q) == /\ q.coords = p.coords /\ q.before = p.before /\ q.after = p.after /\ q.basis = p.basis
              /\ q.fast = p.fast /\ q.redist = p.redist /\ q.species = p.species
\* Logarithms agree; that of a rate beyond the range of numbers is the lowest one.
SameLn(a, b) == Abs(a - b) <= Tol \/ (b <= -7500000 /\ a = -536870912)
Want(e) == FlattenSeq([i \in DOMAIN e.defs |-> Expand(DefOf(e.defs[i]))])
AskFails(e) ==
  LET bad == \E i \in DOMAIN e.defs : ~ValidDef(DefOf(e.defs[i]), m.rxns, m.elements) IN
  IF bad THEN Failing({<<"invalid-definition-refused", e.exc = "SetupError">>})
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE LET want == Want(e) IN
  IF Len(want) # Len(e.procs) THEN {"number-of-processes"} ELSE
  LET lr == [r \in {want[i].rxn : i \in DOMAIN want} |->
               LET i == CHOOSE i \in DOMAIN m.rxns : m.rxns[i] = r IN Rate(m.algo, ParseRxn(r), m.e[i], Setting(m), TRUE)] IN
  Failing({<<"expansion", \A i \in DOMAIN want : Same(want[i], e.procs[i])>>,
           <<"own-rate", \A i \in DOMAIN want : LET q == lr[want[i].rxn] IN SameLn(e.procs[i].ln, IF want[i].dir = "->" THEN q.f ELSE q.r)>>,
           <<"mapping", e.mapping = Mapping(want)>>,
           <<"engine-gets-them", e.same>>})
Fails(e) == CASE e.ev = "kmodel" -> IF e.exc = "" THEN {} ELSE {"raised"}
              [] e.ev = "ask" -> AskFails(e)
              [] OTHER -> {e.ev}
Init == l = 1 /\ m = [rxns |-> <<>>]
Next == /\ l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
        /\ m' = IF Trace[l].ev = "kmodel" THEN Trace[l] ELSE m
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
