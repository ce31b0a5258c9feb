------------------------------ MODULE TraceLattice ------------------------------
(* C24: models built from settings (kmc), inputs read (read) and runs (go)    *)
(* with everything the engine received.                                       *)
EXTENDS Lattice, TraceBase
A == INSTANCE Attr
VARIABLES l, s, have
vars == <<l, s, have>>
AsFun(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
Setting(e) == [reps |-> e.reps, nb |-> e.nb, elements |-> e.elements, empty |-> e.empty, sites |-> e.sites, given |-> AsFun(e.given),
               cell |-> e.cell, basis |-> e.basis, periodic |-> e.periodic]
IntervalOk(e) == e.interval = <<>> \/ A!Accepts([kind |-> "AnalysisInterval", cands |-> <<>>, entry |-> ""], e.interval[1])
LatticeOk(q) == q.reps = s.reps /\ q.periodic = s.periodic /\ q.cell = s.cell /\ q.basis = s.basis
Holds(q, h) == /\ q.types = h[1] /\ q.types_possible = s.elements /\ LatticeOk(q.types_lattice)
               /\ q.sites = h[2] /\ q.sites_possible = s.sites /\ LatticeOk(q.sites_lattice)
ReadFails(e) ==
  IF Refuses(s, e.conf, e.file) THEN Failing({<<"refused", e.exc = "SetupError">>, <<"refusal-without-effect", e.kept>>})
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE Failing({<<"configuration", e.got.types = Types(s, e.conf) /\ e.got.types_possible = s.elements>>,
                <<"sites", e.got.sites = SiteTypes(s, e.file) /\ e.got.sites_possible = s.sites>>,
                <<"lattice", LatticeOk(e.got.types_lattice) /\ LatticeOk(e.got.sites_lattice)>>})
GoFails(e) ==
  IF e.exc # "" THEN {"raised"} ELSE
  Failing({<<"one-run", e.runs = 1>>,
           <<"control", AsFun(e.control) = Control(s)>>,
           <<"same-configuration", have # <<>> /\ Holds(e.got, have)>>,
           <<"trajectory", e.tname = "auto_" \o e.ttype \o "_trajectory.py" /\ e.tgot = e.ttype>>,
           <<"analysis", e.analysis = e.want>>,
           <<"script", e.script = e.scripting>>})
Fails(e) == CASE e.ev = "kmc" -> IF IntervalOk(e) THEN (IF e.exc = "" THEN {} ELSE {"raised"}) ELSE Failing({<<"interval-refused", e.exc = "SetupError">>})
              [] e.ev = "read" -> ReadFails(e)
              [] e.ev = "go" -> GoFails(e)
              [] OTHER -> {e.ev}
Init == l = 1 /\ s = [reps |-> <<>>] /\ have = <<>>
Next == /\ l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ s' = IF e.ev = "kmc" THEN Setting(e) ELSE s
           /\ have' = IF e.ev = "kmc" THEN <<>> ELSE IF e.ev = "read" /\ ~Refuses(s, e.conf, e.file) THEN <<Types(s, e.conf), SiteTypes(s, e.file)>> ELSE have
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
