--------------------------- MODULE TraceEnergetics --------------------------
(* C04-C06: the energies of a model along its history of loads/corrections.  *)
EXTENDS Energetics, GasData, TraceBase

VARIABLES l, net, rels, has, abs
vars == <<l, net, rels, has, abs>>

FunOf(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
RelsOf(o) == [r \in DOMAIN o.gaf |-> [gaf |-> o.gaf[r], gar |-> o.gar[r], dg |-> o.dg[r]]]
Same(a, b, tol) == Len(a) = Len(b) /\ \A r \in DOMAIN a :
  Abs(a[r].gaf - b[r].gaf) <= tol /\ Abs(a[r].gar - b[r].gar) <= tol /\ Abs(a[r].dg - b[r].dg) <= tol
Wellformed(o) == Len(o.gaf) = Len(o.gar) /\ Len(o.gar) = Len(o.dg)

\* Gases for which the data base holds Shomate parameters at 300-1000 K and
\* partition function data.
ShomateGases == {ShomateTable[i][1] : i \in DOMAIN ShomateTable}
EntropyGases == {RotVibTable[i][1] : i \in DOMAIN RotVibTable}
DataGases(m) == IF m = "shomate" THEN ShomateGases ELSE EntropyGases

Moves(e) == Max({0} \cup {SumSeq([i \in DOMAIN net[r][k] |-> net[r][k][i].stoich]) : r \in DOMAIN net, k \in {1}})

\* A file without the energy of some species is refused and changes nothing.
AbsFails(e) ==
  IF e.nothing \/ ~(Species(net) \subseteq DOMAIN FunOf(e.E)) THEN Failing({
    <<"incomplete-refused", e.exc # "">>,
    <<"unchanged-after-refusal", Wellformed(e.out) /\ RelsOf(e.out) = rels /\ e.has = has /\ FunOf(e.abs) = abs>>}) ELSE
  IF e.exc # "" THEN {"raised"} ELSE IF ~Wellformed(e.out) THEN {"shape"} ELSE
  LET want == FromAbsolute(net, FunOf(e.E)) got == RelsOf(e.out) IN
  IF Len(got) # Len(want) THEN {"shape"} ELSE Failing({
    <<"reaction-energy", \A r \in DOMAIN want : got[r].dg = want[r].dg>>,
    <<"forward-barrier", \A r \in DOMAIN want : got[r].gaf = want[r].gaf>>,
    <<"reverse-barrier", \A r \in DOMAIN want : got[r].gar = want[r].gar>>,
    <<"consistent", Consistent(got)>>,
    <<"absolute-kept", FunOf(e.abs) = FunOf(e.E)>>,
    <<"flags", e.has = <<TRUE, TRUE>>>>})

RelFails(e) ==
  IF ~e.complete \/ ~Accepts(net, e.ga, e.dg) THEN Failing({
    <<"rejected", e.exc = "ValueError" \/ (~e.complete /\ e.exc # "")>>,
    <<"unchanged-after-rejection", Wellformed(e.out) /\ RelsOf(e.out) = rels /\ e.has = has>>})
  ELSE IF e.exc # "" THEN {"raised"} ELSE IF ~Wellformed(e.out) THEN {"shape"} ELSE
  LET want == FromInput(e.ga, e.dg) got == RelsOf(e.out) IN
  IF Len(got) # Len(want) THEN {"shape"} ELSE Failing({
    <<"reaction-energy-kept", \A r \in DOMAIN want : got[r].dg = want[r].dg>>,
    <<"forward-barrier", \A r \in DOMAIN want : got[r].gaf = want[r].gaf>>,
    <<"reverse-barrier", \A r \in DOMAIN want : got[r].gar = want[r].gar>>,
    <<"flags", e.has[1]>>})

CorrectFails(e) ==
  LET sh == FunOf(e.shift) IN
  IF e.exc # "" THEN {"raised"} ELSE IF ~Wellformed(e.out) THEN {"shape"} ELSE
  LET want == CorrectAll(net, rels, sh) got == RelsOf(e.out) IN
  Failing({
    <<"only-gases-with-data", \A s \in DOMAIN sh : (s \in Gases(net) \cap DataGases(e.method)) = (sh[s] # 0)>>,
    <<"shifted", Same(got, want, 20)>>,
    <<"consistent", \A r \in DOMAIN got : Abs(got[r].gaf - got[r].gar - got[r].dg) <= 3>>,
    <<"barrierless", Len(got) = Len(net) => \A r \in DOMAIN got : Len(net[r]) = 2 => Abs(MinOf(got[r].gaf, got[r].gar)) <= 1>>})

Fails(e) == CASE e.ev = "new" -> IF e.exc = "" THEN {} ELSE {"raised"}
              [] e.ev = "abs" -> AbsFails(e)
              [] e.ev = "rel" -> RelFails(e)
              [] e.ev = "correct" -> CorrectFails(e)
              [] OTHER -> {e.ev}

Init == l = 1 /\ net = <<>> /\ rels = <<>> /\ has = <<FALSE, FALSE>> /\ abs = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ Report(l, e, Fails(e))
           /\ net' = IF e.ev = "new" THEN [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])] ELSE net
           /\ rels' = CASE e.ev = "new" -> <<>>
                        [] e.ev \in {"abs", "rel", "correct"} -> (IF Wellformed(e.out) THEN RelsOf(e.out) ELSE rels)
                        [] OTHER -> rels
           /\ has' = IF e.ev = "new" THEN <<FALSE, FALSE>> ELSE IF e.ev \in {"abs", "rel"} THEN e.has ELSE has
           /\ abs' = IF e.ev = "new" THEN <<>> ELSE IF e.ev = "abs" THEN FunOf(e.abs) ELSE abs
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
