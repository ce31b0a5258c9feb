---------------------------- MODULE EnergeticsMC ----------------------------
(* All histories load / correct / correct / reload of small models.          *)
EXTENDS Energetics, TLC, Json, IOUtils

CONSTANTS Levels, Shifts, MaxLen

Nets == {
  <<"CO_g + *_s -> CO_s", "CO_s <-> C-O_s -> OC_s", "OC_s -> CO_g + *_s">>,
  <<"O2_g + 2*_s <-> O-O_2s -> 2O_s">>,
  <<"CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", "O2_g + 2*_s -> 2O_s">>}
LevelsDef == {-1, 0, 2}
ShiftsDef == {-2, 1}

VARIABLES texts, net, rels, kind, hist
vars == <<texts, net, rels, kind, hist>>
Net0 == net

Init == texts \in Nets /\ net = [i \in DOMAIN texts |-> ParseRxn(texts[i])] /\ rels = <<>> /\ kind = "none" /\ hist = <<>>

\* Absolute energies: every species gets one of the levels (surface free: 0).
Valuations(n) == {E \in [Species(n) -> Levels] : \A s \in Species(n) : s = "*_s" => E[s] = 0}
LoadAbs == \E E \in Valuations(Net0) :
  /\ rels' = FromAbsolute(Net0, E) /\ kind' = "abs"
  /\ hist' = Append(hist, [op |-> "abs", E |-> SetToSeq(Pairs(E))])
LoadRel == \E ga, dg \in [1..Len(texts) -> {0, 2}] \cup [1..Len(texts) -> {-1}] \cup [1..(Len(texts) + 1) -> {0}] :
  /\ IF Accepts(Net0, ga, dg) THEN rels' = FromInput(ga, dg) /\ kind' = "rel" ELSE UNCHANGED <<rels, kind>>
  /\ hist' = Append(hist, [op |-> "rel", ga |-> ga, dg |-> dg])
\* Gases are shifted, surface species are not.
ShiftOf(x) == [s \in Species(Net0) |-> IF s \in Gases(Net0) THEN x ELSE 0]
Correct == \E x \in Shifts :
  /\ kind # "none"
  /\ rels' = CorrectAll(Net0, rels, ShiftOf(x)) /\ UNCHANGED kind
  /\ hist' = Append(hist, [op |-> "correct", method |-> x])
Next == /\ Len(hist) < MaxLen
        /\ UNCHANGED <<texts, net>>
        /\ \/ LoadAbs \/ LoadRel \/ Correct
Spec == Init /\ [][Next]_vars

FwdMinusRev == Consistent(rels)
\* The first network is a cycle: with absolute energies it sums to zero.
Cycle == kind = "abs" /\ Len(texts) = 3 =>
   rels[1].dg + rels[2].dg + rels[3].dg = 0
\* Without transition state the lower direction has no barrier once corrected.
Barrierless == hist # <<>> /\ rels # <<>> /\ hist[Len(hist)].op \in {"correct", "abs"} =>
  \A r \in DOMAIN rels : Len(Net0[r]) = 2 =>
     MinOf(rels[r].gaf, rels[r].gar) = 0
View0 == <<texts, rels, kind, Len(hist)>>
\* Each history of full length is a scenario for the real code.
Emit == IF "OUT" \in DOMAIN IOEnv /\ Len(hist) = MaxLen
        THEN PrintT("SCN " \o ToJson([rxns |-> texts, hist |-> hist])) ELSE TRUE
=============================================================================
