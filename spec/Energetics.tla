----------------------------- MODULE Energetics -----------------------------
(* Energies of a network.  Absolute energies map species to integers (micro  *)
(* eV); the relative energies of a reaction are [gaf, gar, dg].  The history *)
(* of a model is: load (absolute or relative), then any corrections.         *)
EXTENDS Chem

Weighted(st, E) == SumSeq([i \in DOMAIN st |-> st[i].stoich * E[st[i].ss]])

\* Relative energies of one reaction from absolute ones.
RelOf(rxn, E) ==
  LET is == Weighted(rxn[1], E) fs == Weighted(rxn[Len(rxn)], E)
      ts == IF Len(rxn) = 3 THEN Weighted(rxn[2], E) ELSE MaxOf(is, fs)
  IN  [gaf |-> ts - is, gar |-> ts - fs, dg |-> fs - is]
FromAbsolute(net, E) == [r \in DOMAIN net |-> RelOf(net[r], E)]

\* Relative energies from barriers and reaction energies.
Accepts(net, ga, dg) == Len(ga) = Len(net) /\ Len(dg) = Len(net)
FromInput(ga, dg) == [r \in DOMAIN ga |->
  LET f == IF ga[r] = 0 /\ dg[r] > 0 THEN dg[r] ELSE ga[r]
  IN  [gaf |-> f, gar |-> f - dg[r], dg |-> dg[r]]]

\* Correction by the energy shift of every species.
Correct1(rxn, rel, shift) ==
  LET is == Weighted(rxn[1], shift) fs == Weighted(rxn[Len(rxn)], shift) IN
  IF Len(rxn) = 3
  THEN LET ts == Weighted(rxn[2], shift)
       IN  [gaf |-> rel.gaf + ts - is, gar |-> rel.gar + ts - fs, dg |-> rel.dg + fs - is]
  ELSE LET top == MaxOf(is, rel.dg + fs)
       IN  [gaf |-> top - is, gar |-> top - rel.dg - fs, dg |-> rel.dg + fs - is]
CorrectAll(net, rels, shift) == [r \in DOMAIN net |-> Correct1(net[r], rels[r], shift)]

Consistent(rels) == \A r \in DOMAIN rels : rels[r].gaf - rels[r].gar = rels[r].dg
\* The reaction energies along a path of states add up.
Species(net) == {f.ss : f \in AllForms(net)}
=============================================================================
