------------------------------- MODULE LatexMC --------------------------------
(* All reactions of two or three states over a set of formulas.               *)
EXTENDS Latex, Json, IOUtils
CONSTANTS Forms, MaxTerms
VARIABLES rxn
F == {ParseFormula(t) : t \in Forms}
States == UNION {[1..n -> F] : n \in 1..MaxTerms}
Init == rxn = <<>>
Next == Len(rxn) < 3 /\ \E st \in States : rxn' = Append(rxn, st)
Spec == Init /\ [][Next]_rxn
Done == Len(rxn) \in {2, 3}
\* The text can be read and means the reaction.
Readable == Done => ReadRxn(RxnTex(rxn)) = RxnMeaning(rxn)
Braces == Done => Balanced(RxnTex(rxn))
\* Written backwards it is the reverse reaction.
Backwards == Done => ReadRxn(RxnTex(Reverse(rxn))) = Reverse(RxnMeaning(rxn))
\* Formulas that conserve each other make states that do, and conversely on the surface.
Algebra == rxn = <<>> => \A f, g \in F : /\ SameFormula(f, g) => SameState(<<f>>, <<g>>)
                                        /\ Surface(f) /\ Surface(g) => (SameFormula(f, g) <=> SameState(<<f>>, <<g>>))
                                        /\ SameFormula(f, g) <=> SameFormula(g, f)
Text(st) == Join([i \in DOMAIN st |-> st[i].text], " + ")
Emit == IF "OUT" \in DOMAIN IOEnv /\ Done
        THEN PrintT("SCN " \o ToJson([text |-> Join([s \in DOMAIN rxn |-> Text(rxn[s])], " -> ")])) ELSE TRUE
=============================================================================
