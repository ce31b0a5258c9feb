------------------------------ MODULE FormulaMC ------------------------------
(* All texts over a small alphabet.                                          *)
EXTENDS Formula, Json, IOUtils
CONSTANTS MaxLen, Alphabet
VARIABLES text
Init == text = ""
Next == Len(text) < MaxLen /\ \E c \in Alphabet : text' = text \o c
Spec == Init /\ [][Next]_text
R == Read(text)
Lead == text = "" \/ Ch(text, 1) \notin Digits
\* Sequences of formulas are formulas of sequences.
Concat == R.ok /\ Lead => \A t \in {"C", "(CO)2", "Cl2"} : Read(text \o t).atoms = R.atoms \o Read(t).atoms
Grouping == R.ok => /\ Read("(" \o text \o ")").atoms = R.atoms /\ Read("(" \o text \o ")2").atoms = R.atoms \o R.atoms
                    /\ Read("C(" \o text \o ")3").atoms = <<"C">> \o R.atoms \o R.atoms \o R.atoms
Prefix == R.ok /\ Lead => Read("2" \o text).atoms = R.atoms \o R.atoms
Balance == R.ok => Cardinality({i \in 1..Len(text) : Ch(text, i) = "("}) = Cardinality({i \in 1..Len(text) : Ch(text, i) = ")"})
Emit == IF "OUT" \in DOMAIN IOEnv THEN PrintT("SCN " \o ToJson([text |-> text])) ELSE TRUE
=============================================================================
