------------------------------- MODULE Profile --------------------------------
(* Energy profiles: one picture per reaction showing initial, transition and  *)
(* final state of the energies the model has when it is plotted.  Energies    *)
(* are whole numbers of a small unit.                                         *)
EXTENDS Util
Top(d) == MaxOf(0, d)
\* What a reaction with barrier g and energy d looks like.  A barrier that is
\* above both states by less than Thin may be left out.
Thin == 10
Must(g, d) == g - Top(d) > Thin
May(g, d) == g - Top(d) > 0
Shapes(g, d) == (IF Must(g, d) THEN {} ELSE {<<0, d>>}) \cup (IF May(g, d) THEN {<<0, g, d>>} ELSE {})
\* An equation is noted on a line that has as many states as it has.
Note(text, states, shape) == IF states = Len(shape) THEN {text} ELSE {"", text}
\* A barrier that is given as zero is lifted to the energy of the reaction.
Lift(g, d) == IF g = 0 /\ d > 0 THEN d ELSE g
Normal(rel) == [i \in DOMAIN rel |-> <<Lift(rel[i][1], rel[i][2]), rel[i][2]>>]
=============================================================================
