------------------------------- MODULE Formula -------------------------------
(* Molecular formulas: elements with counts, groups with multipliers and a   *)
(* multiplier in front of a group or of the whole formula.                   *)
EXTENDS Util, TLC

RECURSIVE Times(_, _)
Times(n, q) == IF n = 0 THEN <<>> ELSE q \o Times(n - 1, q)
Bad == [ok |-> FALSE, atoms |-> <<>>, next |-> 0]

\* Reads a group from position i on: up to the closing parenthesis (which is
\* not consumed) or the end of the text.
RECURSIVE Group(_, _)
Group(s, i) ==
  IF i > Len(s) \/ Ch(s, i) = ")" THEN [ok |-> TRUE, atoms |-> <<>>, next |-> i]
  ELSE IF Ch(s, i) \in Digits THEN
    LET j == SkipIn(s, i, Digits) r == Group(s, j)
    IN  [r EXCEPT !.atoms = Times(NumVal(SubSeq(s, i, j - 1), 1, 0), @)]
  ELSE IF Ch(s, i) = "(" THEN
    LET g == Group(s, i + 1) IN
    IF ~g.ok \/ g.next > Len(s) THEN Bad
    ELSE LET k == SkipIn(s, g.next + 1, Digits)
             m == NumOr(SubSeq(s, g.next + 1, k - 1), 1)
             r == Group(s, k)
         IN  [r EXCEPT !.atoms = Times(m, g.atoms) \o @]
  ELSE IF Ch(s, i) \in Uppers THEN
    LET j == IF i < Len(s) /\ Ch(s, i + 1) \in Lowers THEN i + 2 ELSE i + 1
        k == SkipIn(s, j, Digits)
        r == Group(s, k)
    IN  [r EXCEPT !.atoms = Times(NumOr(SubSeq(s, j, k - 1), 1), <<SubSeq(s, i, j - 1)>>) \o @]
  ELSE Bad
Read(s) == LET r == Group(s, 1) IN IF r.ok /\ r.next > Len(s) THEN r ELSE Bad

\* Relative masses in 10^-5 and the kilograms of one in 10^-35.
Mass == [H |-> 100794, C |-> 1201070, N |-> 1400670, O |-> 1599940, F |-> 1899840, Ne |-> 2017970, S |-> 3206500, Cl |-> 3545300]
Known(q) == ToSet(q) \subseteq DOMAIN Mass
MassOf(q) == SumSeq([i \in DOMAIN q |-> Mass[q[i]]])
Amu == 166053904
=============================================================================
