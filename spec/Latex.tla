-------------------------------- MODULE Latex --------------------------------
(* How formulas, states and reactions are written in LaTeX, and what such a   *)
(* text means: it names coefficient, atoms, bonds being broken and kind of    *)
(* site of every term; only the number of sites is not written.               *)
EXTENDS Chem

RECURSIVE SpTex(_, _)
SpTex(sp, i) ==
  IF i > Len(sp) THEN ""
  ELSE IF Ch(sp, i) \in Uppers \cup Lowers \cup {"*"}
       THEN LET two == Ch(sp, i) \in Uppers /\ i < Len(sp) /\ Ch(sp, i + 1) \in Lowers
                j == IF two THEN i + 2 ELSE i + 1
                k == SkipIn(sp, j, Digits)
            IN  SubSeq(sp, i, j - 1) \o (IF k > j THEN "_{" \o SubSeq(sp, j, k - 1) \o "}" ELSE "") \o SpTex(sp, k)
  ELSE Ch(sp, i) \o SpTex(sp, i + 1)
FormTex(f) == (IF f.stoich = 1 THEN "" ELSE ToString(f.stoich)) \o SpTex(f.sp, 1) \o "(" \o f.site \o ")"
RECURSIVE Join(_, _)
Join(q, sep) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
StateTex(st) == Join([i \in DOMAIN st |-> FormTex(st[i])], " + ")
RxnTex(rxn) == LET q == [s \in DOMAIN rxn |-> StateTex(rxn[s])]
               IN  IF Len(q) = 3 THEN q[1] \o " \\leftrightarrow " \o q[2] \o " \\rightarrow " \o q[3]
                   ELSE q[1] \o " \\rightarrow " \o q[2]

\* Reading: <<coefficient, parts, kind of site>>; a part is <<element, number>> or <<"-", 0>>.
RECURSIVE Parts(_, _)
Parts(sp, i) ==
  IF i > Len(sp) THEN <<>>
  ELSE IF Ch(sp, i) \in Uppers \cup Lowers \cup {"*"}
       THEN LET two == Ch(sp, i) \in Uppers /\ i < Len(sp) /\ Ch(sp, i + 1) \in Lowers
                j == IF two THEN i + 2 ELSE i + 1
                k == SkipIn(sp, j, Digits)
            IN  <<<<SubSeq(sp, i, j - 1), NumOr(SubSeq(sp, j, k - 1), 1)>>>> \o Parts(sp, k)
  ELSE <<<<Ch(sp, i), 0>>>> \o Parts(sp, i + 1)
Meaning(f) == <<f.stoich, Parts(f.sp, 1), f.site>>
RxnMeaning(rxn) == [s \in DOMAIN rxn |-> [i \in DOMAIN rxn[s] |-> Meaning(rxn[s][i])]]

RECURSIVE ReadParts(_, _)
ReadParts(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF Ch(t, i) = "-" THEN <<<<"-", 0>>>> \o ReadParts(t, i + 1)
  ELSE LET two == Ch(t, i) \in Uppers /\ i < Len(t) /\ Ch(t, i + 1) \in Lowers
           j == IF two THEN i + 2 ELSE i + 1
           sub == j < Len(t) /\ SubSeq(t, j, j + 1) = "_{"
           k == IF sub THEN SkipIn(t, j + 2, Digits) ELSE j
       IN  <<<<SubSeq(t, i, j - 1), IF sub THEN NumOr(SubSeq(t, j + 2, k - 1), 1) ELSE 1>>>> \o ReadParts(t, IF sub THEN k + 1 ELSE k)
ReadForm(t) ==
  LET a == SkipIn(t, 1, Digits)
      p == CHOOSE i \in a..Len(t) : Ch(t, i) = "(" /\ \A j \in a..(i-1) : Ch(t, j) # "("
  IN  <<NumOr(SubSeq(t, 1, a - 1), 1), ReadParts(SubSeq(t, a, p - 1), 1), SubSeq(t, p + 1, Len(t) - 1)>>
RECURSIVE SplitAt(_, _, _, _)
SplitAt(t, sep, from, i) ==
  IF i + Len(sep) - 1 > Len(t) THEN <<SubSeq(t, from, Len(t))>>
  ELSE IF SubSeq(t, i, i + Len(sep) - 1) = sep THEN <<SubSeq(t, from, i - 1)>> \o SplitAt(t, sep, i + Len(sep), i + Len(sep))
  ELSE SplitAt(t, sep, from, i + 1)
ReadState(t) == LET q == SplitAt(t, " + ", 1, 1) IN [i \in DOMAIN q |-> ReadForm(q[i])]
ReadRxn(t) == LET a == SplitAt(t, " \\leftrightarrow ", 1, 1)
                  b == SplitAt(a[Len(a)], " \\rightarrow ", 1, 1)
                  q == SubSeq(a, 1, Len(a) - 1) \o b
              IN  [s \in DOMAIN q |-> ReadState(q[s])]

\* Formulas conserve each other, in contrast to states, also in the phase.
SameFormula(f, g) == f.elems = g.elems /\ f.sites = g.sites

\* Braces.
RECURSIVE Depth(_, _, _)
Depth(t, i, d) == IF d < 0 THEN d ELSE IF i > Len(t) THEN d
                  ELSE Depth(t, i + 1, IF Ch(t, i) = "{" THEN d + 1 ELSE IF Ch(t, i) = "}" THEN d - 1 ELSE d)
Balanced(t) == Depth(t, 1, 0) = 0
RECURSIVE Bare(_, _)
Bare(t, i) == IF i > Len(t) THEN "" ELSE (IF Ch(t, i) \in {"{", "}", " "} THEN "" ELSE Ch(t, i)) \o Bare(t, i + 1)

\* The formulas that are logged: a call gives one line for each of its expressions.
Left(kind, i) == CASE kind = "f" -> "r_f" \o ToString(i) \o "^+"
                   [] kind = "r" -> "r_r" \o ToString(i) \o "^-"
                   [] kind = "d" -> "\\fracd\\theta_" \o ToString(i) \o "dt"
Lines(call, nr, na) == CASE call = "rates" -> [i \in 1..nr |-> <<"f", i>>] \o [i \in 1..nr |-> <<"r", i>>]
                         [] call = "dtheta" -> [i \in 1..na |-> <<"d", i>>]
                         [] OTHER -> <<>>
RECURSIVE Logged(_, _, _)
Logged(calls, nr, na) == IF calls = <<>> THEN <<>> ELSE Lines(Head(calls), nr, na) \o Logged(Tail(calls), nr, na)
=============================================================================
