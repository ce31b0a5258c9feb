-------------------------------- MODULE Util --------------------------------
(* Small operators shared by all specification modules.  Text is a TLA+      *)
(* string, addressed character by character with SubSeq.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Ch(s, i) == SubSeq(s, i, i)

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Uppers == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
           "Q","R","S","T","U","V","W","X","Y","Z"}
Lowers == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
           "q","r","s","t","u","v","w","x","y","z"}
Blanks == {" ", "\t"}

DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
                 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
                 [] c = "8" -> 8 [] c = "9" -> 9

\* Position of the first character at or after i that is not in set S.
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, S) == IF i <= Len(s) /\ Ch(s, i) \in S THEN SkipIn(s, i + 1, S) ELSE i

RECURSIVE SkipBack(_, _, _)
SkipBack(s, i, S) == IF i >= 1 /\ Ch(s, i) \in S THEN SkipBack(s, i - 1, S) ELSE i

Strip(s) == LET a == SkipIn(s, 1, Blanks) b == SkipBack(s, Len(s), Blanks)
            IN  IF a > b THEN "" ELSE SubSeq(s, a, b)

RECURSIVE NumVal(_, _, _)
NumVal(s, i, acc) == IF i > Len(s) THEN acc ELSE NumVal(s, i + 1, 10 * acc + DigitVal(Ch(s, i)))
\* Value of a digit string, dflt if it is empty.
NumOr(s, dflt) == IF s = "" THEN dflt ELSE NumVal(s, 1, 0)

\* Sum of f over a finite set / of a sequence of integers.
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
SumOver(S, f(_)) == MapThenSumSet(f, S)
RECURSIVE ProdSeq(_)
ProdSeq(q) == IF q = <<>> THEN 1 ELSE Head(q) * ProdSeq(Tail(q))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

\* The set of <<key, value>> pairs of a function.
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}

\* Names of the clauses that do not hold: Failing(<<name, bool>> set).
Failing(checks) == {c[1] : c \in {d \in checks : ~d[2]}}
=============================================================================
