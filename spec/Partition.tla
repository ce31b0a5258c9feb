------------------------------ MODULE Partition ------------------------------
(* Sharing a sequence among P ranks.  A partition is written as the sequence *)
(* of pieces in rank order.  Which ranks take the longer pieces is free.     *)
EXTENDS Util

Flat(pieces) == FlattenSeq(pieces)
IsPartition(whole, pieces) ==
  /\ Flat(pieces) = whole
  /\ \A i, j \in DOMAIN pieces : Abs(Len(pieces[i]) - Len(pieces[j])) <= 1

\* All vectors of P sizes that a balanced partition of n elements can have.
RECURSIVE SizeVecs(_, _)
SizeVecs(n, P) ==
  LET q == n \div P r == n % P IN
  {s \in [1..P -> {q, q + 1}] : SumSeq([i \in 1..P |-> s[i]]) = n}
\* The pieces belonging to a size vector.
Cut(whole, sizes) ==
  [i \in 1..Len(sizes) |-> LET a == SumSeq(SubSeq(sizes, 1, i - 1)) IN SubSeq(whole, a + 1, a + sizes[i])]
=============================================================================
