----------------------------- MODULE PartitionMC -----------------------------
(* P ranks run the same program: take the piece, work on it element by       *)
(* element, gather the results, then a master-only step.  All interleavings. *)
EXTENDS Partition, TLC, Json, IOUtils
CONSTANTS MaxN, MaxP
VARIABLES n, P, sizes, pc, done, merged, masters
vars == <<n, P, sizes, pc, done, merged, masters>>
Whole == [i \in 1..n |-> i]
Init ==
  /\ n \in 0..MaxN /\ P \in 1..MaxP
  /\ sizes \in {s \in SizeVecs(n, P) : TRUE}
  /\ pc = [r \in 1..P |-> "work"] /\ done = [r \in 1..P |-> <<>>]
  /\ merged = [r \in 1..P |-> <<>>] /\ masters = {}
Piece(r) == Cut(Whole, [i \in 1..P |-> sizes[i]])[r]
Work(r) == /\ pc[r] = "work"
           /\ IF Len(done[r]) < Len(Piece(r))
              THEN done' = [done EXCEPT ![r] = Append(@, 10 * Piece(r)[Len(@) + 1])] /\ pc' = pc
              ELSE pc' = [pc EXCEPT ![r] = "gather"] /\ done' = done
           /\ UNCHANGED <<n, P, sizes, merged, masters>>
\* A collective: enabled once every rank has come to it.
Gather(r) == /\ pc[r] = "gather" /\ \A q \in 1..P : pc[q] # "work"
             /\ merged' = [merged EXCEPT ![r] = Flat([q \in 1..P |-> done[q]])]
             /\ pc' = [pc EXCEPT ![r] = "tail"]
             /\ UNCHANGED <<n, P, sizes, done, masters>>
Tail_(r) == /\ pc[r] = "tail" /\ pc' = [pc EXCEPT ![r] = "end"]
            /\ masters' = IF r = 1 THEN masters \union {r} ELSE masters
            /\ UNCHANGED <<n, P, sizes, done, merged>>
Next == \E r \in 1..P : Work(r) \/ Gather(r) \/ Tail_(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Balanced == IsPartition(Whole, Cut(Whole, [i \in 1..P |-> sizes[i]]))
Complete == \A r \in 1..P : pc[r] \in {"tail", "end"} => merged[r] = [i \in 1..n |-> 10 * i]
NoOverlap == \A r, q \in 1..P : r # q => ToSet(Piece(r)) \cap ToSet(Piece(q)) = {}
MasterOnly == masters \subseteq {1}
Ends == <>(\A r \in 1..P : pc[r] = "end")
Emit == IF "OUT" \in DOMAIN IOEnv /\ \A r \in 1..P : pc[r] = "work" /\ done[r] = <<>>
        THEN PrintT("SCN " \o ToJson([n |-> n, p |-> P])) ELSE TRUE
=============================================================================
