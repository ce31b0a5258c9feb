--------------------------------- MODULE Kmc ---------------------------------
(* On-the-fly analysis of a kinetic Monte Carlo run.  A record is what the     *)
(* engine shows at a registered step: step, time t (1/8 s), the types of the   *)
(* lattice points, the available sites and the rate of every slow process and  *)
(* the index (from 0) of the process picked in this step.  Everything written  *)
(* is a function of the records, whatever the buffering.                       *)
EXTENDS Util

Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)

\* ---- coverages -----------------------------------------------------------
\* Ratios are in 1/16; there is one ratio for each site of the repeated cell.
Cells(types, ratios) == Len(types) \div Len(ratios)
Share(types, ratios, x) == Sum([i \in DOMAIN types |-> IF types[i] = x THEN ratios[((i - 1) % Len(ratios)) + 1] ELSE 0])
\* Coverages of the possible types, in 1/(16 cells); the empty type gets the rest.
Coverages(types, ratios, possible, empty) ==
  LET whole == 16 * Cells(types, ratios)
      own == [k \in DOMAIN possible |-> IF possible[k] = empty THEN 0 ELSE Share(types, ratios, possible[k])]
  IN  [k \in DOMAIN possible |-> IF possible[k] = empty THEN whole - Sum(own) ELSE own[k]]

\* ---- frequencies ---------------------------------------------------------
Picks(recs, p, from) == Cardinality({i \in DOMAIN recs : recs[i].picked = p - 1 /\ recs[i].step >= from})
Counts(recs, n, from) == [p \in 1..n |-> Picks(recs, p, from)]
Reactions(labels) == {labels[i] : i \in DOMAIN labels}
ByReaction(labels, counts) == [r \in Reactions(labels) |-> Sum([p \in DOMAIN labels |-> IF labels[p] = r THEN counts[p] ELSE 0])]
Steady(recs, from) == SelectSeq(recs, LAMBDA r : r.step >= from)
Span(recs, from) == LET q == Steady(recs, from) IN IF q = <<>> THEN 0 ELSE q[Len(q)].t - q[1].t

\* ---- windows of turnover frequencies -------------------------------------
\* One window at a time: [start, occ] is open, done are the closed ones.
Zero(n) == [p \in 1..n |-> 0]
TofStart(n, t) == [start |-> t, occ |-> Zero(n), done |-> <<>>]
TofStep(w, r, interval) ==
  LET occ == [w.occ EXCEPT ![r.picked + 1] = @ + 1] IN
  IF r.t - w.start > interval
  THEN [start |-> r.t, occ |-> Zero(Len(occ)), done |-> Append(w.done, [start |-> w.start, len |-> r.t - w.start, occ |-> occ])]
  ELSE [w EXCEPT !.occ = occ]
Windows(recs, n, t, interval) == FoldLeft(LAMBDA w, r : TofStep(w, r, interval), TofStart(n, t), recs).done

\* ---- events --------------------------------------------------------------
\* The table of a record is written with the next record, which tells the pick.
Events(recs) == [i \in 1..IF recs = <<>> THEN 0 ELSE Len(recs) - 1 |->
                  [step |-> recs[i].step, avail |-> recs[i].avail, rates |-> recs[i].rates, picked |-> recs[i + 1].picked, at |-> recs[i + 1].step]]
TotalRate(avail, rates) == Sum([p \in DOMAIN avail |-> avail[p] * rates[p]])

\* ---- a file written in chunks --------------------------------------------
\* A chunk without rows cannot be read back, nor anything written after it.
Readable(chunks) == \A i \in DOMAIN chunks : chunks[i] # <<>>
Rows(chunks) == FlattenSeq(chunks)
=============================================================================
