-------------------------------- MODULE KmcMC --------------------------------
(* A lattice of a few sites on a ring, its processes, and three analyses with  *)
(* buffers that watch it.  Lazy = FALSE writes an empty chunk at the end and   *)
(* FromStart = FALSE opens the first window at time zero, as the code did      *)
(* before it was repaired.                                                     *)
EXTENDS Kmc, TLC, Json, IOUtils
CONSTANTS MaxRecs, Sizes, Every, Starts, Lazy, FromStart, Dts
N == 4
Ratios == <<12, 4>>
Possible == <<"A", "V", "B">>
Empty == "V"
Interval == 10
\* Processes: what a site holds, and what its neighbour holds, before and after.
Procs == <<[rxn |-> "a(->)", from |-> <<"V">>, to |-> <<"A">>], [rxn |-> "a(<-)", from |-> <<"A">>, to |-> <<"V">>],
           [rxn |-> "d(->)", from |-> <<"A", "V">>, to |-> <<"V", "A">>], [rxn |-> "d(<-)", from |-> <<"V", "A">>, to |-> <<"A", "V">>],
           [rxn |-> "b(->)", from |-> <<"A", "A">>, to |-> <<"B", "V">>], [rxn |-> "x(->)", from |-> <<"B">>, to |-> <<"X">>]>>
Labels == [p \in DOMAIN Procs |-> Procs[p].rxn]
RateOf == <<3, 1, 20, 20, 7, 2>>
At(s, k) == ((s + k - 2) % N) + 1
Enabled(types, p, s) == \A k \in DOMAIN Procs[p].from : types[At(s, k)] = Procs[p].from[k]
Do(types, p, s) == [i \in 1..N |-> LET K == {k \in DOMAIN Procs[p].to : At(s, k) = i} IN IF K = {} THEN types[i] ELSE Procs[p].to[CHOOSE k \in K : TRUE]]
Avail(types) == [p \in DOMAIN Procs |-> Cardinality({s \in 1..N : Enabled(types, p, s)})]

VARIABLES types, step, t, recs, start, cov, tof, evt, size, every, done
vars == <<types, step, t, recs, start, cov, tof, evt, size, every, done>>
Cov(ty) == Coverages(ty, Ratios, Possible, Empty)
\* Appending a row, writing the buffer when it is full.
Put(f, row) == LET b == Append(f.buf, row) IN IF Len(b) >= size THEN [buf |-> <<>>, file |-> Append(f.file, b)] ELSE [f EXCEPT !.buf = b]
Flush(f, always) == IF f.buf = <<>> /\ ~always THEN f ELSE [buf |-> <<>>, file |-> Append(f.file, f.buf)]
Nothing == [buf |-> <<>>, file |-> <<>>]

Init == /\ types = [i \in 1..N |-> IF i = 1 THEN "A" ELSE "V"] /\ step = 0 /\ recs = <<>> /\ done = FALSE
        /\ size \in Sizes /\ every \in Every /\ start \in Starts /\ t = start
        /\ cov = [buf |-> <<Cov(types)>>, file |-> <<>>]
        /\ tof = [w |-> TofStart(Len(Procs), IF FromStart THEN start ELSE 0), out |-> Nothing]
        /\ evt = [prev |-> <<>>, out |-> Nothing]
Step(p, s, dt) ==
  /\ ~done /\ Len(recs) < MaxRecs /\ Enabled(types, p, s)
  /\ types' = Do(types, p, s) /\ step' = step + 1 /\ t' = t + dt
  /\ IF step' % every # 0 THEN UNCHANGED <<recs, cov, tof, evt>> ELSE
     LET r == [step |-> step', t |-> t', types |-> types', avail |-> Avail(types'), rates |-> RateOf, picked |-> p - 1]
         w == TofStep(tof.w, r, Interval) IN
     /\ recs' = Append(recs, r)
     /\ cov' = Put(cov, Cov(types'))
     /\ tof' = [w |-> [w EXCEPT !.done = <<>>], out |-> IF w.done = <<>> THEN tof.out ELSE Put(tof.out, w.done[1])]
     /\ evt' = [prev |-> <<r>>, out |-> IF evt.prev = <<>> THEN evt.out ELSE
                 Put(evt.out, [step |-> evt.prev[1].step, avail |-> evt.prev[1].avail, rates |-> RateOf, picked |-> p - 1, at |-> step'])]
  /\ UNCHANGED <<size, every, start, done>>
Finish == /\ ~done /\ recs # <<>> /\ done' = TRUE
          /\ cov' = Flush(cov, ~Lazy) /\ tof' = [tof EXCEPT !.out = Flush(@, FALSE)] /\ evt' = [evt EXCEPT !.out = Flush(@, FALSE)]
          /\ UNCHANGED <<types, step, t, recs, start, size, every>>
\* One representative site: the ring makes the others alike.
Next == (\E p \in DOMAIN Procs, dt \in Dts : \E s \in 1..N : (\A r \in 1..s - 1 : ~Enabled(types, p, r)) /\ Step(p, s, dt)) \/ Finish
Spec == Init /\ [][Next]_vars

Whole(f, rows) == Rows(f.file) \o f.buf = rows
\* What is in the file and in the buffer together is what was recorded.
CovWhole == Whole(cov, <<Cov([i \in 1..N |-> IF i = 1 THEN "A" ELSE "V"])>> \o [i \in DOMAIN recs |-> Cov(recs[i].types)])
TofWhole == Whole(tof.out, Windows(recs, Len(Procs), start, Interval))
EvtWhole == Whole(evt.out, Events(recs))
ReadableFiles == Readable(cov.file) /\ Readable(tof.out.file) /\ Readable(evt.out.file)
Bounded == Len(cov.buf) <= size /\ Len(tof.out.buf) <= size /\ Len(evt.out.buf) <= size
Written == done => cov.buf = <<>> /\ tof.out.buf = <<>> /\ evt.out.buf = <<>>
\* Coverages are shares: none negative, and they sum to one.
Shares == \A i \in DOMAIN recs : LET c == Cov(recs[i].types) IN Sum(c) = 16 * Cells(recs[i].types, Ratios) /\ \A k \in DOMAIN c : c[k] >= 0
\* Windows follow one another from the start, exceed the interval, and with
\* the open one hold every event once.
Partition ==
  LET ws == Rows(tof.out.file) \o tof.out.buf IN
  /\ \A i \in DOMAIN ws : ws[i].len > Interval /\ ws[i].start = IF i = 1 THEN start ELSE ws[i - 1].start + ws[i - 1].len
  /\ \A p \in DOMAIN Procs : tof.w.occ[p] + Sum([i \in DOMAIN ws |-> ws[i].occ[p]]) = Picks(recs, p, 0)
\* Every event is counted once, for its process and for its reaction.
Accounted == \A from \in {0, 2} : LET c == Counts(recs, Len(Procs), from) IN
  /\ Sum(c) = Len(Steady(recs, from)) /\ MapThenSumSet(LAMBDA r : ByReaction(Labels, c)[r], Reactions(Labels)) = Sum(c)
\* The picked process was available where its table was taken (every step seen).
Possibly == every = 1 => \A i \in DOMAIN Events(recs) : Events(recs)[i].avail[Events(recs)[i].picked + 1] > 0
Emit == IF "OUT" \in DOMAIN IOEnv /\ done /\ Len(recs) = MaxRecs THEN
          PrintT("SCN " \o ToJson([ratios |-> Ratios, possible |-> Possible, empty |-> Empty, size |-> size, start |-> start, interval |-> Interval,
                                   recs |-> recs])) ELSE TRUE
=============================================================================
