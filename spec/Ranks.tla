-------------------------------- MODULE Ranks --------------------------------
(* P ranks of one program in one directory.  Each rank makes models, logs and *)
(* archives; nothing it does may depend on which rank happens to be faster.   *)
(* Operations of a rank: <<"new", kind>> with kind micro or kmc, <<"log", x>>,*)
(* <<"warn", x>>, <<"archive", x>>, <<"meet">> (a barrier of the program).    *)
EXTENDS Util

\* Ranks of a kinetic Monte Carlo run work on one simulation: they share a log
\* in which the master writes.  Microkinetic models of ranks are unrelated.
LogFile(P, r, kind) == IF P = 1 \/ kind = "kmc" THEN "out.log" ELSE "log/out_" \o ToString(r) \o ".log"
DataFile(P, r) == IF P = 1 THEN "data.pkl" ELSE "data/data_" \o ToString(r) \o ".pkl"
TrajFile(P, r) == IF P = 1 THEN "auto_ode_coverages.py" ELSE "data/auto_ode_coverages_" \o ToString(r) \o ".py"

Picks(ops, what) == SelectSeq(ops, LAMBDA o : o[1] = what)
Texts(ops, what) == [i \in DOMAIN Picks(ops, what) |-> Picks(ops, what)[i][2]]
\* All models of a program are of one kind.
Kind(ops) == Texts(ops, "new")[1]
LogAllowed(kind, r) == kind = "micro" \/ r = 0

\* What a rank says once it has a model; models may log what they are allowed.
RECURSIVE Said(_, _, _)
Said(r, ops, on) == IF ops = <<>> THEN <<>>
  ELSE LET o == Head(ops) IN
       IF o[1] \in {"log", "warn"} /\ on THEN <<o[2]>> \o Said(r, Tail(ops), on)
       ELSE Said(r, Tail(ops), on \/ (o[1] = "new" /\ LogAllowed(o[2], r)))
\* What reaches the console: warnings always, information on the master only.
RECURSIVE Shown(_, _, _)
Shown(r, ops, on) == IF ops = <<>> THEN <<>>
  ELSE LET o == Head(ops) IN
       IF o[1] = "new" THEN Shown(r, Tail(ops), LogAllowed(o[2], r))
       ELSE IF on /\ (o[1] = "warn" \/ (o[1] = "log" /\ r = 0)) THEN <<o[2]>> \o Shown(r, Tail(ops), on)
       ELSE Shown(r, Tail(ops), on)

\* The data file of a rank holds what its last model that archived stored.
Archived(ops) == Texts(ops, "archive")
=============================================================================
