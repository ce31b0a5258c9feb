------------------------------ MODULE Campaign -----------------------------
(* A campaign of simulations over gas pressures, as the scripts of the        *)
(* repository run it: job directories are made from a template, simulations   *)
(* are continued where they ended, their results are collected from the job   *)
(* directories and drawn.  Numbers are integers in a unit the driver chooses; *)
(* texts that are only copied stay texts.                                     *)
EXTENDS Util

\* ---- setup files: a sequence of lines, those that set the start time marked
Stamp(v) == [start |-> TRUE, text |-> v]
Continued(lines, v) ==
  IF \E i \in DOMAIN lines : lines[i].start
  THEN [i \in DOMAIN lines |-> IF lines[i].start THEN Stamp(v) ELSE lines[i]]
  ELSE Append(lines, Stamp(v))
\* What the file means: the last line that sets the start time wins.
StartOf(lines) == LET S == {i \in DOMAIN lines : lines[i].start} IN IF S = {} THEN "" ELSE lines[Max(S)].text
OtherLines(lines) == SelectSeq(lines, LAMBDA x : ~x.start)

\* ---- pressures of the jobs, in micro-bar
Line(n) == [i \in 1..n |-> 39000 + 1000 * (i - 1)]           \* 0.039 ... 0.099 in steps of 0.001
Near(a, b) == Abs(a - b) <= 1
\* k-th of ten values evenly spaced between a and b
Spaced(x, k, a, b) == Abs(9 * (x - a) - (k - 1) * (b - a)) <= 9
Grid(x, k, what) == IF what = "CO" THEN Spaced(x, k, 10000, 20000000) ELSE Spaced(x, k, 10000, 30000000)

\* ---- results of a job: [p, types, last, rates] with `rates' in the order of the names of the processes
NoResult == <<>>
OTypes == <<"O_s", "O_r", "O_u", "O_d", "O_l">>
At(job, t) == job.last[CHOOSE i \in DOMAIN job.types : job.types[i] = t]
OCover(job) == SumSeq([i \in DOMAIN OTypes |-> At(job, OTypes[i])])
COCover(job) == At(job, "C")
Rate(job) == job.rates[1] + job.rates[3]
MapRate(job) == job.rates[11] + job.rates[13]
\* The rows of the jobs that have a result, by pressure.
Rows(jobs, Has(_), Row(_)) == {<<jobs[i].p, Row(jobs[i])>> : i \in {j \in DOMAIN jobs : Has(jobs[j])}}
Ordered(q) == \A i \in 1..(Len(q) - 1) : q[i][1] < q[i + 1][1]
Collected(got, jobs, Has(_), Row(_)) == ToSet(got) = Rows(jobs, Has, Row) /\ Len(got) = Cardinality(ToSet(got)) /\ Ordered(got)

\* ---- pictures: a series is <<label, x, y>>
Key(t) == IF t = "Vac" THEN "*" ELSE t
AddUp(rows, n) == [k \in 1..n |-> SumSeq([i \in DOMAIN rows |-> rows[i][k]])]
Starting(types, rows, c) == LET ix == SelectSeq([i \in DOMAIN types |-> i], LAMBDA i : Ch(types[i], 1) = c) IN [k \in DOMAIN ix |-> rows[ix[k]]]
Merged(types, rows, c, n) == AddUp(Starting(types, rows, c), n)
Net(rates, forward, reverse) == SumOver(forward, LAMBDA i : rates[i]) - SumOver(reverse, LAMBDA i : rates[i])
=============================================================================
