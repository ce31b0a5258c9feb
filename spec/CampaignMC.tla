------------------------------ MODULE CampaignMC ---------------------------
(* All short histories of a campaign: editing the template, making the jobs,  *)
(* running and continuing them, collecting and drawing their results.         *)
EXTENDS Campaign, TLC, Json, IOUtils
CONSTANTS NJobs, Values, MaxOps
VARIABLES tpl, jobs, setup, data, shown, hist
vars == <<tpl, jobs, setup, data, shown, hist>>
None == -1
Job(p, t) == [p |-> p, tpl |-> t, cov |-> None, rate |-> None]
Start == {<<>>, <<[start |-> FALSE, text |-> "a"]>>, <<[start |-> FALSE, text |-> "a"], Stamp("0")>>, <<Stamp("0"), [start |-> FALSE, text |-> "a"], Stamp("1")>>}
Init == /\ tpl = 0 /\ jobs = <<>> /\ data = [cov |-> <<>>, rate |-> <<>>] /\ shown = <<>> /\ hist = <<>>
        /\ setup \in Start
Op(o, i, v) == hist' = Append(hist, [op |-> o, job |-> i, v |-> v])
Edit == tpl' = tpl + 1 /\ Op("edit", 0, 0) /\ UNCHANGED <<jobs, setup, data, shown>>
Create == /\ jobs' = [i \in 1..NJobs |-> Job(i, tpl)] /\ Op("create", 0, 0) /\ UNCHANGED <<tpl, setup, data, shown>>
Run(i, what, v) == /\ i \in DOMAIN jobs
                   /\ jobs' = [jobs EXCEPT ![i] = [@ EXCEPT !.cov = IF what = "rate" THEN @ ELSE v, !.rate = IF what = "cov" THEN @ ELSE v]]
                   /\ Op("run-" \o what, i, v) /\ UNCHANGED <<tpl, setup, data, shown>>
Has(what) == {i \in DOMAIN jobs : (IF what = "cov" THEN jobs[i].cov ELSE jobs[i].rate) # None}
Table(what) == LET q == SelectSeq([i \in DOMAIN jobs |-> i], LAMBDA i : i \in Has(what))
               IN  [k \in DOMAIN q |-> <<jobs[q[k]].p, IF what = "cov" THEN jobs[q[k]].cov ELSE jobs[q[k]].rate>>]
Extract(what) == /\ jobs # <<>> /\ data' = [data EXCEPT ![what] = Table(what)] /\ Op("extract-" \o what, 0, 0) /\ UNCHANGED <<tpl, jobs, setup, shown>>
Draw(what) == /\ data[what] # <<>> /\ shown' = <<what, data[what]>> /\ Op("draw-" \o what, 0, 0) /\ UNCHANGED <<tpl, jobs, setup, data>>
Continue(v) == /\ setup' = Continued(setup, ToString(v)) /\ Op("continue", 0, v) /\ UNCHANGED <<tpl, jobs, data, shown>>
Next == /\ Len(hist) < MaxOps
        /\ \/ Edit \/ Create \/ \E w \in {"cov", "rate"} : Extract(w) \/ Draw(w)
           \/ \E v \in Values : Continue(v) \/ \E i \in 1..NJobs : \E w \in {"cov", "rate", "both"} : Run(i, w, v)
Spec == Init /\ [][Next]_vars
Recent == hist[Len(hist)]
\* Every job is a copy of the template as it was when the jobs were made, at its own pressure.
Own == \A i \in DOMAIN jobs : jobs[i].p = i /\ jobs[i].tpl <= tpl
\* What was collected is ordered and complete, and drawing shows what was collected last.
Complete == \A w \in {"cov", "rate"} : Ordered(data[w])
Fresh == hist # <<>> => \A w \in {"cov", "rate"} : Recent.op = "extract-" \o w => Len(data[w]) = Cardinality(Has(w))
Shown == hist # <<>> => \A w \in {"cov", "rate"} : Recent.op = "draw-" \o w => shown = <<w, data[w]>>
\* Continuing starts at the time reached, changes nothing else, and can be repeated.
Resumes == hist # <<>> /\ Recent.op = "continue" => StartOf(setup) = ToString(Recent.v) /\ Continued(setup, ToString(Recent.v)) = setup
Kept == \E s \in Start : OtherLines(setup) = OtherLines(s)
Emit == IF "OUT" \in DOMAIN IOEnv /\ hist # <<>> /\ Len(hist) = MaxOps /\ \E i \in DOMAIN hist : hist[i].op \in {"extract-cov", "extract-rate", "continue", "create"}
        THEN PrintT("SCN " \o ToJson([setup |-> setup, hist |-> hist])) ELSE TRUE
=============================================================================
