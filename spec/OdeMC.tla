--------------------------------- MODULE OdeMC ---------------------------------
(* All integrations over small times with interruptions.                      *)
EXTENDS Ode, TLC, Json, IOUtils
CONSTANTS Times, Spans, Intervals
Pts == 1..3
VARIABLES job, s, path
vars == <<job, s, path>>
Init == /\ job \in [t0 : Times, t1 : Times, span : Spans, k : Intervals, traj : BOOLEAN]
        /\ \E y \in Pts : s = Begin(y, job.t0) /\ path = <<y>>
StepTo == \E y \in Pts : CanStep(job, s, s.t + job.span) /\ s' = Step(job, s, y) /\ path' = Append(path, y) /\ UNCHANGED job
Stop == CanEnd(job, s) /\ s' = End(s) /\ UNCHANGED <<job, path>>
Break == s.ph = "run" /\ s.t < job.t1 /\ s' = Interrupt(s) /\ UNCHANGED <<job, path>>
Next == StepTo \/ Stop \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(StepTo) /\ WF_vars(Stop)
View == <<job, s>>
\* The file holds every k-th point, in order, each once, also when interrupted.
Recorded == IF ~job.traj THEN s.out = <<>>
            ELSE /\ Len(s.out) = s.n \div job.k
                 /\ \A i \in DOMAIN s.out : s.out[i] = [t |-> job.t0 + i * job.k * job.span, y |-> path[i * job.k + 1]]
Overshoot == s.t < job.t1 + job.span \/ s.n = 0
Complete == s.ph = "over" => s.t >= job.t1
Current == s.y = path[s.n + 1]
Ends == <>(s.ph # "run")
Emit == IF "OUT" \in DOMAIN IOEnv /\ s.ph # "run"
        THEN PrintT("SCN " \o ToJson([job |-> job, path |-> path, broken |-> s.ph = "broken"])) ELSE TRUE
=============================================================================
