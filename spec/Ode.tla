---------------------------------- MODULE Ode ----------------------------------
(* ODE integration of the coverages as an automaton.  A job is                *)
(*  [t0, t1, span |-> times, k |-> output interval, traj |-> BOOLEAN].        *)
(* State: ph phase, t time and y coverages of the integrator, n steps done,   *)
(* out the points recorded in the trajectory file.                            *)
EXTENDS Integers, Sequences

Begin(y, t) == [ph |-> "run", t |-> t, y |-> y, n |-> 0, out |-> <<>>]
\* The integrator is started at the initial coverages at the start time.
CanBegin(job, y, t, init) == y = init /\ t = job.t0
CanStep(job, s, to) == s.ph = "run" /\ s.t < job.t1 /\ to = s.t + job.span
Step(job, s, y) == LET n == s.n + 1 t == s.t + job.span IN
  [s EXCEPT !.t = t, !.y = y, !.n = n, !.out = IF job.traj /\ n % job.k = 0 THEN Append(@, [t |-> t, y |-> y]) ELSE @]
CanEnd(job, s) == s.ph = "run" /\ s.t >= job.t1
End(s) == [s EXCEPT !.ph = "over"]
Interrupt(s) == [s EXCEPT !.ph = "broken"]
=============================================================================
