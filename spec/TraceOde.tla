-------------------------------- MODULE TraceOde --------------------------------
(* C28: recorded integrations.  job starts one, start is what the integrator  *)
(* got, eval an evaluation of the right-hand side, step a step asked for and  *)
(* the point it was answered with, broke an exception out of the integrator,  *)
(* ret the result and the trajectory file read back.  decay is an integration *)
(* of independent Langmuir adsorptions by the real integrator, hybrid one by  *)
(* the hybrid method of a new model.                                          *)
EXTENDS Ode, Solve, FixedPoint, TraceBase
VARIABLES l, job, s
vars == <<l, job, s>>

AsFun(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
Net_(e) == [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])]
Cfg(e) == [net |-> Net_(e), fast |-> Compact(Net_(e)),
           env |-> [p |-> AsFun(e.p), c |-> AsFun(e.c), tot |-> AsFun(e.tot), kf |-> e.kf, kr |-> e.kr, D |-> e.D, ord |-> e.ord]]
None == [ph |-> "none", t |-> 0, y |-> <<>>, n |-> 0, out |-> <<>>]
NoJob == [t0 |-> 0]
File(e) == [i \in DOMAIN e.times |-> [t |-> e.times[i], y |-> e.cvgs[i]]]

\* Adsorption at frequency a and desorption at b from the initial coverage x0
\* (over 8) for the time t (over 8): exact solution in 1/10000.
Langmuir(a, b, x0, t) ==
  LET w == a + b
      eq == (10000 * a) \div w
      d == 1250 * x0 - eq
      ex == ExpNeg(1250 * w * t)
  IN  eq + (d * ex) \div 32768
DecayFails(e) == IF e.exc # "" THEN {"raised"} ELSE
  Failing({<<"end-time", e.t = e.steps * e.span>>,
           <<"solution", Len(e.y) = Len(e.x0) /\ \A i \in DOMAIN e.y : Abs(e.y[i] - Langmuir(e.a[i], e.b[i], e.x0[i], e.steps * e.span)) <= 12>>,
           <<"trajectory", /\ Len(e.cvgs) = e.steps /\ Len(e.times) = e.steps
                           /\ \A j \in DOMAIN e.cvgs : /\ e.times[j] = j * e.span /\ Len(e.cvgs[j]) = Len(e.x0)
                                                       /\ \A i \in DOMAIN e.x0 : Abs(e.cvgs[j][i] - Langmuir(e.a[i], e.b[i], e.x0[i], j * e.span)) <= 12>>})

\* The hybrid method of a new model: from the coverages of its solver (zero
\* before any solution) ten seconds on, here with frequencies over 64.
HybridFails(e) == IF e.exc # "" THEN {"raised"} ELSE
  Failing({<<"solution", Len(e.y) = Len(e.x0) /\ \A i \in DOMAIN e.y :
                LET w == e.a[i] + e.b[i]
                    eq == (10000 * e.a[i]) \div w
                    d == 1250 * e.x0[i] - eq
                IN  Abs(e.y[i] - (eq + (d * ExpNeg((100000 * w) \div 64)) \div 32768)) <= 12>>,
           <<"trajectory-file", ~e.file>>})

Fails(e) ==
  CASE e.ev = "job" -> {}
    [] e.ev = "start" -> Failing({<<"initial-coverages", e.y = job.init>>, <<"start-time", e.t = job.t0>>, <<"once", s.ph = "none">>})
    [] e.ev = "eval" -> LET c == Cfg(job) IN Failing({<<"slope", e.fx = Slope(c, e.x)>>})
    [] e.ev = "step" -> IF s.ph # "run" THEN {"step-after-end"}
                        ELSE Failing({<<"step-past-end", s.t < job.t1>>, <<"step-length", e.to = s.t + job.span>>})
    [] e.ev = "broke" -> {}
    [] e.ev = "ret" ->
         Failing({<<"integrated-to-end", s.ph = "broken" \/ (s.ph = "run" /\ CanEnd(job, s))>>,
                  <<"raised", IF s.ph = "broken" THEN e.exc = job.boom ELSE e.exc = "">>,
                  <<"last-time", s.ph # "run" \/ e.t = s.t>>,
                  <<"last-coverages", s.ph # "run" \/ e.y = s.y>>,
                  <<"trajectory-file", s.ph = "none" \/ (IF job.traj THEN e.exists /\ File(e) = s.out ELSE ~e.exists)>>})
    [] e.ev = "decay" -> DecayFails(e)
    [] e.ev = "hybrid" -> HybridFails(e)
    [] OTHER -> {e.ev}
Init == l = 1 /\ job = NoJob /\ s = None
Next == /\ l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ job' = IF e.ev = "job" THEN e ELSE job
           /\ s' = CASE e.ev = "job" -> None
                     [] e.ev = "start" -> Begin(e.y, e.t)
                     [] e.ev = "step" /\ s.ph = "run" -> Step([job EXCEPT !.span = e.to - s.t], s, e.y)
                     [] e.ev = "broke" -> Interrupt(s)
                     [] OTHER -> s
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
