-------------------------------- MODULE TraceRun --------------------------------
(* C25: runs of real models.  A run event has the run, the file before and    *)
(* after, the calls that reached the hybrid method, the ODE integration, the  *)
(* coarse solver and the root finder, and what the model reports afterwards.  *)
EXTENDS Run, Solve, TraceBase
VARIABLES l, mine
vars == <<l, mine>>

AsFun(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
Net_(e) == [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])]
Cfg(e) == [net |-> Net_(e), fast |-> Compact(Net_(e)), tol |-> e.tol,
           env |-> [p |-> AsFun(e.p), c |-> AsFun(e.c), tot |-> AsFun(e.tot), kf |-> e.kf, kr |-> e.kr, D |-> e.D, ord |-> e.ord]]
File(e) == IF e.exists THEN <<AsFun(e.file0)>> ELSE <<>>

\* Walks through the calls: [ok, sol, good (guess taken as it is), used].
Bad == [ok |-> FALSE, sol |-> <<>>, good |-> FALSE, used |-> 0, c0 |-> <<>>]
Walk(e, c, src) ==
  LET asks == src \in {"hybrid", "ode"}
      calls == e.calls
      i == IF asks THEN 2 ELSE 1
      coarse == e.run.fs \/ Improves(e.run, src)
      j == IF coarse THEN i + 1 ELSE i
  IN IF asks /\ (calls = <<>> \/ calls[1].k \notin {"hybrid", "ode", "any"} \/ (src = "hybrid" /\ calls[1].k = "ode")) THEN Bad
     ELSE LET g == IF asks THEN calls[1].out ELSE IF src = "user" THEN e.run.init[1] ELSE File(e)[1][Cov] IN
     IF coarse /\ (Len(calls) < i \/ calls[MinOf(i, Len(calls))].k # "fsolve") THEN Bad
     ELSE IF coarse /\ (calls[i].x # g \/ calls[i].fx # Slope(c, g)) THEN Bad
     ELSE LET h == IF coarse THEN calls[i].out ELSE g IN
     IF e.run.fs THEN [ok |-> TRUE, sol |-> h, good |-> FALSE, used |-> i, c0 |-> <<>>]
     ELSE LET h1 == Guess(c, h) IN
     IF Low(c, h1) THEN [ok |-> TRUE, sol |-> h1, good |-> TRUE, used |-> j - 1, c0 |-> h1]
     ELSE IF Len(calls) < j \/ calls[MinOf(j, Len(calls))].k # "newton" THEN Bad
     ELSE [ok |-> calls[j].x = h1, sol |-> calls[j].out, good |-> FALSE, used |-> j, c0 |-> h1]

ErrOk(e, c, w) == LET r == Resid(c, w.sol) IN
  IF e.run.fs \/ w.good THEN e.err = r
  ELSE e.err >= r - 1 /\ (e.err <= 1 \/ (e.err - 1) * (e.err - 1) <= Norm2(c, w.sol))
RevOk(rev, f, b) == Len(rev) = Len(f) /\ \A i \in DOMAIN rev : Abs(rev[i] * f[i] - 10000 * b[i]) <= f[i]

\* Whatever this run writes has the value of this run.
Fresh(name, v, e, c, w, env, f, b, nr) ==
  CASE name = Cov -> v = w.sol
    [] name = "initial_guess" -> v = w.c0
    [] name = "steady_state_error" -> v = e.err
    [] name = "rates" -> v = <<f, b>>
    [] name = "net_rates" -> v = nr
    [] name = "tofs" -> v = e.tofs
    [] name = "reversibilities" -> v = e.rev
    [] OTHER -> FALSE
RunFails(e) ==
  LET c == Cfg(e) n == Len(Ads(c)) src == Source(e.run, File(e), n) IN
  IF src = "refused" THEN Failing({<<"guess-refused", e.exc = "ParameterError">>, <<"refusal-without-effect", e.same /\ e.calls = <<>>>>})
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE LET w == Walk(e, c, src) IN
  IF ~w.ok THEN {"guess-or-stage"}
  ELSE LET env == EnvAt(c, w.sol) f == Forward(c.net, env) b == Backward(c.net, env) nr == NetRates(c.net, env) cols == FluidCols(c.net)
           after == AsFun(e.file1) wr == Written(e.run) \cap ToSet(e.names) IN
  Failing({<<"no-other-call", e.run.xrc \/ Len(e.calls) = w.used>>,
           <<"asked-first", \A i \in DOMAIN e.calls : e.calls[i].ok>>,
           <<"coverages", e.cov = w.sol>>,
           <<"error", ErrOk(e, c, w)>>,
           <<"turnover", e.tofs = [i \in DOMAIN cols |-> Production(c.net, nr, cols[i])]>>,
           <<"reversibilities", RevOk(e.rev, f, b)>>,
           <<"info", e.info>>,
           <<"archived", wr \subseteq DOMAIN after /\ \A x \in wr \cap DOMAIN after : Fresh(x, after[x], e, c, w, env, f, b, nr)>>,
           <<"archive-kept", \A x \in mine \ wr : x \in DOMAIN after /\ \A i \in DOMAIN e.file0 : e.file0[i][1] = x => e.file0[i][2] = after[x]>>,
           <<"nothing-else-archived", wr = {} => e.untouched>>})
Fails(e) == CASE e.ev = "run" -> RunFails(e) [] e.ev = "fresh" -> (IF e.exc = "" THEN {} ELSE {"raised"}) [] OTHER -> {e.ev}
Init == l = 1 /\ mine = {}
Next == /\ l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
        /\ LET e == Trace[l] IN mine' = IF e.ev = "run" /\ e.exc = "" /\ ~e.run.bad
                                        THEN (Written(e.run) \cap ToSet(e.names)) \cup mine ELSE IF e.ev = "fresh" THEN {} ELSE mine
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
