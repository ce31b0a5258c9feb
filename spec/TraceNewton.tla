------------------------------ MODULE TraceNewton ------------------------------
(* C31: recorded root-finding iterations.  damped is a whole damped iteration *)
(* (points, squared norms and values it yielded, and how it ended), lined a   *)
(* constrained one, deep one damped step (its number of halvings), lacking    *)
(* the construction without a parameter.                                      *)
EXTENDS Newton, TraceBase
VARIABLES l
Million == 1000000
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol

\* From point x on, yields from the i-th on.
RECURSIVE Walk(_, _, _)
Walk(e, x, i) ==
  LET more == i <= Len(e.xs) r == Move(e.p, x) IN
  CASE r.kind = "unknown" -> {}
    [] r.kind = "singular" -> IF more THEN {"step-with-singular-jacobian"}
                              ELSE Failing({<<"singular-reported", i > e.n \/ e.end = "ZeroDivisionError">>})
    [] r.kind = "stationary" ->
         IF ~more THEN Failing({<<"stationary-yields", i > e.n>>})
         ELSE Failing({<<"stationary-point", e.xs[i] = x>>, <<"norm", e.norms[i] = Norm2(Value(e.p, x))>>,
                       <<"stops-at-stationary-point", Len(e.xs) = i /\ (i = e.n \/ e.end = "stop")>>})
    [] r.kind = "moved" ->
         IF ~more THEN Failing({<<"goes-on", i > e.n>>})
         ELSE LET f == Failing({<<"damped-step", e.xs[i] = r.x>>, <<"norm", e.norms[i] = Norm2(Value(e.p, r.x))>>, <<"value", e.fs[i] = Value(e.p, r.x)>>}) IN
              IF f # {} THEN f ELSE Walk(e, r.x, i + 1)

\* Points in millionths; ended because the clipped point does not move any more.
Scale(v) == [i \in DOMAIN v |-> v[i] * Million]
\* The iteration may end only where it does not move any more.
Still(e, k) == k >= 1 /\ e.xs[k] = (IF k = 1 THEN Scale(e.x0) ELSE e.xs[k - 1])
LinedFails(e) ==
  IF Det(e.q.jac) = 0 THEN Failing({<<"singular-reported", e.end = "ZeroDivisionError" /\ e.xs = <<>>>>})
  ELSE Failing({<<"goes-on", (e.end = "more" /\ Len(e.xs) = e.n) \/ (e.end = "stop" /\ Still(e, Len(e.xs)))>>,
                <<"point", \A k \in DOMAIN e.xs : Near(e.xs[k], Scale(ConstrainedPoint(e.q, k)), 50)>>,
                <<"value", \A k \in DOMAIN e.fs : Near(e.fs[k], Scale(Affine(e.q, ConstrainedPoint(e.q, k))), 500)>>,
                <<"norm", \A k \in DOMAIN e.norms : e.norms[k] = Norm2(Affine(e.q, ConstrainedPoint(e.q, k)))>>})

DeepFails(e) ==
  LET k == DeepStep(e.top, e.t) IN
  Failing({<<"first-better-step", e.k = k>>, <<"norm", e.norm = IF k < 0 THEN e.top ELSE e.t[k + 1]>>,
           <<"stops-only-when-stationary", k < 0 <=> e.end = "stop">>})

Fails(e) == CASE e.ev = "damped" -> Walk(e, e.x0, 1)
              [] e.ev = "lined" -> LinedFails(e)
              [] e.ev = "deep" -> DeepFails(e)
              [] e.ev = "lacking" -> Failing({<<"parameter-required", e.exc = "ParameterError">>})
              [] OTHER -> {e.ev}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
