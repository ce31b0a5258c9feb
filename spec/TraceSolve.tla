------------------------------ MODULE TraceSolve ------------------------------
(* C14, C15: recorded solves must be behaviours of Solve.                    *)
EXTENDS Solve, TraceBase

VARIABLES l, c, ss, best
vars == <<l, c, ss, best>>

FunOf(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
ConfOf(e) == LET net == [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])] IN
  [net |-> net, fast |-> Compact(net), env |-> [p |-> FunOf(e.p), c |-> FunOf(e.c), tot |-> FunOf(e.tot), kf |-> e.kf, kr |-> e.kr, D |-> e.D, ord |-> Order(net)],
   tol |-> e.tol, tolm |-> (500 * e.tol) \div Pow(e.D, Order(net)) + 1, ints |-> e.ints, hooks |-> e.hooks, max |-> e.max, single |-> FALSE, hyb |-> e.hyb, arch |-> ToSet(e.archived)]
NoConf == [net |-> <<>>]

Full(e) == IF e.ev = "yield"
  THEN [ev |-> e.ev, x |-> e.x, err |-> e.err, small |-> e.small, low |-> CASE e.lie = "lo" -> TRUE [] e.lie = "hi" -> FALSE [] OTHER -> NormLow(c, e.x)]
  ELSE e
After(e) == UNION {Nexts(c, s, e) : s \in ss}

\* Real root finders: the result is judged by its residual and its signs.
SolvedFails(e) == IF e.exc # "" THEN {"raised"} ELSE IF ~e.found THEN {"not-found"} ELSE Failing({
   <<"residual", e.resid <= e.tol>>, <<"negative", \A i \in DOMAIN e.out : e.out[i] >= 0>>,
   <<"free-sites", \A i \in DOMAIN e.free : e.free[i] >= 0>>,
   <<"stored", e.cov = e.out>>, <<"archived", e.arch = e.out>>, <<"error", e.err <= e.tol>>,
   <<"steps", \A i \in DOMAIN e.pulls : e.pulls[i] <= e.max + 1>>})

Free_ == ss # {} /\ \A s \in ss : s.ph = "over"
\* A return or an exception is not told apart from one that comes too early.
Names(e) == {s.ph \o "-" \o e.ev : s \in ss}

Init == l = 1 /\ c = NoConf /\ ss = {} /\ best = <<>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "new" -> /\ Report(l, e, IF e.exc = "" THEN {} ELSE {"raised"})
                          /\ c' = ConfOf(e) /\ ss' = {} /\ best' = <<>>
       [] e.ev = "solve" -> /\ Report(l, e, {})
                            /\ c' = [c EXCEPT !.single = e.single]
                            /\ ss' = {Start(c', IF e.start = <<>> THEN <<>> ELSE e.start[1], best)} /\ UNCHANGED best
       [] e.ev = "solved" -> Report(l, e, SolvedFails(e)) /\ UNCHANGED <<c, ss, best>>
       [] e.ev = "declare" -> /\ Report(l, e, Failing({<<"interval-accepted", e.exc = "" => Interval(e.iv)>>,
                                 <<"interval-refused", Interval(e.iv) => e.exc = "">>, <<"interval-error", e.exc \in {"", "TypeError"}>>}))
                              /\ UNCHANGED <<c, ss, best>>
       [] e.ev \in {"crash", "stuck", "foreign"} -> Report(l, e, {e.ev}) /\ UNCHANGED <<c, ss, best>>
       [] OTHER -> LET nx == After(Full(e)) IN
            /\ Report(l, e, IF nx = {} /\ ss # {} THEN Names(e) ELSE {})
            /\ ss' = nx /\ UNCHANGED c
            /\ best' = IF e.ev = "ret" THEN e.arch ELSE best
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
