---------------------------- MODULE TraceCoverages ---------------------------
(* C13: recorded constrained guesses and Boltzmann coverages.                *)
EXTENDS Coverages, TraceBase

VARIABLES l, net
vars == <<l, net>>

FunOf(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]]
Order == Sorted(Adsorbates(net))

ConstrainFails(e) ==
  IF e.exc # "" THEN {"raised"} ELSE IF Len(e.out) # Len(Order) THEN {"shape"} ELSE
  LET tot == FunOf(e.tot) x == FunOf(e.x) c == Constrain(net, tot, e.D, x) IN Failing({
    <<"constrained", \A i \in DOMAIN Order : Abs(e.out[i] - Mega(c[Order[i]][1], c[Order[i]][2])) <= 2>>,
    <<"negative", \A i \in DOMAIN Order : e.out[i] >= 0>>,
    \* beyond the resolution of the expected values: 10^-15.
    <<"below-zero", e.least >= 0>>, <<"above-total-or-one", e.over <= 2>>,
    <<"physical-kept", ~e.nudge /\ Physical(net, tot, e.D, x) => e.same>>})

BoltzFails(e) ==
  IF e.exc # "" THEN {"raised"} ELSE IF Len(e.out) # Len(Order) THEN {"shape"} ELSE
  LET E_ == FunOf(e.E) S == Adsorbates(net) \cup (IF e.empty THEN SiteNames(net) ELSE {}) IN
  Failing({<<"boltzmann", \A i \in DOMAIN Order : Abs(e.out[i] - LnBoltz(S, E_, Order[i])) <= 30>>})

Fails(e) == CASE e.ev = "new" -> IF e.exc = "" THEN {} ELSE {"raised"}
              [] e.ev = "constrain" -> ConstrainFails(e)
              [] e.ev = "boltz" -> BoltzFails(e)
              [] OTHER -> {e.ev}
Init == l = 1 /\ net = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ net' = IF e.ev = "new" THEN [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])] ELSE net
           /\ Report(l, e, Fails(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
