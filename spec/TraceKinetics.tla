---------------------------- MODULE TraceKinetics ---------------------------
(* C09-C12, C26: values computed by the solver against exact mass action.    *)
EXTENDS Kinetics, TraceBase

VARIABLES l, nets
vars == <<l, nets>>

Big == 1073741831   \* recorded for a value that is not the expected kind of integer
Net_(e) == [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])]
AsFun(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> (CHOOSE i \in DOMAIN ps : ps[i][1] = k)]
FunOf(ps) == LET ix == AsFun(ps) IN [k \in DOMAIN ix |-> ps[ix[k]][2]]
Env(e) == [theta |-> FunOf(e.theta), p |-> FunOf(e.p), c |-> FunOf(e.c), tot |-> FunOf(e.tot),
           kf |-> e.kf, kr |-> e.kr, D |-> e.D, ord |-> e.ord]

RatesFails(e) ==
  LET net == Net_(e) env == Env(e) fw == Forward(net, env) bw == Backward(net, env) IN
  IF e.exc # "" THEN {"raised"} ELSE Failing({
    <<"forward-rates", e.rf = fw>>,
    <<"reverse-rates", e.rr = bw>>,
    <<"net-rates", e.net = [r \in DOMAIN net |-> fw[r] - bw[r]]>>,
    <<"free-sites", \A i \in DOMAIN e.free : e.free[i][2] = Free(net, env, e.free[i][1])>>})

RevFails(e) ==
  IF e.exc # "" THEN IF Len(e.a) # Len(e.b) /\ e.exc = "ValueError" THEN {} ELSE {"raised"}
  ELSE Failing({
    <<"length", Len(e.a) = Len(e.b) /\ Len(e.rev) = Len(e.a)>>,
    <<"reversibilities", \A i \in DOMAIN e.rev : Abs(e.rev[i] * e.a[i] - 10000 * e.b[i]) <= e.a[i]>>})

DThetaFails(e) ==
  LET net == Net_(e) env == Env(e) d == DTheta(net, env)
      ads == Sorted(Adsorbates(net)) nr == NetRates(net, env)
      sumOn(k) == SumSeq([i \in DOMAIN ads |-> IF SiteOf(ads[i], net) = k THEN e.dtheta[i] ELSE 0])
      nsOf(a) == (CHOOSE f \in AllForms(net) : f.ss = a).nsite
      occOn(k) == SumSeq([i \in DOMAIN ads |-> IF SiteOf(ads[i], net) = k THEN nsOf(ads[i]) * e.dtheta[i] ELSE 0])
  IN
  IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.dtheta) # Len(ads) THEN {"length"}
  ELSE IF \E i \in DOMAIN e.dtheta : e.dtheta[i] = Big THEN {"net-production"} ELSE Failing({
    <<"net-production", \A i \in DOMAIN ads : e.dtheta[i] = d[ads[i]]>>,
    <<"same-again", e.again>>,
    <<"site-balance", e.single => \A k \in SiteKinds(net) : sumOn(k) = occOn(k) /\ occOn(k) + Production(net, nr, "*_" \o k) = 0>>})

JacFails(e) ==
  LET net == Net_(e) env == Env(e) ads == Sorted(Adsorbates(net)) IN
  IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.jac) # Len(ads) \/ \E i \in DOMAIN e.jac : Len(e.jac[i]) # Len(ads) THEN {"shape"}
  ELSE Failing({
    <<"diagonal", \A i \in DOMAIN ads : e.jac[i][i] = Jac(net, env, ads[i], ads[i])>>,
    <<"off-diagonal", \A i, j \in DOMAIN ads : i # j => e.jac[i][j] = Jac(net, env, ads[i], ads[j])>>,
    <<"differences", \A k \in DOMAIN e.num : e.num[k] = [i \in DOMAIN ads |-> [j \in DOMAIN ads |-> Jac(net, env, ads[i], ads[j])]]>>})

TofFails(e) ==
  LET net == Net_(e) env == Env(e) nr == NetRates(net, env) cols == FluidCols(net) IN
  IF e.exc # "" THEN {"raised"} ELSE Failing({
    <<"tof", e.tof = [i \in DOMAIN cols |-> Production(net, nr, cols[i])]>>,
    <<"tof-of-gas", \A i \in DOMAIN e.single : e.single[i][2] = Production(net, nr, e.single[i][1])>>})

\* A small perturbation is not the derivative: allow an error of 1 %, absolute
\* error of half a percent.
Shrink(q) == LET k == Abs(q[2]) \div 100000 + 1 IN <<q[1] \div k, q[2] \div k>>
Close(x1000, q0) == LET q == Shrink(q0) d == Abs(q[2]) n == IF q[2] < 0 THEN -q[1] ELSE q[1]
                    IN  Abs(x1000 * d - 1000 * n) <= 5 * d + 2000
XrcFails(e) ==
  LET net == Net_(e) env == Env(e) IN
  IF ~Steady(net, env) \/ Production(net, NetRates(net, env), e.gas) = 0 THEN {"scenario-not-steady"}
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.x) # Len(net) THEN {"length"} ELSE Failing({
    <<"good-guess-returned", e.steady = [i \in DOMAIN Sorted(Adsorbates(net)) |-> env.theta[Sorted(Adsorbates(net))[i]]]>>,
    <<"rate-control", \A i \in DOMAIN net : Close(e.x[i], RateControl(net, env, e.gas, i))>>,
    <<"restored", e.changed = <<>>>>})

\* Pairs <<numerical, symbolic>> of scaled values.
Same(q) == q[1] = q[2]
SymFails(e) == Failing({
    <<"sym-rate-constants", Same(e.k)>>, <<"sym-rates", Same(e.r)>>, <<"sym-net-rates", Same(e.n)>>,
    <<"sym-tof", Same(e.t)>>, <<"sym-dtheta", Same(e.d)>>, <<"sym-jacobian", Same(e.j)>>,
    <<"sym-equilibrium", Len(e.K) = Len(e.rxns) /\ \A i \in DOMAIN e.K : Same(e.K[i])>>})

Fails(e) == CASE e.ev = "rates" -> RatesFails(e)
              [] e.ev = "rev" -> RevFails(e)
              [] e.ev = "dtheta" -> DThetaFails(e)
              [] e.ev = "jac" -> JacFails(e)
              [] e.ev = "tof" -> TofFails(e)
              [] e.ev = "xrc" -> XrcFails(e)
              [] e.ev = "sym" -> SymFails(e)
              [] OTHER -> {e.ev}

Init == l = 1 /\ nets = 0
Next == /\ l <= Len(Trace)
        /\ Report(l, Trace[l], Fails(Trace[l]))
        /\ l' = l + 1
        /\ nets' = nets + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
