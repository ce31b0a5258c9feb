----------------------------- MODULE Coverages ------------------------------
(* Physical coverages: constraining a guess to what the sites can hold, and  *)
(* Boltzmann coverages.  Coverages and site totals are multiples of 1/D.     *)
EXTENDS Chem, FixedPoint

KindOf(net, a) == (CHOOSE f \in AllForms(net) : f.ss = a).site
OnKind(net, k) == {a \in Adsorbates(net) : KindOf(net, a) = k}

Clip(x, hi) == MaxOf(0, MinOf(x, hi))
\* 10^6 * n / d for 0 <= n <= 20000.
Mega(n, d) == ((n * 100000) \div d) * 10 + (((n * 100000) % d) * 10) \div d

Clipped(net, tot, D, x) == [a \in Adsorbates(net) |-> Clip(x[a], MinOf(D, tot["*_" \o KindOf(net, a)]))]
\* Sum over a site kind, and the constrained coverage as <<numerator, denominator>>.
KindSum(net, y, k) == SumOver(OnKind(net, k), LAMBDA a : y[a])
Constrain(net, tot, D, x) ==
  LET y == Clipped(net, tot, D, x) IN
  [a \in Adsorbates(net) |->
     LET k == KindOf(net, a) s == KindSum(net, y, k) t == tot["*_" \o k]
     IN  IF s > t THEN <<y[a] * t, s * D>> ELSE <<y[a], D>>]
Physical(net, tot, D, x) == /\ \A a \in Adsorbates(net) : x[a] >= 0 /\ x[a] <= D
                            /\ \A k \in {KindOf(net, a) : a \in Adsorbates(net)} : KindSum(net, x, k) <= tot["*_" \o k]

\* Boltzmann coverages: energies E in kT/100; logarithms in 10^-4.
Lowest(S, E) == Min({E[s] : s \in S})
BoltzSum(S, E) == SumOver(S, LAMBDA s : ExpNeg(100 * (E[s] - Lowest(S, E))))
LnBoltz(S, E, a) == -100 * (E[a] - Lowest(S, E)) - (Ln(BoltzSum(S, E)) - Ln(One))
=============================================================================
