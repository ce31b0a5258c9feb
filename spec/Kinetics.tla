------------------------------ MODULE Kinetics ------------------------------
(* Mean-field kinetics of a network in exact integer arithmetic.             *)
(* Coverages are num/D; every rate is reported times D^ord, where ord is the *)
(* largest surface order of any state, so that all values are integers.      *)
(* env == [theta, p, c, tot : name -> integer, kf, kr : sequence of integers,*)
(*         D, ord]; theta is given for adsorbates, tot (times D) for sites.  *)
EXTENDS Chem

SiteOf(ss, net) == (CHOOSE f \in AllForms(net) : f.ss = ss).site
AdsOn(net, k) == {a \in Adsorbates(net) : SiteOf(a, net) = k}

\* Free-site coverage of kind k: total minus everything adsorbed there.
Free(net, env, k) == env.tot["*_" \o k] - SumOver(AdsOn(net, k), LAMBDA a : env.theta[a])

SpeciesOf(st) == {st[i].ss : i \in DOMAIN st}
FormIn(st, ss) == CHOOSE f \in ToSet(st) : f.ss = ss
SurfOrder(st) == LET q == SurfaceForms(st) IN SumSeq([i \in DOMAIN q |-> q[i].stoich])
Order(net) == Max({0} \cup UNION {{SurfOrder(IS(net[r])), SurfOrder(FS(net[r]))} : r \in DOMAIN net})

\* Activity of a species: coverage, free-site coverage, pressure, concentration.
Activity(net, env, f) == CASE f.type = "gas" -> env.p[f.ss]
                           [] f.type = "liquid" -> env.c[f.ss]
                           [] f.type = "site" -> Free(net, env, f.site)
                           [] f.type = "adsorbate" -> env.theta[f.ss]

RECURSIVE ProdOver(_, _)
ProdOver(S, f) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] * ProdOver(S \ {x}, f)

\* Mass action.
Powers(net, env, st) == [ss \in SpeciesOf(st) |-> Pow(Activity(net, env, FormIn(st, ss)), Coef(st, ss))]
RateOf(net, env, st, k) ==
  k * ProdOver(SpeciesOf(st), Powers(net, env, st)) * Pow(env.D, env.ord - SurfOrder(st))

Forward(net, env) == [r \in DOMAIN net |-> RateOf(net, env, IS(net[r]), env.kf[r])]
Backward(net, env) == [r \in DOMAIN net |-> RateOf(net, env, FS(net[r]), env.kr[r])]
NetRates(net, env) == LET f == Forward(net, env) b == Backward(net, env)
                      IN [r \in DOMAIN net |-> f[r] - b[r]]

\* Net production of any species.
Production(net, nr, ss) == SumSeq([r \in DOMAIN net |-> Net(net[r], ss) * nr[r]])
DTheta(net, env) == LET nr == NetRates(net, env)
                    IN  [a \in Adsorbates(net) |-> Production(net, nr, a)]

\* Partial derivative of the rate of state st with respect to coverage b
\* (again times D^ord): product rule over b itself and its free site.
DPow(net, env, st, ss) == LET n == Coef(st, ss) IN n * Pow(Activity(net, env, FormIn(st, ss)), n - 1)
Rest(net, env, st, ss) == ProdOver(SpeciesOf(st) \ {ss}, Powers(net, env, st))
DRate(net, env, st, k, b) ==
  LET star == "*_" \o SiteOf(b, net)
      viaB == IF b \in SpeciesOf(st) THEN DPow(net, env, st, b) * Rest(net, env, st, b) ELSE 0
      viaS == IF star \in SpeciesOf(st) THEN DPow(net, env, st, star) * Rest(net, env, st, star) ELSE 0
  IN  IF SurfOrder(st) = 0 THEN 0
      ELSE k * (viaB - viaS) * Pow(env.D, env.ord + 1 - SurfOrder(st))
Jac(net, env, a, b) ==
  SumSeq([r \in DOMAIN net |-> Net(net[r], a) *
            (DRate(net, env, IS(net[r]), env.kf[r], b) - DRate(net, env, FS(net[r]), env.kr[r], b))])

---------------------------------------------------------------------------
\* Degree of rate control at a steady state.  Scaling both rate constants of
\* reaction i by (1 + x) moves the coverages by the solution of J d = -b with
\* b[a] = Net(i, a) * netrate(i); Cramer's rule gives it as a quotient.
Idx(n) == 1..n
RECURSIVE Det(_, _, _)
\* Determinant by expansion along the first remaining row.
Det(M, rows, cols) ==
  IF rows = <<>> THEN 1
  ELSE LET term(k) == LET sgn == IF k % 2 = 1 THEN 1 ELSE -1
                          e == M[rows[1]][cols[k]]
                      IN  IF e = 0 THEN 0 ELSE sgn * e * Det(M, Tail(rows), [i \in 1..(Len(cols) - 1) |-> IF i < k THEN cols[i] ELSE cols[i + 1]])
       IN  SumSeq([k \in 1..Len(cols) |-> term(k)])
DetOf(M) == LET s == [i \in 1..Len(M) |-> i] IN Det(M, s, s)

Steady(net, env) == LET d == DTheta(net, env) IN \A a \in DOMAIN d : d[a] = 0

\* <<numerator, denominator>> of the degree of rate control of reaction i for
\* the turnover frequency of gas g.
RateControl(net, env, g, i) ==
  LET ads == Sorted(Adsorbates(net))
      nr == NetRates(net, env)
      n == Len(ads)
      M == [r \in 1..n |-> [c \in 1..n |-> Jac(net, env, ads[r], ads[c])]]
      b == [r \in 1..n |-> -Net(net[i], ads[r]) * nr[i]]
      det == DetOf(M)
      rep(c) == DetOf([r \in 1..n |-> [k \in 1..n |-> IF k = c THEN b[r] ELSE M[r][k]]])
      tof == Production(net, nr, g)
      dtof(c) == SumSeq([q \in DOMAIN net |-> Net(net[q], g) *
                   (DRate(net, env, IS(net[q]), env.kf[q], ads[c]) - DRate(net, env, FS(net[q]), env.kr[q], ads[c]))])
  IN  <<Net(net[i], g) * nr[i] * det + SumSeq([c \in 1..n |-> dtof(c) * rep(c)]), tof * det>>

---------------------------------------------------------------------------
\* Consequences that must hold for every network passing the gate in which
\* each adsorbate occupies one site.
SingleSite(net) == \A f \in AllForms(net) : (Surface(f) /\ ~f.isTS) => f.nsite = 1

SiteBalance(net, env) ==
  LET nr == NetRates(net, env) IN
  \A k \in SiteKinds(net) :
    SumOver(AdsOn(net, k), LAMBDA a : Production(net, nr, a)) + Production(net, nr, "*_" \o k) = 0

Molecules(net) == {f \in AllForms(net) : f.type # "site" /\ ~(Surface(f) /\ f.isTS)}
ElementBalance(net, env) ==
  LET nr == NetRates(net, env)
      names == {f.ss : f \in Molecules(net)}
      elOf(ss) == (CHOOSE f \in Molecules(net) : f.ss = ss).spElems
      els == UNION {DOMAIN f.spElems : f \in Molecules(net)}
  IN  \A e \in els : SumOver(names, LAMBDA ss : IF e \in DOMAIN elOf(ss)
                                                THEN elOf(ss)[e] * Production(net, nr, ss) ELSE 0) = 0

\* The Jacobian is the derivative: exact five-point formula for polynomials of
\* degree at most four.
Shift(env, b, h) == [env EXCEPT !.theta[b] = @ + h]
JacIsDerivative(net, env) ==
  \A a, b \in Adsorbates(net) :
    LET F(h) == DTheta(net, Shift(env, b, h))[a]
    IN  12 * Jac(net, env, a, b) = env.D * (F(-2) - 8 * F(-1) + 8 * F(1) - F(2))
=============================================================================
