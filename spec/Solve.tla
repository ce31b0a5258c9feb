-------------------------------- MODULE Solve --------------------------------
(* One steady state solve as an automaton: guesses, root finder iterates,    *)
(* analyses, hybrid restarts and the returned solution.                      *)
(* A configuration c has the network, its kinetics (Kinetics!env without     *)
(* theta), the tolerance in half units of 1/D^ord (odd, so that no residual  *)
(* equals it), the intervals of the registered analyses, the largest number  *)
(* of iterations, single (no check of the guess), hyb (a hybrid method is    *)
(* registered) and arch (the archived variables).                            *)
(* A point is a sequence of numerators over D in the order of the adsorbates.*)
EXTENDS Kinetics, Coverages

\* A configuration carries its network in a compact form (c.fast): the sorted
\* adsorbates, the positions of those on every kind of site, and for every
\* reaction its sides as <<coefficient, kind, name>> and its net changes.
Compact(net) ==
  LET ads == Sorted(Adsorbates(net))
      Side(q) == [i \in DOMAIN q |-> <<q[i].stoich, q[i].type, IF q[i].type = "site" THEN q[i].site ELSE
                    IF q[i].type = "adsorbate" THEN ToString(CHOOSE j \in DOMAIN ads : ads[j] = q[i].ss) ELSE q[i].ss>>]
  IN [ads |-> ads,
      on |-> [k \in SiteKinds(net) |-> {i \in DOMAIN ads : SiteOf(ads[i], net) = k}],
      rx |-> [r \in DOMAIN net |-> [is |-> Side(IS(net[r])), fs |-> Side(FS(net[r])), iso |-> SurfOrder(IS(net[r])), fso |-> SurfOrder(FS(net[r])),
                                    chg |-> [i \in DOMAIN ads |-> Net(net[r], ads[i])]]],
      pos |-> [i \in {ToString(j) : j \in DOMAIN ads} |-> CHOOSE j \in DOMAIN ads : ToString(j) = i]]
Ads(c) == c.fast.ads
Theta(c, x) == [a \in ToSet(Ads(c)) |-> x[CHOOSE i \in DOMAIN x : Ads(c)[i] = a]]
FreeAt(c, x, k) == c.env.tot["*_" \o k] - SumOver(c.fast.on[k], LAMBDA i : x[i])
ActAt(c, x, t) == CASE t[2] = "gas" -> c.env.p[t[3]] [] t[2] = "liquid" -> c.env.c[t[3]]
                    [] t[2] = "site" -> FreeAt(c, x, t[3]) [] OTHER -> x[c.fast.pos[t[3]]]
RateAt(c, x, q, k, so) == k * ProdSeq([i \in DOMAIN q |-> Pow(ActAt(c, x, q[i]), q[i][1])]) * Pow(c.env.D, c.env.ord - so)
Slope(c, x) ==
  LET nr == [r \in DOMAIN c.fast.rx |-> LET w == c.fast.rx[r] IN RateAt(c, x, w.is, c.env.kf[r], w.iso) - RateAt(c, x, w.fs, c.env.kr[r], w.fso)]
  IN [i \in DOMAIN x |-> SumSeq([r \in DOMAIN nr |-> c.fast.rx[r].chg[i] * nr[r]])]
\* The compact form says what Kinetics says.
EnvAt(c, x) == [theta |-> Theta(c, x), p |-> c.env.p, c |-> c.env.c, tot |-> c.env.tot,
                kf |-> c.env.kf, kr |-> c.env.kr, D |-> c.env.D, ord |-> c.env.ord]
SlopeIsKinetics(c, x) == LET d == DTheta(c.net, EnvAt(c, x)) IN \A i \in DOMAIN x : Slope(c, x)[i] = d[Ads(c)[i]]
Resid(c, x) == LET v == Slope(c, x) IN Max({Abs(v[a]) : a \in DOMAIN v})
Norm2(c, x) == LET v == Slope(c, x) IN SumOver(DOMAIN v, LAMBDA a : v[a] * v[a])
Low(c, x) == 2 * Resid(c, x) < c.tol
NormLow(c, x) == Low(c, x) /\ 4 * Norm2(c, x) < c.tol * c.tol
PhysicalAt(c, x) == /\ \A i \in DOMAIN x : x[i] >= 0
                    /\ \A k \in DOMAIN c.fast.on : FreeAt(c, x, k) >= 0
\* Coverages that differ from x by less than any residual shows, some of
\* them a little above (small 1) or below (-1).
PhysicalNear(c, x, small) ==
  /\ \A i \in DOMAIN x : x[i] > 0 \/ (x[i] = 0 /\ small[i] >= 0)
  /\ \A k \in DOMAIN c.fast.on : LET f == FreeAt(c, x, k) IN f > 0 \/ (f = 0 /\ SumOver(c.fast.on[k], LAMBDA i : small[i]) <= 0)
\* The guess made of raw coverages (on the grid by choice of the inputs).
Guess(c, raw) == LET q == Constrain(c.net, c.env.tot, c.env.D, Theta(c, raw)) IN
  [i \in DOMAIN raw |-> (q[Ads(c)[i]][1] * c.env.D) \div q[Ads(c)[i]][2]]
OnGrid(c, raw) == LET q == Constrain(c.net, c.env.tot, c.env.D, Theta(c, raw)) IN
  \A a \in DOMAIN q : (q[a][1] * c.env.D) % q[a][2] = 0
\* Residual in 1/1000.
Milli(c, x) == (1000 * Resid(c, x)) \div Pow(c.env.D, c.env.ord)

\* The analyses that define a hook, themselves or by the analysis they derive
\* from; c.hooks has the names of the hooks for every registered analysis.
With(c, h) == SelectSeq([i \in DOMAIN c.ints |-> i], LAMBDA i : h \in ToSet(c.hooks[i]))
Due(c, k) == SelectSeq(With(c, "register"), LAMBDA i : k % c.ints[i] = 0)

\* State: ph phase, n outer counter, k iterates of this attempt, x current
\* guess or iterate, low whether the yielded error is below the tolerance,
\* err that error, todo analyses to be called, hyb whether the hybrid method
\* was asked for the next guess nx, best the archived solution, g the guess
\* of the attempt that is under way, small what the iterate differs by from x.
Settle(s) == CASE s.ph = "setup" /\ s.todo = <<>> -> [s EXCEPT !.ph = "iter"]
               [] s.ph = "reg" /\ s.todo = <<>> -> [s EXCEPT !.ph = "iter"]
               [] s.ph = "fail" /\ s.todo = <<>> /\ s.hyb -> [s EXCEPT !.ph = "guess", !.n = @ + 1, !.x = s.nx, !.hyb = FALSE]
               [] OTHER -> s
Start(c, start, arch) == [ph |-> IF start = <<>> THEN "begin" ELSE "guess", n |-> 1, k |-> 0,
  x |-> IF start = <<>> THEN <<>> ELSE Guess(c, start), low |-> FALSE, err |-> 0, todo |-> <<>>, hyb |-> FALSE, nx |-> <<>>, best |-> arch, g |-> <<>>, small |-> <<>>]

Pop(s) == Settle([s EXCEPT !.todo = Tail(@)])
Fail(c, s) == Settle([s EXCEPT !.ph = "fail", !.todo = With(c, "finalize")])
Boom(c, s, todo) == [s EXCEPT !.ph = "boom", !.todo = todo]

\* What an iterate leads to.  Accepting an iterate whose residual is within
\* the tolerance although the yielded norm is not is as good as going on.
Iterate(c, s, e) ==
  LET k == s.k + 1
      t == [s EXCEPT !.k = k, !.x = e.x, !.err = e.err, !.low = e.low, !.small = e.small]
      go == Settle([t EXCEPT !.ph = "reg", !.todo = Due(c, k)])
      acc == [t EXCEPT !.ph = "accept", !.todo = With(c, "finalize")]
  IN  IF k > c.max THEN {Fail(c, t)}
      ELSE IF ~Low(c, e.x) THEN {go}
      ELSE IF e.low THEN {IF PhysicalNear(c, e.x, e.small) THEN acc ELSE Fail(c, t)}
      ELSE IF PhysicalNear(c, e.x, e.small) THEN {go, acc} ELSE {go, Fail(c, t)}

CanAsk(c, s) == c.hyb /\ s.ph = "fail" /\ ~s.hyb
ErrOf(c, s, m) == Abs(m - s.err) <= 1 \/ Abs(m - Milli(c, s.x)) <= 1
\* A guess that is good enough is returned without any iteration; its error
\* is its residual or a norm of it.
Good(c, s) == Low(c, s.x) /\ ~c.single
Returned(c, s, e, g) == /\ e.res = s.x /\ e.cov = s.x
                     /\ ("initial_guess" \in c.arch => e.init = g)
                     /\ ("steady_state_coverages" \in c.arch => e.arch = s.x)
                     /\ ("steady_state_error" \in c.arch => e.archerr = e.err)
                     /\ ("steady_state_coverages" \notin c.arch => e.arch = s.best)

Nexts(c, s, e) ==
  CASE e.ev = "hybrid" ->
        IF e.ok /\ s.ph = "begin" /\ e.n = 0 THEN IF e.raised THEN {Boom(c, s, <<>>)} ELSE {[s EXCEPT !.ph = "guess", !.x = Guess(c, e.out)]}
        ELSE IF e.ok /\ CanAsk(c, s) /\ e.n = s.n
             THEN IF e.raised THEN {Boom(c, s, s.todo)} ELSE {Settle([s EXCEPT !.hyb = TRUE, !.nx = Guess(c, e.out)])}
        ELSE {}
    [] e.ev = "construct" -> IF s.ph = "guess" /\ ~Good(c, s) /\ e.x = s.x
                             THEN {Settle([s EXCEPT !.ph = "setup", !.todo = With(c, "setup"), !.k = 0, !.g = s.x])} ELSE {}
    [] e.ev = "setup" -> IF s.ph = "setup" /\ s.todo # <<>> /\ e.a = s.todo[1] /\ e.n = s.n /\ e.ok THEN {Pop(s)} ELSE {}
    [] e.ev = "yield" -> IF s.ph = "iter" THEN Iterate(c, s, e) ELSE {}
    [] e.ev = "end" -> IF s.ph # "iter" THEN {} ELSE IF e.how = "boom" THEN {Boom(c, s, With(c, "finalize"))} ELSE {Fail(c, s)}
    [] e.ev = "register" -> IF s.ph = "reg" /\ s.todo # <<>> /\ e.a = s.todo[1] /\ e.n = s.n /\ e.k = s.k /\ e.ok
                               /\ e.cov = s.x /\ ErrOf(c, s, e.err) THEN {Pop(s)} ELSE {}
    [] e.ev = "finalize" -> IF s.ph \in {"fail", "accept", "boom"} /\ s.todo # <<>> /\ e.a = s.todo[1] /\ e.n = s.n /\ e.ok
                            THEN {Pop(s)} ELSE {}
    [] e.ev = "ret" ->
        IF e.res = <<>> THEN IF s.ph = "fail" /\ ~c.hyb /\ s.todo = <<>> /\ e.arch = s.best THEN {[s EXCEPT !.ph = "over"]} ELSE {}
        ELSE IF s.ph = "guess" /\ Good(c, s) /\ Returned(c, s, e, s.x)
                /\ e.err >= Milli(c, s.x) - 1 /\ e.err <= Len(s.x) * Milli(c, s.x) + 1
             THEN {[s EXCEPT !.ph = "over", !.best = e.arch]}
        ELSE IF s.ph = "accept" /\ s.todo = <<>> /\ Returned(c, s, e, s.g) /\ ErrOf(c, s, e.err) /\ e.err < c.tolm
             THEN {[s EXCEPT !.ph = "over", !.best = e.arch]} ELSE {}
    [] e.ev = "exc" -> IF s.ph = "boom" /\ s.todo = <<>> /\ e.name = "Boom" /\ e.arch = s.best THEN {[s EXCEPT !.ph = "over"]} ELSE {}
    [] OTHER -> {}

\* An analysis is declared with a positive integer as interval or refused;
\* a value is <<kind, number>> with its number times two.
Interval(v) == v[1] = "int" /\ v[2] > 0
=============================================================================
