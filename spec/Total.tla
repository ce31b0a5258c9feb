-------------------------------- MODULE Total --------------------------------
(* The total reaction: the combination of the steps that eliminates every    *)
(* surface species, found by exact elimination over the integers.            *)
EXTENDS Chem

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE GcdSeq(_)
GcdSeq(q) == IF q = <<>> THEN 0 ELSE Gcd(GcdSeq(Tail(q)), Head(q))
Lcm(a, b) == (a \div Gcd(a, b)) * b
Prim(q) == LET g == GcdSeq(q) IN IF g = 0 THEN q ELSE [i \in DOMAIN q |-> q[i] \div g]

Less0(r, p, c) == Prim([i \in DOMAIN r |-> r[i] * p[c] - p[i] * r[c]])
\* Pivots <<column, row>> of the elimination; rows not used yet are in rest.
RECURSIVE Eliminate(_, _, _, _)
Eliminate(rest, pivots, c, n) ==
  IF c > n THEN pivots
  ELSE LET with == {r \in rest : r[c] # 0} IN
       IF with = {} THEN Eliminate(rest, pivots, c + 1, n)
       ELSE LET p == CHOOSE r \in with : TRUE
                cut(r) == IF r[c] = 0 THEN r ELSE Less0(r, p, c)
            IN  Eliminate({cut(r) : r \in rest \ {p}}, {<<q[1], cut(q[2])>> : q \in pivots} \cup {<<c, p>>}, c + 1, n)

SurfRows(net) == {[r \in DOMAIN net |-> Net(net[r], ss)] : ss \in SiteNames(net) \cup Adsorbates(net)}
Pivots(net) == Eliminate(SurfRows(net), {}, 1, Len(net))
Ways(net) == Len(net) - Cardinality(Pivots(net))

\* The combination, if it is unique up to a factor.
Combination(net) ==
  LET pv == Pivots(net)
      f == CHOOSE c \in 1..Len(net) : \A q \in pv : q[1] # c
      m == FoldSet(LAMBDA q, acc : Lcm(Abs(q[2][q[1]]), acc), 1, pv)
      x == [c \in 1..Len(net) |-> IF c = f THEN m
             ELSE LET row == (CHOOSE q \in pv : q[1] = c)[2] IN -((row[f] * m) \div Abs(row[c])) * (IF row[c] > 0 THEN 1 ELSE -1)]
  IN  Prim(x)
Oriented(x) == IF SumSeq(x) < 0 THEN [i \in DOMAIN x |-> -x[i]] ELSE x

Fluids(net) == Gases(net) \cup Liquids(net)
\* Coefficients of the total reaction, products positive.
TotalOf(net) ==
  LET x == Oriented(Combination(net))
      q == FluidCols(net)
      t == [i \in DOMAIN q |-> SumSeq([r \in DOMAIN net |-> x[r] * Net(net[r], q[i])])]
      u == Prim(t)
  IN  {<<q[i], u[i]>> : i \in {j \in DOMAIN q : u[j] # 0}}
Opposite(T) == {<<q[1], -q[2]>> : q \in T}
\* The totals a network may report: the direction is free if it is not given
\* by the sum of the combination.
Totals_(net) == LET T == TotalOf(net) IN IF SumSeq(Combination(net)) = 0 THEN {T, Opposite(T)} ELSE {T}
Defined(net) == Ways(net) = 1 /\ TotalOf(net) # {}
Unclear(net) == Ways(net) > 1

ElementsOf(T) == LET e(q) == ParseFormula(q[1]).spElems IN
  LET els == UNION {DOMAIN e(q) : q \in T} IN
  [x \in els |-> SumOver(T, LAMBDA q : q[2] * (IF x \in DOMAIN e(q) THEN e(q)[x] ELSE 0))]
Balanced(T) == LET s == ElementsOf(T) IN \A x \in DOMAIN s : s[x] = 0
=============================================================================
