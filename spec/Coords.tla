-------------------------------- MODULE Coords --------------------------------
(* Groups of coordinates.  A group is a sequence of points <<xyz, element>>, *)
(* lengths in units of 1e-5; two coordinates coincide if no axis differs by  *)
(* more than the tolerance of 1e-4.  V is the wildcard element.              *)
EXTENDS Util

Tol == 10
Coincide(p, q) == \A i \in 1..3 : Abs(p[i] - q[i]) <= Tol
Xyz(g) == [i \in 1..Len(g) |-> g[i][1]]
Elm(g) == [i \in 1..Len(g) |-> g[i][2]]
Distinct(g) == \A i, j \in DOMAIN g : i # j => ~Coincide(g[i][1], g[j][1])

Partners(g, h, i) == {j \in DOMAIN h : Coincide(g[i][1], h[j][1])}
New(g, h) == SelectSeq(h, LAMBDA p : \A i \in DOMAIN g : ~Coincide(g[i][1], p[1]))
\* Elements a point of the first group may have in the union (one, unless a
\* point has several partners).
ElemSet(g, h, i) ==
  IF g[i][2] # "V" \/ Partners(g, h, i) = {} THEN {g[i][2]}
  ELSE LET S == {h[j][2] : j \in Partners(g, h, i)}
           Sure == Cardinality(Partners(g, h, i)) = 1 /\ \A j \in Partners(g, h, i) : \A k \in DOMAIN g : k # i => ~Coincide(g[k][1], h[j][1])
       IN IF Sure THEN S ELSE S \union {"V"}
\* Points exactly the tolerance apart: rounding decides whether they coincide.
Edge(p, q) == Coincide(p, q) /\ \E i \in 1..3 : Abs(p[i] - q[i]) = Tol
Sharp(g, h) == \A i \in DOMAIN g : \A j \in DOMAIN h : ~Edge(g[i][1], h[j][1])
IsUnion(u, g, h) ==
  IF ~Sharp(g, h) THEN Len(u) >= Len(g) /\ SubSeq(Xyz(u), 1, Len(g)) = Xyz(g) ELSE
  /\ Len(u) = Len(g) + Len(New(g, h))
  /\ \A i \in DOMAIN g : u[i][1] = g[i][1] /\ u[i][2] \in ElemSet(g, h, i)
  /\ SubSeq(u, Len(g) + 1, Len(u)) = New(g, h)
\* The union itself where it is unambiguous.
Plus(g, h) == [i \in 1..Len(g) |-> <<g[i][1], CHOOSE e \in ElemSet(g, h, i) : TRUE>>] \o New(g, h)
Move(g, v) == [i \in 1..Len(g) |-> <<[k \in 1..3 |-> g[i][1][k] + v[k]], g[i][2]>>]
=============================================================================
