-------------------------------- MODULE Newton --------------------------------
(* Root-finding iterations.  A problem is a map f of integer vectors given    *)
(* cell by cell: the value (and the Jacobian the iteration is told) at a      *)
(* point depends on the unit cell, modulo m, the point lies in.  Points are   *)
(* in units of 1/Unit, so that every damped step is exact.                    *)
EXTENDS Util
Unit == 16384
MaxHalf == 14

\* Value of the cell a point lies in.
RECURSIVE CellNo(_, _, _)
CellNo(c, m, i) == IF i > Len(c) THEN 0 ELSE (c[i] % m) + m * CellNo(c, m, i + 1)
Cell(x) == [i \in DOMAIN x |-> x[i] \div Unit]
Value(p, x) == p.f[1 + CellNo(Cell(x), p.m, 1)]
Jac(p, x) == p.j[1 + CellNo(Cell(x), p.m, 1)]
Norm2(v) == SumSeq([i \in DOMAIN v |-> v[i] * v[i]])

\* ---- exact solution of J s = -v -------------------------------------------
Minor(a, r, c) == [i \in 1..(Len(a) - 1) |-> [k \in 1..(Len(a) - 1) |-> a[IF i < r THEN i ELSE i + 1][IF k < c THEN k ELSE k + 1]]]
RECURSIVE Det(_)
Det(a) == IF Len(a) = 1 THEN a[1][1]
          ELSE SumSeq([c \in DOMAIN a |-> (IF c % 2 = 1 THEN 1 ELSE -1) * a[1][c] * Det(Minor(a, 1, c))])
Swap(a, c, v) == [i \in DOMAIN a |-> [k \in DOMAIN a |-> IF k = c THEN v[i] ELSE a[i][k]]]
\* The Newton direction, in units of 1/Unit; the determinant is a power of two.
Direction(p, x) == LET a == Jac(p, x) v == Value(p, x) d == Det(a) IN
                   [c \in DOMAIN v |-> -((Unit * Det(Swap(a, c, v))) \div d)]
Singular(p, x) == Det(Jac(p, x)) = 0

\* ---- damping --------------------------------------------------------------
Exact(s, k) == \A i \in DOMAIN s : s[i] % Pow(2, k) = 0
At(x, s, k) == [i \in DOMAIN x |-> x[i] + s[i] \div Pow(2, k)]
Better(p, x, s, k) == Norm2(Value(p, At(x, s, k))) < Norm2(Value(p, x))
\* Cell just off x in direction s.
Limit(x, s) == [i \in DOMAIN x |-> IF s[i] < 0 /\ x[i] % Unit = 0 THEN x[i] \div Unit - 1 ELSE x[i] \div Unit]
\* Number of halvings after which a step stays in that cell.
Halvings(s) == {k \in 0..MaxHalf : Exact(s, k)}
Accepting(p, x, s) == {k \in Halvings(s) : Better(p, x, s, k)}
\* Smallest one whose damped step lowers the norm, if any.
Zero(s) == \A i \in DOMAIN s : s[i] = 0
\* Finite precision: very short steps are lost in some components before others.
Mixed(x, s) == {c \in [DOMAIN x -> UNION {{Cell(x)[i], Limit(x, s)[i]} : i \in DOMAIN x}] : \A i \in DOMAIN x : c[i] \in {Cell(x)[i], Limit(x, s)[i]}}
ValueAt(p, c) == p.f[1 + CellNo(c, p.m, 1)]
Stationary(p, x, s) == \/ Zero(s)
                       \/ /\ Accepting(p, x, s) = {} /\ Cell(At(x, s, Max(Halvings(s)))) = Limit(x, s)
                          /\ \A c \in Mixed(x, s) : Norm2(ValueAt(p, c)) >= Norm2(Value(p, x))
Decided(p, x, s) == Stationary(p, x, s) \/ Accepting(p, x, s) # {}

\* One step: kind "singular", "stationary", "moved" or "unknown" (beyond the resolution).
Move(p, x) == IF Singular(p, x) THEN [kind |-> "singular", x |-> x]
              ELSE LET s == Direction(p, x) IN
                   IF Stationary(p, x, s) THEN [kind |-> "stationary", x |-> x]
                   ELSE IF Accepting(p, x, s) # {} THEN [kind |-> "moved", x |-> At(x, s, Min(Accepting(p, x, s)))]
                   ELSE [kind |-> "unknown", x |-> x]

\* ---- one very short step --------------------------------------------------
\* A full step of one from zero, where the norm is top; t[k + 1] is the norm
\* after k halvings (top after more of them).  Number of halvings taken, or -1
\* where no shorter step is better.
DeepStep(top, t) == LET K == {k \in 0..(Len(t) - 1) : t[k + 1] < top} IN IF K = {} THEN -1 ELSE Min(K)

\* ---- constrained iteration on f(x) = A (x - r) ----------------------------
\* With a Jacobian that is a multiple of A the best point on the Newton line is
\* r itself; from the sixth iteration on the constraint is applied to it.
FreeSteps == 5
Clip(x, lo, hi) == [i \in DOMAIN x |-> MinOf(hi, MaxOf(lo, x[i]))]
ConstrainedPoint(q, k) == IF k <= FreeSteps THEN q.r ELSE Clip(q.r, q.lo, q.hi)
Affine(q, x) == [i \in DOMAIN x |-> SumSeq([k \in DOMAIN x |-> q.a[i][k] * (x[k] - q.r[k])])]
=============================================================================
