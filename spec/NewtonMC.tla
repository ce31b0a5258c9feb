------------------------------- MODULE NewtonMC -------------------------------
(* All damped iterations on small problems of one and two unknowns.           *)
EXTENDS Newton, TLC, Json, IOUtils
CONSTANTS Values, Slopes, Dim, M
\* Jacobians: triangular ones with powers of two on the diagonal, and singular ones.
Signed == {0 - v : v \in Values} \cup Values
Jacs == IF Dim = 1 THEN {<<<<a>>>> : a \in Slopes \cup {-1}}
        ELSE {<<<<a, b>>, <<0, 1>>>> : a \in Slopes \cup {-1}, b \in {0, 1}}
Cells == Pow(M, Dim)
Vecs == IF Dim = 1 THEN {<<v>> : v \in Signed} ELSE {<<v, w>> : v \in Signed, w \in Values}
VARIABLES p, x, st, path
vars == <<p, x, st, path>>
Init == /\ p \in [m : {M}, f : [1..Cells -> Vecs], j : IF Dim = 1 THEN [1..Cells -> Jacs] ELSE {[i \in 1..Cells |-> a] : a \in Jacs}]
        /\ x = [i \in 1..Dim |-> 0] /\ st = "run" /\ path = <<x>>
Step == /\ st = "run" /\ Len(path) <= 5
        /\ LET r == Move(p, x) IN
           /\ x' = r.x /\ st' = (IF r.kind = "moved" THEN "run" ELSE r.kind)
           /\ path' = Append(path, r.x)
        /\ UNCHANGED p
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Norms == [i \in DOMAIN path |-> Norm2(Value(p, path[i]))]
\* The norm goes down with every step but the last, so that no point comes twice.
Descends == \A i \in 1..(Len(path) - 1) : Norms[i + 1] < Norms[i] \/ (i = Len(path) - 1 /\ st # "run" /\ path[i + 1] = path[i])
\* A point that is no root is given up only if no damped step is better.
Tried == st = "stationary" => LET s == Direction(p, x) IN Zero(s) \/ \A k \in Halvings(s) : ~Better(p, x, s, k)
Root == st = "stationary" /\ Value(p, x) = [i \in 1..Dim |-> 0] => Zero(Direction(p, x))
\* Undamped whenever the full step is better.
Full == \A i \in 1..(Len(path) - 1) : LET s == Direction(p, path[i]) IN
          ~Singular(p, path[i]) /\ ~Zero(s) /\ Better(p, path[i], s, 0) => path[i + 1] = At(path[i], s, 0)
Stops == <>(st # "run" \/ Len(path) > 5)
Emit == IF "OUT" \in DOMAIN IOEnv /\ (st # "run" \/ Len(path) > 5)
        THEN PrintT("SCN " \o ToJson([p |-> p, x |-> path[1], n |-> Len(path)])) ELSE TRUE
=============================================================================
