------------------------------ MODULE TraceCoords ------------------------------
(* C22: every operation on real coordinate groups, with all groups read      *)
(* before and after it.                                                      *)
EXTENDS Coords, TraceBase
VARIABLES l
Group(x) == [i \in DOMAIN x |-> <<x[i][1], x[i][2]>>]
Same(e, t) == \A r \in DOMAIN e.before : r # t => e.after[r] = e.before[r]
Good(e) == LET B(r) == Group(e.before[r]) A(r) == Group(e.after[r]) o == e.op IN
  CASE o[1] = "append" -> {<<"append", A(o[2]) = Append(B(o[2]), <<o[3], o[4]>>)>>, <<"isolated", Same(e, o[2])>>}
    [] o[1] = "extend" -> {<<"extend", A(o[2]) = B(o[2]) \o Group(o[3])>>, <<"isolated", Same(e, o[2])>>}
    [] o[1] = "new" -> {<<"new", A(o[2]) = Group(o[3])>>, <<"isolated", Same(e, o[2])>>}
    [] o[1] = "move" -> {<<"move", A(o[3]) = Move(B(o[2]), o[4])>>, <<"isolated", Same(e, o[3])>>}
    [] o[1] = "add" -> {<<"union", IsUnion(A(o[4]), B(o[2]), B(o[3]))>>,
                        <<"isolated", Same(e, o[4])>>}
Fails(e) ==
  IF e.ev = "bad" THEN Failing({<<"accepted-invalid", e.exc # "">>, <<"kept", Same(e, 0)>>, <<"length", e.len_ok>>})
  ELSE IF e.ev # "op" THEN {e.ev}
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE Failing(Good(e) \union {<<"length", e.len_ok>>})
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
