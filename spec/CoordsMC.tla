------------------------------- MODULE CoordsMC -------------------------------
(* A few groups in registers, built up and combined by all operation         *)
(* sequences of bounded length; every sequence is also replayed on the code. *)
EXTENDS Coords, TLC, Json, IOUtils
CONSTANTS EmitAt, Regs, Points, Elements, Vectors, MaxOps, MaxLen
VARIABLES reg, script
vars == <<reg, script>>
Pts == {<<0, 0, 0>>, <<5, -5, 0>>, <<50000, 0, 0>>, <<0, 0, 50011>>}
Vecs == {<<0, 0, 0>>, <<50000, 0, 0>>, <<-25000, 25000, 7>>}
Init == reg = [r \in Regs |-> <<>>] /\ script = <<>>
Do(op) == script' = Append(script, op)
App(r, p, e) == /\ Len(reg[r]) < MaxLen /\ reg' = [reg EXCEPT ![r] = Append(@, <<p, e>>)] /\ Do(<<"append", r, p, e>>)
Mov(r, s, v) == reg' = [reg EXCEPT ![s] = Move(reg[r], v)] /\ Do(<<"move", r, s, v>>)
Add(r, s, t) == /\ Distinct(reg[r])
                /\ reg' = [reg EXCEPT ![t] = Plus(reg[r], reg[s])] /\ Do(<<"add", r, s, t>>)
Next == Len(script) < MaxOps /\ \/ \E r \in Regs, p \in Points, e \in Elements : App(r, p, e)
                                \/ \E r, s \in Regs, v \in Vectors : Mov(r, s, v)
                                \/ \E r, s, t \in Regs : Add(r, s, t)
Spec == Init /\ [][Next]_vars
View == reg
Both(P(_, _)) == \A r, s \in Regs : Distinct(reg[r]) /\ Distinct(reg[s]) => P(reg[r], reg[s])
Idempotent == \A r \in Regs : Distinct(reg[r]) => Plus(reg[r], reg[r]) = reg[r]
HoldsBoth == Both(LAMBDA g, h : \A j \in DOMAIN h : \E i \in DOMAIN Plus(g, h) : Coincide(Plus(g, h)[i][1], h[j][1]))
Sound == Both(LAMBDA g, h : IsUnion(Plus(g, h), g, h))
Translates == Both(LAMBDA g, h : \A v \in Vectors : Move(Plus(g, h), v) = Plus(Move(g, v), Move(h, v)))
MovesBack == \A r \in Regs, v \in Vectors : Move(Move(reg[r], v), [k \in 1..3 |-> -v[k]]) = reg[r]
Sizes == Both(LAMBDA g, h : Len(Plus(g, h)) <= Len(g) + Len(h) /\ Len(Plus(g, h)) >= MaxOf(Len(g), 0))
Emit == IF "OUT" \in DOMAIN IOEnv /\ Len(script) >= EmitAt THEN PrintT("SCN " \o ToJson([script |-> script])) ELSE TRUE
=============================================================================
