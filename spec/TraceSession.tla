----------------------------- MODULE TraceSession -----------------------------
(* C16: a script of operations on several real models with the answers they  *)
(* gave (as texts), and the answers of models that were alone.               *)
EXTENDS Session, TraceBase
VARIABLES l

\* What an answer may depend on; given energies stand in for the model's own.
KeyOf(m, kind, c, o) ==
  IF kind = "attrs" THEN <<m.cfg, m.eng, m.regs, kind, "-">>
  ELSE <<m.cfg, IF o = "own" THEN m.eng ELSE <<o>>, <<>>, kind, c>>
Solo(e, key) == {p[2] : p \in {q \in ToSet(e.solo) : q[1] = key}}
RECURSIVE Walk(_, _, _)
Walk(e, k, ms) ==
  IF k > Len(e.out) THEN {} ELSE
  LET o == e.out[k]
      here == IF o[1] = "eval" THEN
                LET S == Solo(e, KeyOf(ms[o[2]], o[3], o[4], o[5])) IN
                (IF S = {} THEN {"no-solo"} ELSE IF S # {o[6]} THEN {"answer"} ELSE {})
              ELSE IF o[1] = "badparse" THEN (IF o[3] = "" THEN {"accepted-bad-energies"} ELSE {})
              ELSE IF o[1] \in {"new", "parse"} THEN IF o[4] # "" THEN {"raised"} ELSE {} ELSE {}
  IN here \union Walk(e, k + 1, Step(ms, o))
Fails(e) == IF e.ev = "session" THEN Walk(e, 1, [s \in 1..e.slots |-> [cfg |-> "none", eng |-> NoEnergy, regs |-> <<>>]])
            ELSE {e.ev}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
