------------------------------ MODULE TraceRanks ------------------------------
(* C30: what P real ranks left behind, against Ranks.                         *)
EXTENDS Ranks, TraceBase
VARIABLES l
Of(ps, f) == {p[2] : p \in {q \in ToSet(ps) : q[1] = f}}
Names(ps) == {p[1] : p \in ToSet(ps)}
\* Times (in 1/8) of an integration of rank r: every step is written.
Times(r) == [i \in 1..(3 + r) |-> i]
Fails(e) == IF e.ev # "ranks" THEN {e.ev} ELSE
  LET R == 0..(e.P - 1)
      Op(r) == e.ops[r + 1]
      K == Kind(Op(0))
      Arch == {r \in R : Archived(Op(r)) # <<>>}
      Ode == {r \in R : Texts(Op(r), "ode") # <<>>}
      Brought(k, what) == [i \in 1..e.P |-> Texts(e.ops[i], what)[k]]
  IN Failing({
    <<"started", \A i \in DOMAIN e.died : e.died[i] = "">>,
    <<"own-log", \A r \in R : Of(e.logs, LogFile(e.P, r, K)) = {FlattenSeq([i \in 1..e.P |-> IF LogFile(e.P, i - 1, K) = LogFile(e.P, r, K) THEN Said(i - 1, Op(i - 1), FALSE) ELSE <<>>])}>>,
    <<"own-data", \A r \in Arch : Of(e.data, DataFile(e.P, r)) = {Last(Archived(Op(r)))}>>,
    <<"own-trajectory", \A r \in Ode : Of(e.trajs, TrajFile(e.P, r)) = {Times(r)}>>,
    <<"no-others", /\ Names(e.logs) = {LogFile(e.P, r, K) : r \in R} /\ Names(e.data) = {DataFile(e.P, r) : r \in Arch}
                   /\ Names(e.trajs) = {TrajFile(e.P, r) : r \in Ode} /\ e.others = <<>>>>,
    <<"named", \A r \in R : K = "micro" => e.names[r + 1] = DataFile(e.P, r)>>,
    <<"console", \A r \in R : e.console[r + 1] = Shown(r, Op(r), FALSE)>>,
    <<"allowed", \A r \in R : \A i \in DOMAIN e.allowed[r + 1] : e.allowed[r + 1][i] = LogAllowed(K, r)>>,
    <<"shared", \A r \in R : e.shared[r + 1] = Texts(Op(0), "share")>>,
    <<"gathered", \A r \in R : e.gathered[r + 1] = [k \in DOMAIN Texts(Op(r), "gather") |-> Brought(k, "gather")]>>})
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
