------------------------------- MODULE ProcessMC -------------------------------
(* A solver expanding its definitions one at a time, with further requests    *)
(* and with definitions that are refused in between.  Reset = FALSE keeps the *)
(* mapping of earlier requests, as the code did before it was repaired.       *)
EXTENDS Process, TLC, Json, IOUtils
CONSTANTS MaxDefs, MaxAsks, Reset, Wide
S(x) == [t |-> "str", s |-> x, n |-> 0, v |-> <<>>]
I(k) == [t |-> "int", s |-> "", n |-> k, v |-> <<>>]
F(k) == [t |-> "float", s |-> "", n |-> k, v |-> <<>>]
L(q) == [t |-> "list", s |-> "", n |-> 0, v |-> q]
T(q) == [t |-> "tuple", s |-> "", n |-> 0, v |-> q]
B(b) == [t |-> "bool", s |-> "", n |-> IF b THEN 1 ELSE 0, v |-> <<>>]
P(x) == L(<<F(x), F(0), F(0)>>)
Rxns == <<"CO_g + *_s -> CO_s", "CO_s + *_t -> CO_t + *_s">>
Elements == <<"V", "CO">>
Groups == {L(<<>>), L(<<L(<<P(0)>>)>>), L(<<L(<<P(0)>>), L(<<P(5000000)>>)>>), T(<<L(<<P(0), P(5000000)>>), L(<<P(0), P(-5000000)>>)>>)}
Size(g) == IF g.v = <<>> THEN 1 ELSE Len(g.v[1].v)
Fill(x, n) == [i \in 1..n |-> S(IF i = 1 THEN x ELSE "*")]
Sites == IF Wide THEN {L(<<>>), L(<<I(0)>>), L(<<I(1), I(0)>>)} ELSE {L(<<I(0)>>), L(<<I(1), I(0)>>)}
Good == {[reaction |-> S(Rxns[r]), coordinates_group |-> g, elements_before |-> L(Fill("V", Size(g))), elements_after |-> k,
          basis_sites |-> b, fast |-> B(f), redist |-> B(rd)] :
           r \in IF Wide THEN {1, 2} ELSE {1}, g \in Groups, k \in {L(<<S("CO")>>), L(<<S("CO"), S("*")>>), T(<<S("CO")>>)}, b \in Sites, f \in BOOLEAN, rd \in BOOLEAN}
OK(d) == ValidDef(d, Rxns, Elements)
Defs == {d \in Good : OK(d)}
Base == CHOOSE d \in Defs : Len(d["coordinates_group"].v) = 2 /\ Len(d["elements_after"].v) = 1 /\ d["fast"].n = 0 /\ d["redist"].n = 0
Broken == {[Base EXCEPT !["reaction"] = S("CO_g -> CO_s")], [Base EXCEPT !["reaction"] = I(1)],
           [Base EXCEPT !["coordinates_group"] = L(<<T(<<P(0)>>)>>)], [Base EXCEPT !["coordinates_group"] = S("ab")],
           [Base EXCEPT !["coordinates_group"] = L(<<L(<<L(<<F(0), F(0)>>)>>)>>)], [Base EXCEPT !["coordinates_group"] = L(<<L(<<T(<<F(0), F(0), F(0)>>)>>)>>)],
           [Base EXCEPT !["coordinates_group"] = L(<<L(<<L(<<F(0), I(0), F(0)>>)>>)>>)], [Base EXCEPT !["coordinates_group"] = L(<<L(<<P(0)>>), L(<<P(0), P(5)>>)>>)],
           [Base EXCEPT !["coordinates_group"] = L(<<L(<<P(0), P(9)>>)>>), !["elements_before"] = L(<<S("V"), S("V")>>), !["elements_after"] = L(<<S("V"), S("V")>>)],
           [Base EXCEPT !["elements_before"] = S("V")], [Base EXCEPT !["elements_before"] = L(<<S("X")>>)], [Base EXCEPT !["elements_after"] = L(<<S("Y")>>)],
           [Base EXCEPT !["elements_after"] = L(<<S("V"), S("V")>>)], [Base EXCEPT !["elements_after"] = L(<<I(3)>>)],
           [Base EXCEPT !["basis_sites"] = I(0)], [Base EXCEPT !["basis_sites"] = L(<<F(0)>>)], [Base EXCEPT !["basis_sites"] = L(<<S("0")>>)]}
          \cup {[k \in DOMAIN Base \ {x} |-> Base[k]] : x \in Needed}
VARIABLES defs, procs, mapping, at, asks, out
vars == <<defs, procs, mapping, at, asks, out>>
Init == /\ defs \in UNION {[1..n -> Defs] : n \in 1..MaxDefs} \cup {<<b>> : b \in Broken} \cup {<<Base, b>> : b \in Broken}
        /\ procs = <<>> /\ mapping = <<>> /\ at = 0 /\ asks = 0 /\ out = ""
Ask == at = 0 /\ asks < MaxAsks /\ asks' = asks + 1 /\ at' = 1 /\ procs' = <<>> /\ out' = ""
       /\ mapping' = (IF Reset THEN <<>> ELSE mapping) /\ UNCHANGED defs
Take == /\ at \in DOMAIN defs /\ UNCHANGED <<defs, asks>>
        /\ IF OK(defs[at]) THEN LET ps == Expand(defs[at]) IN
              /\ procs' = procs \o ps /\ mapping' = mapping \o Mapping(ps) /\ UNCHANGED out
              /\ at' = IF at = Len(defs) THEN 0 ELSE at + 1
           ELSE out' = "SetupError" /\ at' = 0 /\ UNCHANGED <<procs, mapping>>
Next == Ask \/ Take
Spec == Init /\ [][Next]_vars
Slow == SelectSeq(procs, LAMBDA p : ~p.fast)
\* One label per slow process, in order, with its reaction and direction.
Aligned == (at = 0 /\ asks > 0) => Len(mapping) = Len(Slow) /\ \A i \in DOMAIN mapping : mapping[i] = Label(Slow[i])
\* Every process that may be undone has its reverse right after it.
Paired == at = 0 => \A i \in DOMAIN procs : (procs[i].dir = "->" /\ ~procs[i].redist) =>
             /\ i < Len(procs) /\ procs[i + 1].dir = "<-" /\ procs[i + 1].before = procs[i].after /\ procs[i + 1].after = procs[i].before
             /\ procs[i + 1].coords = procs[i].coords /\ procs[i + 1].basis = procs[i].basis
Counted == (at = 0 /\ asks > 0 /\ out = "") =>
  Len(procs) = SumSeq([i \in DOMAIN defs |-> Len(defs[i]["basis_sites"].v) * Len(defs[i]["coordinates_group"].v) * IF Flag(defs[i], "redist") THEN 1 ELSE 2])
Refused == (at = 0 /\ asks > 0) => (out # "") = \E i \in DOMAIN defs : ~OK(defs[i])
Emit == IF "OUT" \in DOMAIN IOEnv /\ at = 0 /\ asks = MaxAsks THEN PrintT("SCN " \o ToJson([defs |-> defs, asks |-> asks])) ELSE TRUE
=============================================================================
