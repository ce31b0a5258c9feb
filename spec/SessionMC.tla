------------------------------- MODULE SessionMC -------------------------------
(* The design of the code: every solver remembers answers by kind, arguments *)
(* and energies in force, returns a copy, and reads the configuration of its *)
(* own model.  It must be indistinguishable from computing afresh.           *)
EXTENDS Session, TLC, Json, IOUtils
CONSTANTS Slots, Cfgs, Engs, Kinds, Cvgs, MaxOps, EmitAt, Shared
VARIABLES ms, cache, ans, script
vars == <<ms, cache, ans, script>>
Dead == [cfg |-> "none", eng |-> NoEnergy, regs |-> <<>>]
Init == ms = [s \in Slots |-> Dead] /\ cache = [s \in Slots |-> {}] /\ ans = <<>> /\ script = <<>>
Live(s) == ms[s].cfg # "none"
Do(op) == script' = Append(script, op) /\ ms' = Step(ms, op)
Value(m, kind, c, o) == <<m.cfg, IF o = "own" THEN m.eng ELSE <<o>>, kind, c>>
\* The slot whose memory is used: its own, or (a wrong design) one for all.
Mem(s) == IF Shared THEN CHOOSE t \in Slots : TRUE ELSE s
Eval(s, kind, c, o) ==
  LET key == <<kind, c, IF o = "own" THEN ms[s].eng ELSE <<o>>>>
      hit == {p \in cache[Mem(s)] : p[1] = key}
      v   == IF hit # {} THEN (CHOOSE p \in hit : TRUE)[2] ELSE Value(ms[s], kind, c, o)
  IN /\ cache' = [cache EXCEPT ![Mem(s)] = @ \union {<<key, v>>}]
     /\ ans' = <<s, kind, c, o, v>> /\ Do(<<"eval", s, kind, c, o>>)
Other(op) == ans' = <<>> /\ Do(op) /\ cache' = IF op[1] = "new" /\ ~Shared THEN [cache EXCEPT ![op[2]] = {}] ELSE cache
Next == Len(script) < MaxOps /\
  \/ \E s \in Slots, k \in Cfgs : Other(<<"new", s, k>>)
  \/ \E s \in Slots : Live(s) /\ \/ \E e \in Engs : Other(<<"parse", s, e>>)
                                 \/ Len(ms[s].eng) = 1 /\ Other(<<"change", s, "poke">>)
                                 \/ Len(ms[s].regs) = 0 /\ Other(<<"register", s, "A">>)
                                 \/ \E kind \in Kinds, c \in Cvgs, o \in Engs \union {"own"} : (o = "own" => ms[s].eng # NoEnergy) /\ Eval(s, kind, c, o)
Spec == Init /\ [][Next]_vars
View == <<ms, cache, ans>>
\* Every answer is the one the model would give if it were alone and had
\* never been asked before.
Alone == ans = <<>> \/ ans[5] = Value(ms[ans[1]], ans[2], ans[3], ans[4])
\* A model answers with its own configuration whatever the others are.
Private == \A s \in Slots : ~Shared => \A p \in cache[s] : p[2][1] = ms[s].cfg
Emit == IF "OUT" \in DOMAIN IOEnv /\ Len(script) >= EmitAt /\ script[Len(script)][1] = "eval"
        THEN PrintT("SCN " \o ToJson([script |-> script])) ELSE TRUE
=============================================================================
