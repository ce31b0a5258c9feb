------------------------------- MODULE SolveMC -------------------------------
(* Every behaviour of the environment of a solve (iterates, honest or wrong  *)
(* error norms, stops, exceptions, hybrid guesses) for small configurations. *)
EXTENDS Solve, Json, IOUtils

CONSTANTS MaxAttempts, MaxIter, Ints, Lies, Wide, Partial

One_ == [rxns |-> <<"O2_g + 2*_s -> 2O_s">>, tot |-> [x \in {"*_s"} |-> 3], p |-> [x \in {"O2_g"} |-> 1],
         kf |-> <<4>>, kr |-> <<1>>, tol |-> 21, raw |-> {<<0>>, <<2>>, <<5>>}, pts |-> {<<1>>, <<2>>, <<6>>}]
Two_ == [rxns |-> <<"CO_g + *_s -> CO_s", "O2_g + 2*_t -> 2O_t">>, tot |-> [x \in {"*_s", "*_t"} |-> 3],
         p |-> [x \in {"CO_g", "O2_g"} |-> 1], kf |-> <<2, 4>>, kr |-> <<1, 1>>, tol |-> 37,
         raw |-> {<<0, 0>>, <<1, 3>>}, pts |-> {<<2, 2>>, <<2, 6>>, <<1, 3>>, <<0, 0>>}]
Conf(w, ints, hooks, max, single, hyb) ==
  LET net == [i \in DOMAIN w.rxns |-> ParseRxn(w.rxns[i])] IN
  [net |-> net, fast |-> Compact(net), env |-> [p |-> w.p, c |-> [x \in {} |-> 0], tot |-> w.tot, kf |-> w.kf, kr |-> w.kr, D |-> 3, ord |-> Order(net)],
   tol |-> w.tol, tolm |-> 1000000, ints |-> ints, hooks |-> hooks, max |-> max, single |-> single, hyb |-> hyb, arch |-> {"steady_state_coverages", "initial_guess"}]

IntsQuick == {<<>>, <<1, 2>>}
IntsFull == {<<>>, <<2, 1>>, <<1, 3>>}
\* At most one analysis, the last one, leaves hooks out.
Whole == <<"setup", "register", "finalize">>
HookSets == {<<"register">>, <<"finalize", "setup">>, <<"register", "setup">>, <<"finalize">>}
HooksFor(n) == {[i \in 1..n |-> Whole]} \cup
  (IF Partial /\ n > 0 THEN {[i \in 1..n |-> IF i = n THEN h ELSE Whole] : h \in HookSets} ELSE {})
VARIABLES c, w, start, st, script, open, asked, last
vars == <<c, w, start, st, script, open, asked, last>>

Init == /\ w \in (IF Wide THEN {One_, Two_} ELSE {One_})
        /\ \E ints \in Ints, max \in MaxIter, single \in BOOLEAN, hyb \in BOOLEAN :
             \E hooks \in HooksFor(Len(ints)) : c = Conf(w, ints, hooks, max, single, hyb)
        /\ start \in {<<x>> : x \in w.raw} \cup (IF c.hyb THEN {<<>>} ELSE {})
        /\ st = Start(c, IF start = <<>> THEN <<>> ELSE start[1], <<>>) /\ script = <<>> /\ open = {} /\ asked = 0 /\ last = ""

Flat(x) == [i \in DOMAIN x |-> 0]
Smalls(x) == {Flat(x)} \cup {[Flat(x) EXCEPT ![i] = -1] : i \in {j \in DOMAIN x : x[j] = 0}}
             \cup {[Flat(x) EXCEPT ![i] = 1] : i \in {j \in DOMAIN x : \E k \in DOMAIN c.fast.on : j \in c.fast.on[k] /\ FreeAt(c, x, k) = 0}}
Yields == UNION {{[ev |-> "yield", x |-> x, lie |-> li, err |-> 0, small |-> sm,
            low |-> IF li = "lo" THEN TRUE ELSE IF li = "hi" THEN FALSE ELSE NormLow(c, x)] : li \in Lies, sm \in Smalls(x)} : x \in w.pts}
Asks == {[ev |-> "hybrid", n |-> n, ok |-> TRUE, out |-> x, raised |-> FALSE] : n \in 0..MaxAttempts, x \in w.raw}
        \cup {[ev |-> "hybrid", n |-> n, ok |-> TRUE, out |-> <<>>, raised |-> TRUE] : n \in 0..MaxAttempts}
Calls == {[ev |-> v, a |-> a, n |-> n, ok |-> TRUE] : v \in {"setup", "finalize"}, a \in DOMAIN c.ints, n \in 1..MaxAttempts}
Regs == {[ev |-> "register", a |-> a, n |-> n, k |-> k, ok |-> TRUE, cov |-> st.x, err |-> st.err] :
           a \in DOMAIN c.ints, n \in 1..MaxAttempts, k \in 0..(c.max + 1)}
Rets == {[ev |-> "ret", res |-> r, cov |-> r, arch |-> IF r = <<>> THEN st.best ELSE r, archerr |-> 0,
          init |-> IF st.ph = "guess" THEN st.x ELSE st.g,
          err |-> IF r = <<>> THEN 0 ELSE Milli(c, r)] : r \in {<<>>, st.x}}
Events == CASE st.ph = "iter" -> Yields \cup {[ev |-> "end", how |-> h] : h \in {"stop", "zde", "boom"}}
            [] st.ph = "begin" -> Asks
            [] st.ph = "guess" -> Rets \cup {[ev |-> "construct", x |-> st.x]}
            [] OTHER -> Asks \cup Calls \cup Regs \cup Rets \cup {[ev |-> "exc", name |-> "Boom", arch |-> st.best]}

Choice(e) == CASE e.ev = "yield" -> <<[k |-> "y", x |-> e.x, lie |-> e.lie, small |-> e.small]>>
               [] e.ev = "end" -> <<[k |-> "e", how |-> e.how]>>
               [] e.ev = "hybrid" -> <<[k |-> "h", x |-> e.out]>>
               [] OTHER -> <<>>
Next == \E e \in Events : \E t \in Nexts(c, st, e) :
          /\ st' = t /\ script' = script \o Choice(e) /\ UNCHANGED <<c, w, start>>
          /\ open' = IF e.ev = "setup" THEN open \cup {e.a} ELSE IF e.ev = "finalize" THEN open \ {e.a} ELSE open
          /\ asked' = IF e.ev = "hybrid" THEN asked + 1 ELSE asked
          /\ last' = e.ev
          /\ t.n <= MaxAttempts
Spec == Init /\ [][Next]_vars

\* The script only records the choices of the environment.
View == <<c, start, st, open, asked, last>>
\* Acceptance only of converged physical coverages.
Sound == st.ph = "accept" => Low(c, st.x) /\ PhysicalNear(c, st.x, st.small) /\ st.k <= c.max
\* Analyses are open exactly between setup and finalize; none stays open.
Both == ToSet(With(c, "setup")) \cap ToSet(With(c, "finalize"))
Protocol == LET op == open \cap Both IN
            /\ st.ph \in {"begin", "guess", "over"} => op = {}
            /\ st.ph \in {"iter", "reg"} => op = Both
            /\ st.ph \in {"fail", "accept", "boom"} => op = ToSet(st.todo) \cap Both
            /\ st.ph = "setup" => op \cap ToSet(st.todo) = {}
\* Only hooks that exist are ever due.
Heard == \A i \in ToSet(st.todo) : LET h == CASE st.ph = "setup" -> "setup" [] st.ph = "reg" -> "register" [] OTHER -> "finalize" IN
           h \in ToSet(c.hooks[i])
\* Restarts and only restarts ask the hybrid method.
Asked == asked <= st.n + 1 /\ (start # <<>> /\ st.ph = "guess" => asked = st.n - 1)
\* The archived guess is the one the attempt started from.
Started == st.ph \in {"setup", "iter", "reg", "accept"} => PhysicalAt(c, st.g)
SlopeOk == \A x \in w.pts \cup w.raw : SlopeIsKinetics(c, x)
NoArchive == st.ph # "over" => st.best = <<>>
GuessPhysical == st.ph = "guess" => PhysicalAt(c, st.x)
Grid == /\ \A x \in w.raw : OnGrid(c, x)
Emit == IF st.ph = "over" /\ "OUT" \in DOMAIN IOEnv
        THEN PrintT("SCN " \o ToJson([rxns |-> w.rxns, tot |-> SetToSeq(Pairs(w.tot)), p |-> SetToSeq(Pairs(w.p)), c |-> <<>>, kf |-> w.kf,
               kr |-> w.kr, D |-> 3, tol |-> w.tol, ints |-> c.ints, hooks |-> c.hooks, max |-> c.max, single |-> c.single, hyb |-> c.hyb,
               start |-> start, script |-> script])) ELSE TRUE
=============================================================================
