-------------------------------- MODULE AttrMC --------------------------------
(* Two instances of a class with a few declared attributes, all sequences of *)
(* reads, assignments, changes of the object read, and new instances.        *)
EXTENDS Attr, TLC, Json, IOUtils
CONSTANTS MaxOps, Insts
VARIABLES st, live, script, out
vars == <<st, live, script, out>>
I(n) == <<"i", n>>
S(x) == <<"s", x>>
L(x) == <<"l", x>>
D1(k, v) == <<"d", << <<k, v>> >> >>
Decl == [
  num   |-> [kind |-> "Integer", cands |-> <<I("1"), I("2")>>, entry |-> "", default |-> I("1"), deep |-> FALSE],
  list  |-> [kind |-> "Sequence", cands |-> <<>>, entry |-> "s", default |-> L(<<S("a")>>), deep |-> FALSE],
  defs  |-> [kind |-> "SpeciesDefinitions", cands |-> <<>>, entry |-> "", default |-> <<"d", <<>> >>, deep |-> TRUE]]
Vals == [num |-> {I("2"), I("3"), <<"f", "2.0">>},
         list |-> {L(<<S("b")>>), L(<<I("1")>>)},
         defs |-> {D1(S("CO_g"), D1(S("pressure"), <<"f", "1.0">>)), D1(S("CO_g"), <<"d", <<>> >>)}]
Names == DOMAIN Decl
Init == st = [i \in Insts |-> [a \in Names |-> Unset]] /\ live = {1} /\ script = <<>> /\ out = <<"start">>
Do(op, o) == script' = Append(script, op) /\ out' = o
Read(i, a) == \E v \in Shows(Decl[a], st[i][a]) :
  /\ st' = [st EXCEPT ![i][a] = Fixed({v})] /\ live' = live /\ Do(<<"read", i, a>>, <<"read", i, a, v>>)
Assign(i, a, v) ==
  \/ /\ MaySucceed(Decl[a], st[i][a], v) /\ st' = [st EXCEPT ![i][a] = Fixed({v})]
     /\ live' = live /\ Do(<<"assign", i, a, v>>, <<"ok", i, a, v>>)
  \/ /\ MayFail(Decl[a], st[i][a], v) /\ st' = st /\ live' = live /\ Do(<<"assign", i, a, v>>, <<"refused", i, a, v>>)
Grow(v) == IF v[1] = "l" THEN L(Append(v[2], S("zz"))) ELSE <<"d", Append(v[2], <<S("zz"), S("zz")>>) >>
Mutate(i, a) == a # "num" /\ \E v \in Shows(Decl[a], st[i][a]) :
  /\ st' = [st EXCEPT ![i][a] = Fixed(IF Decl[a].deep THEN {v} ELSE {v, Grow(v)})]
  /\ live' = live /\ Do(<<"mutate", i, a>>, <<"mutated", i, a>>)
New(i) == i \notin live /\ live' = live \union {i} /\ st' = st /\ Do(<<"new", i>>, <<"new", i>>)
Next == Len(script) < MaxOps /\
  \/ \E i \in live, a \in Names : Read(i, a) \/ Mutate(i, a) \/ \E v \in Vals[a] : Assign(i, a, v)
  \/ \E i \in Insts : New(i)
Spec == Init /\ [][Next]_vars
View == <<st, live, out>>
\* What is fixed stays what it is, except by changing the object itself.
Once == [][\A i \in Insts, a \in Names : st[i][a][1] = "fixed" =>
             st'[i][a][1] = "fixed" /\ (out'[1] # "mutated" => st'[i][a][2] \subseteq st[i][a][2])]_vars
Isolated == [][\A i, j \in Insts, a, b \in Names : out'[1] # "new" /\ out'[2] = i /\ out'[3] = a /\ <<j, b>> # <<i, a>> => st'[j][b] = st[j][b]]_vars
Typed == \A i \in Insts, a \in Names : st[i][a][1] = "fixed" => \A v \in st[i][a][2] : Accepts(Decl[a], v) \/ a = "defs"
RefusedKeeps == [][out'[1] = "refused" => st' = st]_vars
Emit == IF "OUT" \in DOMAIN IOEnv /\ script # <<>>
        THEN PrintT("SCN " \o ToJson([decl |-> Decl, script |-> script])) ELSE TRUE
=============================================================================
