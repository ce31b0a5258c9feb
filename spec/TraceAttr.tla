------------------------------- MODULE TraceAttr -------------------------------
(* C17: scripts of reads and assignments on real attributes.                 *)
EXTENDS Attr, TraceBase
VARIABLES l

DeclOf(e, a) == LET p == CHOOSE p \in ToSet(e.decl) : p[1] = a IN p[2]
AttrsOf(e) == {p[1] : p \in ToSet(e.decl)}
StartOf(e, i, a) == LET S == {p \in ToSet(e.start) : p[1] = i /\ p[2] = a} IN
                    IF S = {} THEN (IF e.known THEN Unset ELSE Maybe) ELSE Fixed({(CHOOSE p \in S : TRUE)[3]})

\* One outcome o = <<op, instance, attribute, value, exception, shown>>.
Judge(d, st, o) ==
  CASE o[1] = "read" -> {<<"read-raised", o[5] = "">>, <<"read-value", o[5] = "" => o[6] \in Shows(d, st)>>}
    [] o[1] = "mutate" -> {<<"read-raised", o[5] = "">>, <<"read-value", o[5] = "" => o[4] \in Shows(d, st)>>,
                           <<"copied", o[5] = "" /\ d.deep => o[6] = o[4]>>}
    [] o[1] = "assign" ->
         {<<"accepted-invalid", o[5] = "" => Accepts(d, o[4])>>,
          <<"accepted-twice", o[5] = "" => st[1] # "fixed">>,
          <<"refused-valid", o[5] # "" => MayFail(d, st, o[4])>>,
          <<"error-kind", o[5] \in {"", "ValueError", "SetupError", "AttributeError", "TypeError"}>>}
After(d, st, o) ==
  CASE o[1] = "read" -> IF o[5] = "" THEN Fixed({o[6]}) ELSE st
    [] o[1] = "mutate" -> IF o[5] = "" THEN Fixed({o[6]}) ELSE st
    [] o[1] = "assign" -> IF o[5] = "" THEN Fixed({o[4]}) ELSE st
RECURSIVE Walk(_, _, _)
Walk(e, k, st) ==
  IF k > Len(e.out) THEN {} ELSE
  LET o == e.out[k] d == DeclOf(e, o[3]) s == st[o[2]][o[3]] IN
  {c \in Judge(d, s, o) : ~c[2]} \union Walk(e, k + 1, [st EXCEPT ![o[2]][o[3]] = After(d, s, o)])

Fails(e) ==
  CASE e.ev = "script" -> {c[1] : c \in Walk(e, 1, [i \in 1..e.insts |-> [a \in AttrsOf(e) |-> StartOf(e, i, a)]])}
    [] e.ev = "build" -> LET ok == \A p \in ToSet(e.given) : Accepts(DeclOf(e, p[1]), p[2]) IN
         Failing({<<"built-invalid", e.exc = "" => ok>>, <<"refused-valid", e.exc # "" => ~ok>>,
                  <<"shown", e.exc = "" => \A p \in ToSet(e.shown) :
                     p[2] = (IF \E g \in ToSet(e.given) : g[1] = p[1] THEN (CHOOSE g \in ToSet(e.given) : g[1] = p[1])[2]
                             ELSE DeclOf(e, p[1]).default)>>})
    [] e.ev = "query" -> Failing({<<"assigned-property", e.exc = "AttributeError">>, <<"property-changed", e.same>>})
    [] e.ev = "component" -> Failing({
         <<"accepted-wrong-kind", e.exc = "" => e.right>>,
         <<"refused-right-kind", e.exc # "" => ~e.right>>,
         <<"installed", e.exc = "" => e.is_new>>,
         <<"kept", e.exc # "" => e.is_old>>,
         <<"others", e.others_same>>})
    [] OTHER -> {e.ev}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
