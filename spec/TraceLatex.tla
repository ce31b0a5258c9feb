------------------------------ MODULE TraceLatex ------------------------------
(* C33: LaTeX texts and formula algebra.                                      *)
EXTENDS Latex, TraceBase
VARIABLES l
TexFails(e) ==
  LET rxn == ParseRxn(e.text) IN
  IF e.exc # "" THEN {"raised"} ELSE Failing({
    <<"reaction-text", e.tex = RxnTex(rxn)>>,
    <<"state-text", e.states = [s \in DOMAIN rxn |-> StateTex(rxn[s])]>>,
    <<"formula-text", e.forms = [s \in DOMAIN rxn |-> [i \in DOMAIN rxn[s] |-> FormTex(rxn[s][i])]]>>,
    <<"species-list", e.list = [s \in DOMAIN rxn |-> [i \in DOMAIN rxn[s] |-> rxn[s][i].ss]]>>,
    <<"reverse-text", e.rev = RxnTex(Reverse(rxn))>>})
PairFails(e) ==
  LET f == ParseFormula(e.a) g == ParseFormula(e.b) IN
  Failing({<<"formula-conservation", e.conserve = (IF SameFormula(f, g) THEN "ok" ELSE "ValueError")>>,
           <<"formula-sum", e.exc = "" /\ LET st == ParseState(e.sum) IN Len(st) = 2 /\ [i \in DOMAIN st |-> <<st[i].stoich, st[i].ss>>] = <<<<f.stoich, f.ss>>, <<g.stoich, g.ss>>>>>>,
           <<"state-conservation", e.state = (IF SameState(<<f>>, <<g>>) THEN "ok" ELSE "ValueError")>>,
           <<"other-kind", e.other = "ParameterError">>})
LogFails(e) ==
  LET net == [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])]
      exp == Logged(e.calls, Len(net), Cardinality(Adsorbates(net)))
      Of(kind) == CASE kind = "f" -> e.f [] kind = "r" -> e.r [] kind = "d" -> e.d
  IN  IF e.exc # "" THEN {"raised"} ELSE IF Len(e.lines) # Len(exp) THEN {"number-of-lines"} ELSE Failing({
        <<"braces", \A i \in DOMAIN exp : Balanced(e.lines[i][1]) /\ Balanced(e.lines[i][2])>>,
        <<"left-side", \A i \in DOMAIN exp : Bare(e.lines[i][1], 1) = Left(exp[i][1], exp[i][2])>>,
        <<"right-side", \A i \in DOMAIN exp : e.lines[i][2] = Of(exp[i][1])[exp[i][2]]>>})
Fails(e) == CASE e.ev = "tex" -> TexFails(e) [] e.ev = "pair" -> PairFails(e) [] e.ev = "log" -> LogFails(e) [] OTHER -> {e.ev}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
