----------------------------- MODULE TraceRates -----------------------------
(* C07, C08: recorded rate constants; C29: recorded gas corrections.         *)
EXTENDS Rates, TraceBase

VARIABLES l, net, s, algo
vars == <<l, net, s, algo>>

Tol == 25
FunOf(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> LnRatio(ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2])]
NoS == [T |-> 1, act |-> 0, area |-> 0, bad |-> "", p |-> [x \in {} |-> 0]]

\* The exception the setting calls for, if any.
Refused(kind, rxn) == IF kind # "CT" THEN ""
  ELSE IF s.bad = "area" THEN "AttributeError"
  ELSE IF s.bad = "ratio" /\ GasForms(IS(rxn)) # <<>> THEN "ParameterError" ELSE ""
Near(a, b) == Abs(a - b) <= Tol

AllFails(e) ==
  LET ref == {Refused(algo, net[r]) : r \in DOMAIN net} \ {""} IN
  IF ref # {} THEN Failing({<<"refused", e.exc # "">>}) ELSE
  IF e.exc # "" THEN {"raised"} ELSE IF Len(e.lf) # Len(net) \/ Len(e.lr) # Len(net) THEN {"shape"} ELSE
  LET want == [r \in DOMAIN net |-> Rate(algo, net[r], e.e[r], s, FALSE)] IN Failing({
    <<"forward-constant", \A r \in DOMAIN net : Near(e.lf[r], want[r].f)>>,
    <<"reverse-constant", \A r \in DOMAIN net : Near(e.lr[r], want[r].r)>>,
    <<"detailed-balance", algo = "TST" => \A r \in DOMAIN net : Abs(e.lf[r] - e.lr[r] + 100 * (e.e[r].gf - e.e[r].gr)) <= 2>>})

OneFails(e) ==
  LET ref == Refused(e.kind, net[e.i]) IN
  IF ref # "" THEN Failing({<<"refused", e.exc = ref>>}) ELSE
  IF e.exc # "" THEN {"raised"} ELSE
  LET want == Rate(e.kind, net[e.i], e.e, s, e.incl) IN Failing({
    <<"forward-rate", Near(e.lf, want.f)>>, <<"reverse-rate", Near(e.lr, want.r)>>})

ShomateFails(e) == IF e.exc # "" THEN {"raised"} ELSE
  LET want == Shomate(e.g, e.T) IN Failing({<<"shomate", IF want = 0 THEN e.out = 0 ELSE Abs(e.out - want) <= ShomateTol(e.T)>>})
EntropyFails(e) == IF e.exc # "" THEN {"raised"} ELSE
  LET want == EntropyKT(e.g, LnMass(IF e.w > 0 THEN e.w ELSE FormulaMass(ParseFormula(e.g))),
                        IF e.p = <<>> THEN LnP0 + LnRatio(e.q) ELSE LnRatio(e.p), e.T)
  IN  Failing({<<"partition-function", IF HasRotVib(e.g) THEN Near(e.out, want) ELSE e.out = 0>>})

Fails(e) == CASE e.ev = "new" -> IF e.exc = "" THEN {} ELSE {"raised"}
              [] e.ev = "all" -> AllFails(e)
              [] e.ev = "one" -> OneFails(e)
              [] e.ev = "shomate" -> ShomateFails(e)
              [] e.ev = "entropy" -> EntropyFails(e)
              [] OTHER -> {e.ev}

Setting(e) == [T |-> e.T, act |-> LnRatio(e.act), area |-> IF e.area[1] > 0 THEN LnE(e.area[1], e.area[2]) ELSE 0,
               bad |-> IF e.area[1] <= 0 THEN "area" ELSE IF e.act[1] > e.act[2] THEN "ratio" ELSE "", p |-> FunOf(e.p)]
Init == l = 1 /\ net = <<>> /\ s = NoS /\ algo = "TST"
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ Report(l, e, Fails(e))
           /\ IF e.ev = "new" THEN net' = [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])] /\ s' = Setting(e) /\ algo' = e.algo
              ELSE UNCHANGED <<net, s, algo>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
