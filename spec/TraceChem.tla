------------------------------ MODULE TraceChem ------------------------------
(* C01-C03: what the code did with reaction texts must be what Chem says.    *)
EXTENDS Chem, TraceBase

VARIABLES l, accepted, rejected
vars == <<l, accepted, rejected>>

Net_(e) == [i \in DOMAIN e.rxns |-> ParseRxn(e.rxns[i])]

\* --- C03: decomposition ---------------------------------------------------
Skel(rxn) == [s \in DOMAIN rxn |-> [i \in DOMAIN rxn[s] |-> <<rxn[s][i].stoich, rxn[s][i].ss>>]]

ParseFails(e) ==
  LET rxn == ParseRxn(e.text)
      sameShape == Len(e.states) = Len(rxn) /\ \A s \in DOMAIN rxn : Len(e.states[s]) = Len(rxn[s])
      All(P(_, _)) == sameShape /\ \A s \in DOMAIN rxn : \A i \in DOMAIN rxn[s] : P(e.states[s][i], rxn[s][i])
      exp == [s \in DOMAIN rxn |-> [el |-> Pairs(StateElems(rxn[s])), si |-> Pairs(StateSites(rxn[s]))]]
      rev == ParseRxn(e.rev)
      rev2 == ParseRxn(e.rev2)
      gasOf(st) == LET q == SelectSeq(st, LAMBDA f : f.type = "gas")
                   IN [i \in DOMAIN q |-> <<q[i].stoich, q[i].ss>>]
  IN  IF e.exc # "" THEN {"raised"} ELSE Failing({
        <<"states", sameShape>>,
        <<"formula-text", All(LAMBDA a, b : a.text = b.text)>>,
        <<"stoichiometry", All(LAMBDA a, b : a.stoich = b.stoich)>>,
        <<"species", All(LAMBDA a, b : a.sp = b.sp)>>,
        <<"species-site", All(LAMBDA a, b : a.ss = b.ss)>>,
        <<"nsite", All(LAMBDA a, b : a.nsite = b.nsite)>>,
        <<"site", All(LAMBDA a, b : a.site = b.site)>>,
        <<"type", All(LAMBDA a, b : a.type = b.type)>>,
        <<"elements", All(LAMBDA a, b : ToSet(a.elems) = Pairs(b.elems))>>,
        <<"species-elements", All(LAMBDA a, b : ToSet(a.spElems) = Pairs(b.spElems))>>,
        <<"sites", All(LAMBDA a, b : ToSet(a.sites) = Pairs(b.sites))>>,
        <<"state-elements", sameShape /\ \A s \in DOMAIN rxn : ToSet(e.stateElems[s]) = exp[s].el>>,
        <<"state-sites", sameShape /\ \A s \in DOMAIN rxn : ToSet(e.stateSites[s]) = exp[s].si>>,
        <<"state-species", sameShape /\ \A s \in DOMAIN rxn :
             ToSet(e.stateSpecies[s]) = {<<rxn[s][i].ss, Coef(rxn[s], rxn[s][i].ss)>> : i \in DOMAIN rxn[s]}>>,
        <<"revert", Skel(rev) = Reverse(Skel(rxn))>>,
        <<"revert-twice", Skel(rev2) = Skel(rxn)>>,
        <<"adsorption-gases", e.ads = gasOf(IS(rxn))>>,
        <<"desorption-gases", e.des = gasOf(FS(rxn))>>,
        <<"conservation-decision", (e.conserve = "ok") = Conserved(rxn) /\ e.conserve \in {"ok", "ValueError"}>>})

\* --- C01: the gate --------------------------------------------------------
LoadFails(e) ==
  LET net == Net_(e)
      ok  == \A r \in DOMAIN net : Conserved(net[r])
  IN  Failing({
        <<"accepts-unbalanced", ~(e.outcome = "ok" /\ ~ok)>>,
        <<"rejects-balanced", ~(e.outcome # "ok" /\ ok)>>,
        <<"wrong-exception", e.outcome \in {"ok", "ValueError"}>>,
        <<"per-reaction", \A r \in DOMAIN net : (e.each[r] = "ok") = Conserved(net[r])>>})

\* --- C02: inventory and matrices ------------------------------------------
InvFails(e) ==
  LET net == Net_(e) IN
  IF e.exc # "" THEN {"raised"} ELSE Failing({
    <<"gases", e.gas = Sorted(Gases(net))>>,
    <<"liquids", e.liq = Sorted(Liquids(net))>>,
    <<"adsorbates", e.ads = Sorted(Adsorbates(net))>>,
    <<"transition-states", e.ts = Sorted(TStates(net))>>,
    <<"sites", e.sites = Sorted(SiteNames(net))>>,
    <<"site-matrix", e.smat = Matrix(net, SurfCols(net))>>,
    <<"fluid-matrix", e.fmat = Matrix(net, FluidCols(net))>>})

Fails(e) == CASE e.ev = "parse" -> ParseFails(e)
              [] e.ev = "load" -> LoadFails(e)
              [] e.ev = "inventory" -> InvFails(e)

Init == l = 1 /\ accepted = 0 /\ rejected = 0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ Report(l, e, Fails(e))
             /\ l' = l + 1
             /\ accepted' = accepted + (IF e.ev = "load" /\ e.outcome = "ok" THEN 1 ELSE 0)
             /\ rejected' = rejected + (IF e.ev = "load" /\ e.outcome # "ok" THEN 1 ELSE 0)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
