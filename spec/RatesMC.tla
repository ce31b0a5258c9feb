------------------------------ MODULE RatesMC -------------------------------
(* A model whose energies are reloaded and whose rates are queried with and  *)
(* without pressure: detailed balance and the collision theory limits.       *)
EXTENDS Rates, Json, IOUtils

CONSTANTS Temps, Barriers, DGs, MaxLen

DGsDef == {-3000, 500}
DGsFull == {-3000, -200, 0, 500, 2500}
RxnTexts == {"CO_g + *_s -> CO_s", "2O_s -> O2_g + 2*_s", "2H2_g + 4*_s -> 4H_s", "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s",
             "CO_g + O_s -> CO2_g + *_s", "CO_s -> OC_s", "N2_g + 3H2_g + *_s -> 2NH3_g + *_s", "CO_l + *_s -> CO_s"}
Single == {t \in RxnTexts : t # "N2_g + 3H2_g + *_s -> 2NH3_g + *_s"}
PressureOf == ("CO_g" :> <<1, 100>> @@ "O2_g" :> <<1, 5>> @@ "H2_g" :> <<3, 1>> @@ "CO2_g" :> <<1, 1>> @@ "N2_g" :> <<2, 1>> @@ "NH3_g" :> <<1, 2>>)
LnP == [g \in DOMAIN PressureOf |-> LnRatio(PressureOf[g])]
Areas == {<<9, 1>>}

VARIABLES text, rxn, T, algo, e, last, hist
vars == <<text, rxn, T, algo, e, last, hist>>
S == [T |-> T, act |-> LnRatio(<<4, 9>>), area |-> LnE(9, -20), p |-> LnP]

Energies == {[gf |-> b, gr |-> b - d] : b \in Barriers, d \in DGs}
Zero == [gf |-> 0, gr |-> 0]
Init == /\ text \in RxnTexts /\ rxn = ParseRxn(text) /\ T \in Temps /\ algo \in {"TST", "CT"}
        /\ algo = "CT" => text \in Single
        /\ e = Zero /\ last = [f |-> 0, r |-> 0, incl |-> FALSE, of |-> Zero] /\ hist = <<>>
Reload == \E x \in Energies : x # e /\ e' = x /\ UNCHANGED <<last, hist>>
Query == \E incl \in BOOLEAN :
  LET q == Rate(algo, rxn, e, S, incl) IN
  /\ last' = [f |-> q.f, r |-> q.r, incl |-> incl, of |-> e]
  /\ hist' = Append(hist, [gf |-> e.gf, gr |-> e.gr, incl |-> incl]) /\ UNCHANGED e
Next == Len(hist) < MaxLen /\ UNCHANGED <<text, rxn, T, algo>> /\ (Reload \/ Query)
Spec == Init /\ [][Next]_vars

Asked == hist # <<>>
DetailedBalance == Asked /\ algo = "TST" /\ ~last.incl => last.f - last.r = -100 * (last.of.gf - last.of.gr)
PressureShift == Asked /\ algo = "TST" /\ last.incl =>
  LET q == RateTST(rxn, last.of, S, FALSE) IN last.f - q.f = LnPressures(IS(rxn), LnP) /\ last.r - q.r = LnPressures(FS(rxn), LnP)
\* No reverse barrier below zero after an adsorption, whatever the entropy.
ReverseBounded == Asked /\ algo = "CT" /\ GasForms(IS(rxn)) # <<>> => last.r <= LnPre(T)
\* Both directions share one equilibrium constant unless the bound is hit.
OneK == Asked /\ algo = "CT" /\ GasForms(IS(rxn)) # <<>> /\ last.r < LnPre(T) =>
  LET g == GasForms(IS(rxn))[1]
      c == g.stoich * EntropyKT(g.ss, LnMass(FormulaMass(g)), LnP0 + (IF last.incl THEN LnP[g.ss] ELSE 0), T)
  IN  Abs((last.f - last.r) + 100 * (last.of.gf - last.of.gr) - c) <= 1
View0 == <<text, T, algo, e, last, Len(hist)>>
Emit == IF "OUT" \in DOMAIN IOEnv /\ Len(hist) = MaxLen
        THEN PrintT("SCN " \o ToJson([rxns |-> <<text>>, T |-> T, algo |-> algo, hist |-> hist])) ELSE TRUE
=============================================================================
