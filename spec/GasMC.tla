------------------------------- MODULE GasMC --------------------------------
(* Gas corrections over a grid of gases, temperatures, masses and pressures: *)
(* laws the formulas must obey, and scenarios for the real corrector.        *)
EXTENDS Gas, Json, IOUtils

CONSTANTS Temps, Presses   \* pressures in Pa

VARIABLES g, T, w, p
vars == <<g, T, w, p>>
Names == {RotVibTable[i][1] : i \in DOMAIN RotVibTable}
ShNames == {ShomateTable[i][1] : i \in DOMAIN ShomateTable}
Weights == {20159, 280101}
Init == g \in Names \cup ShNames /\ T \in Temps /\ w \in Weights /\ p \in Presses
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Q(mm, pp, tt) == EntropyKT(g, LnMass(mm), Ln(pp), tt)
\* Doubling the pressure raises the free energy by kT ln 2.
PressureLaw == g \in Names => Abs(Q(w, 2 * p, T) - Q(w, p, T) - Ln(2)) <= 3
\* Quadrupling the mass multiplies the partition function by 8.
MassLaw == g \in Names => Abs(Q(4 * w, p, T) - Q(w, p, T) + 3 * Ln(2)) <= 6
\* The contribution of a hotter gas is lower.
Cooling == g \in Names => Q(w, p, T + 200) < Q(w, p, T)
Falling == g \in ShNames /\ T < 900 => Shomate(g, T + 100) < Shomate(g, T)
Emit == IF "OUT" \in DOMAIN IOEnv
        THEN PrintT("SCN " \o ToJson([T |-> T, p |-> <<1, 2>>, gas |->
          (IF g \in Names THEN <<[g |-> g, m |-> "entropy", T |-> 0, w |-> w, p |-> <<p, 1>>]>> ELSE <<>>)
          \o (IF g \in ShNames THEN <<[g |-> g, m |-> "shomate", T |-> 0, w |-> 0, p |-> <<>>]>> ELSE <<>>)]))
        ELSE TRUE
=============================================================================
