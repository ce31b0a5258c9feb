------------------------------ MODULE Network -------------------------------
(* A reaction network in operation.  The system is a finite inventory of     *)
(* molecules: any elementary reaction whose initial (final) state is present *)
(* may fire forward (backward).  The conservation gate decides which         *)
(* networks may run at all; element and site totals must then stay constant. *)
EXTENDS Chem, Json, IOUtils

CONSTANTS Pool,      \* formula texts the family is built from
          TSPool,    \* transition state texts ("" for none)
          MaxCopies  \* molecules of each species present initially

VARIABLES net,       \* the network: sequence of parsed reactions
          phase,     \* "proposed" | "running" | "rejected"
          inv        \* species on site -> number present
vars == <<net, phase, inv>>

States1 == {<<a>> : a \in Pool}
States2 == {<<a, b>> : a \in Pool, b \in Pool}
RECURSIVE JoinPlus(_)
JoinPlus(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o " + " \o JoinPlus(Tail(q))
StateTexts == {JoinPlus(q) : q \in States1 \cup States2}
TextOf(a, t, b) == IF t = "" THEN a \o " -> " \o b ELSE a \o " <-> " \o t \o " -> " \o b
Texts == {TextOf(a, t, b) : a \in StateTexts, t \in TSPool, b \in StateTexts}

Species(n) == {f.ss : f \in AllForms(n)}

Init == /\ \E t \in Texts : net = <<ParseRxn(t)>>
        /\ phase = "proposed"
        /\ inv = [s \in {} |-> 0]

\* The gate: model construction.
Load == /\ phase = "proposed"
        /\ IF \A r \in DOMAIN net : Conserved(net[r])
           THEN /\ phase' = "running"
                /\ inv' = [s \in Species(net) |-> MaxCopies]
           ELSE phase' = "rejected" /\ inv' = inv
        /\ UNCHANGED net

Fire(a, b) == /\ \A s \in DOMAIN inv : inv[s] >= Coef(a, s)
              /\ inv' = [s \in DOMAIN inv |-> inv[s] - Coef(a, s) + Coef(b, s)]
              /\ UNCHANGED <<net, phase>>
Forward(r) == phase = "running" /\ Fire(IS(net[r]), FS(net[r]))
Backward(r) == phase = "running" /\ Fire(FS(net[r]), IS(net[r]))

Next == Load \/ \E r \in DOMAIN net : Forward(r) \/ Backward(r)
Spec == Init /\ [][Next]_vars

\* Totals carried by the inventory.
FormOf(s) == CHOOSE f \in AllForms(net) : f.ss = s
ElemTotal(e) == SumOver(DOMAIN inv, LAMBDA s : inv[s] * (IF e \in DOMAIN FormOf(s).spElems THEN FormOf(s).spElems[e] ELSE 0))
SiteTotal(k) == SumOver(DOMAIN inv, LAMBDA s : IF FormOf(s).site = k THEN inv[s] * FormOf(s).nsite ELSE 0)
Elems == UNION {DOMAIN f.spElems : f \in AllForms(net)}

Inventory0 == [s \in Species(net) |-> MaxCopies]
ElementsConserved == phase = "running" =>
  \A e \in Elems : ElemTotal(e) = SumOver(Species(net), LAMBDA s : MaxCopies * (IF e \in DOMAIN FormOf(s).spElems THEN FormOf(s).spElems[e] ELSE 0))
SitesConserved == phase = "running" =>
  \A k \in SiteKinds(net) : SiteTotal(k) = SumOver(Species(net), LAMBDA s : IF FormOf(s).site = k THEN MaxCopies * FormOf(s).nsite ELSE 0)
\* The rejected networks are exactly those that could create or lose matter.
OnlyBadRejected == phase = "rejected" => \E r \in DOMAIN net : ~Conserved(net[r])
\* Reversal is an involution and keeps conservation.
ReverseOK == \A r \in DOMAIN net : Conserved(Reverse(net[r])) = Conserved(net[r]) /\ Reverse(Reverse(net[r])) = net[r]
\* A gate weakened to elements only (or to skip the transition state) is not enough.
=============================================================================
