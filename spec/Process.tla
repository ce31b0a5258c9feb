-------------------------------- MODULE Process --------------------------------
(* Process definitions of a kinetic Monte Carlo model and the elementary      *)
(* processes they stand for.  A definition is a function from the keys given  *)
(* to values of Python, [t |-> type, s |-> text, n |-> number, v |-> items]   *)
(* (floats in units of 10^-7).                                                *)
EXTENDS Util

Needed == {"reaction", "coordinates_group", "elements_before", "elements_after", "basis_sites"}
IsSeq(x, types) == x.t \in {"list", "tuple"} /\ \A i \in DOMAIN x.v : x.v[i].t \in types
Coincide(a, b) == \A i \in DOMAIN a.v : Abs(a.v[i].n - b.v[i].n) <= 10
ValidCoords(cs) == /\ IsSeq(cs, {"list"})
                   /\ \A i \in DOMAIN cs.v : IsSeq(cs.v[i], {"float"}) /\ Len(cs.v[i].v) = 3
                   /\ \A i, j \in DOMAIN cs.v : i < j => ~Coincide(cs.v[i], cs.v[j])
Texts(x) == [i \in DOMAIN x.v |-> x.v[i].s]
ValidDef(d, rxns, elements) ==
  /\ Needed \subseteq DOMAIN d
  /\ d["reaction"].t = "str" /\ d["reaction"].s \in ToSet(rxns)
  /\ IsSeq(d["coordinates_group"], {"list"})
  /\ \A i \in DOMAIN d["coordinates_group"].v : ValidCoords(d["coordinates_group"].v[i])
  /\ \A k \in {"elements_before", "elements_after"} :
       /\ IsSeq(d[k], {"str"})
       /\ \A i \in DOMAIN d["coordinates_group"].v : Len(d[k].v) = Len(d["coordinates_group"].v[i].v)
       /\ \A x \in ToSet(Texts(d[k])) : x = "*" \/ x \in ToSet(elements)
  /\ IsSeq(d["basis_sites"], {"int"})

Flag(d, k) == k \in DOMAIN d /\ d[k].n = 1
Species(d) == IF "redist_species" \in DOMAIN d THEN Texts(d["redist_species"]) ELSE <<>>
Points(cs) == [i \in DOMAIN cs.v |-> [j \in DOMAIN cs.v[i].v |-> cs.v[i].v[j].n]]
\* The pair of processes (or the single one) for one site and coordinate set;
\* dir tells which rate of the reaction the process has.
Pair(d, site, cs) ==
  LET p == [rxn |-> d["reaction"].s, dir |-> "->", coords |-> Points(cs), before |-> Texts(d["elements_before"]),
            after |-> Texts(d["elements_after"]), basis |-> <<site>>, fast |-> Flag(d, "fast"), redist |-> Flag(d, "redist"), species |-> Species(d)]
      q == [p EXCEPT !.dir = "<-", !.before = p.after, !.after = p.before, !.redist = FALSE, !.species = <<>>]
  IN  IF p.redist THEN <<p>> ELSE <<p, q>>
Expand(d) == LET cg == d["coordinates_group"].v IN
  FlattenSeq([b \in DOMAIN d["basis_sites"].v |-> FlattenSeq([i \in DOMAIN cg |-> Pair(d, d["basis_sites"].v[b].n, cg[i])])])
Label(p) == p.rxn \o "(" \o p.dir \o ")"
Mapping(ps) == LET slow == SelectSeq(ps, LAMBDA p : ~p.fast) IN [i \in DOMAIN slow |-> Label(slow[i])]
=============================================================================
