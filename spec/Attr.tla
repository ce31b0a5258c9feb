--------------------------------- MODULE Attr ---------------------------------
(* Declared attributes.  A value is <<tag, payload>>: i(nteger), f(loat),    *)
(* s(tring), b(ool), n(one), x (anything else) with a text as payload; l(ist)*)
(* and t(uple) with a sequence of values; d(ict) with a sequence of pairs.   *)
(* A declaration is a record [kind, cands, entry]; an attribute is unset,    *)
(* until it is read (then it is its default) or assigned, and fixed from     *)
(* there on.                                                                 *)
EXTENDS Util

IsSeqV(v) == v[1] \in {"l", "t"}
InCands(d, v) == d.cands = <<>> \/ \E c \in ToSet(d.cands) : c = v
Number(v) == v[1] \in {"i", "f"}
\* A rectangular table of numbers, at least one of them a float.
Table(v) ==
  /\ v[1] = "l" /\ v[2] # <<>>
  /\ \A r \in ToSet(v[2]) : IsSeqV(r) /\ \A x \in ToSet(r[2]) : Number(x)
  /\ \A i, j \in DOMAIN v[2] : Len(v[2][i][2]) = Len(v[2][j][2])
  /\ (v[2][1][2] = <<>> \/ \E r \in ToSet(v[2]) : \E x \in ToSet(r[2]) : x[1] = "f")
HasKey(dct, k) == \E p \in ToSet(dct[2]) : p[1] = <<"s", k>>
IsGas(k) == k[1] = "s" /\ Len(k[2]) >= 2 /\ SubSeq(k[2], Len(k[2]) - 1, Len(k[2])) = "_g"
IntOf(v) == IF Ch(v[2], 1) = "-" THEN -NumVal(v[2], 2, 0) ELSE NumVal(v[2], 1, 0)
Range3(v) == /\ IsSeqV(v) /\ Len(v[2]) = 3 /\ \A x \in ToSet(v[2]) : x[1] = "i"
             /\ LET a == IntOf(v[2][1]) b == IntOf(v[2][2]) c == IntOf(v[2][3]) IN b >= a /\ c <= b - a

Accepts(d, v) ==
  CASE d.kind = "Integer" -> v[1] = "i" /\ InCands(d, v)
    [] d.kind = "Float" -> v[1] \in {"i", "f"} /\ InCands(d, v)
    [] d.kind = "String" -> v[1] = "s" /\ InCands(d, v)
    [] d.kind = "Bool" -> v[1] = "b" /\ InCands(d, v)
    [] d.kind = "Dict" -> v[1] = "d" /\ InCands(d, v)
    [] d.kind = "Sequence" -> IsSeqV(v) /\ \A x \in ToSet(v[2]) : (d.entry = "" \/ x[1] = d.entry) /\ InCands(d, x)
    [] d.kind = "FloatList2D" -> Table(v)
    [] d.kind = "SpaceVectors" -> Table(v) /\ Len(v[2][1][2]) = 3
    [] d.kind = "RefEnergies" -> v[1] = "d" /\ \A p \in ToSet(v[2]) : p[1][1] = "s" /\ p[2][1] = "f"
    [] d.kind = "SpeciesDefinitions" -> v[1] = "d" /\ \A p \in ToSet(v[2]) : IsGas(p[1]) => p[2][1] = "d" /\ HasKey(p[2], "pressure")
    [] d.kind = "AnalysisInterval" -> v[1] = "i" \/ (IsSeqV(v) /\ \A x \in ToSet(v[2]) : x[1] = "i" \/ Range3(x))
    [] d.kind = "Any" -> TRUE

\* State of one attribute: <<"unset">>, <<"fixed", values it may show>> or,
\* where it is not known whether it has been read, <<"maybe">>.
Unset == <<"unset">>
Maybe == <<"maybe">>
Fixed(S) == <<"fixed", S>>
Shows(d, st) == IF st[1] = "fixed" THEN st[2] ELSE {d.default}
AfterRead(d, st, v) == Fixed({v})
\* <<may the assignment succeed, may it fail>>
MaySucceed(d, st, v) == Accepts(d, v) /\ st[1] # "fixed"
MayFail(d, st, v) == ~Accepts(d, v) \/ st[1] # "unset"
=============================================================================
