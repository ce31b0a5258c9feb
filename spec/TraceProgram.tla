----------------------------- MODULE TraceProgram -----------------------------
(* C32: what is read from Python input files and from the files and texts     *)
(* SCAKS writes.                                                              *)
EXTENDS Program, TraceBase
VARIABLES l
Default(n) == CASE n = "temperature" -> 298 [] n = "unitcell_area" -> 0 [] n = "active_ratio" -> 1
AttrOf(env, n) == IF Known(env, n) THEN env[n] ELSE Default(n)
FunOf(q) == [k \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = k][2]]

\* A model made from a setup file, a dictionary or both (the dictionary counts).
SetupFails(e) ==
  LET r == IF e.route = "file" THEN RunAll(e.prog) ELSE [failed |-> FALSE, env |-> FunOf(e.dict)] IN
  IF e.route = "neither" THEN Failing({<<"nothing-given", e.exc = "ValueError">>})
  ELSE IF r.failed THEN Failing({<<"failing-program-raises", e.exc = "NameError">>})
  ELSE IF ~e.parser THEN Failing({<<"parser-required", e.exc = "ParameterError">>})
  ELSE IF e.exc # "" THEN {"file-refused"}
  ELSE Failing({<<"attributes", \A i \in DOMAIN e.attrs : e.attrs[i][2] = AttrOf(r.env, e.attrs[i][1])>>,
                <<"reactions", e.rxns = e.wrote>>,
                <<"unknown-names-left-out", e.extra = <<>>>>})

\* Numbers named in what a file defines; use is the sequence of names used.
ReadFails(e) ==
  LET r == RunAll(e.prog) IN
  IF r.failed \/ \E i \in DOMAIN e.use : ~Known(r.env, e.use[i]) THEN Failing({<<"failing-program-raises", e.exc = "NameError">>})
  ELSE IF e.exc # "" THEN {"file-refused"}
  ELSE Failing({<<"values-read", e.got = [i \in DOMAIN e.use |-> IF e.mod = 0 THEN r.env[e.use[i]] ELSE r.env[e.use[i]] % e.mod]>>})

\* Templates: every species, or every reaction, once; zeros mean zero energies.
AbsFails(e) ==
  IF e.exc # "" THEN {"template-readable"} ELSE
  Failing({<<"template-species", Len(e.keys) = Cardinality(Range(e.keys)) /\ Range(e.keys) = Range(e.species)>>,
           <<"template-zeros", \A i \in DOMAIN e.zeros : e.zeros[i] = 0>>,
           <<"template-relative-zeros", Len(e.rel) = 3 * Len(e.rxns) /\ \A i \in DOMAIN e.rel : e.rel[i] = 0>>,
           <<"template-filled", e.filled = e.fill>>})
RelFails(e) ==
  IF e.exc # "" THEN {"template-readable"} ELSE
  Failing({<<"template-slots", e.slots = Len(e.rxns)>>, <<"template-order", e.comments = e.rxns>>,
           <<"template-filled", e.Ga = e.ga /\ e.dG = e.dg>>})

\* Times in thousandths of a second.
TimeFails(e) == IF e.exc # "" THEN {"time"} ELSE
  Failing({<<"time-parts", e.h >= 0 /\ e.m >= 0 /\ e.m < 60 /\ e.s >= 0 /\ e.s < 60000>>,
           <<"time-sum", Abs(e.h * 3600000 + e.m * 60000 + e.s - e.ms) <= 1>>})
TextFails(e) == Failing({<<"text-read-back", e.exc = "" /\ e.got = e.value>>})
ScriptFails(e) == IF e.exc # "" THEN {"script-readable"} ELSE
  Failing({<<"script-objects", e.got = e.objects>>, <<"script-file", e.file = e.named>>, <<"script-text", e.same>>})

Fails(e) == CASE e.ev = "setup" -> SetupFails(e)
              [] e.ev = "read" -> ReadFails(e)
              [] e.ev = "abs" -> AbsFails(e)
              [] e.ev = "rel" -> RelFails(e)
              [] e.ev = "time" -> TimeFails(e)
              [] e.ev = "text" -> TextFails(e)
              [] e.ev = "script" -> ScriptFails(e)
              [] OTHER -> {e.ev}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
