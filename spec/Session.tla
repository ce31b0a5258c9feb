-------------------------------- MODULE Session --------------------------------
(* Several models in one process.  A model is its configuration and its own  *)
(* history of energies; an evaluation is answered by a function of the model *)
(* (configuration, energies in force) and of the arguments only.             *)
EXTENDS Util

\* Energies in force: none, an energy set followed by changes made to it.
NoEnergy == <<>>
Parse(eng, e) == <<e>>
Change(eng, how) == IF eng = NoEnergy THEN eng ELSE Append(eng, how)
\* Key of the answer: everything the answer may depend on.
AnswerKey(m, kind, c, o) == <<m.cfg, m.eng, m.regs, kind, c, o>>
Fresh(k) == [cfg |-> k, eng |-> NoEnergy, regs |-> <<>>]
Step(ms, op) ==
  CASE op[1] = "new"      -> [ms EXCEPT ![op[2]] = Fresh(op[3])]
    [] op[1] = "parse"    -> [ms EXCEPT ![op[2]].eng = Parse(@, op[3])]
    [] op[1] = "badparse" -> ms
    [] op[1] = "change"   -> [ms EXCEPT ![op[2]].eng = Change(@, op[3])]
    [] op[1] = "register" -> [ms EXCEPT ![op[2]].regs = Append(@, op[3])]
    [] OTHER -> ms
=============================================================================
