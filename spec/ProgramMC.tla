------------------------------ MODULE ProgramMC -------------------------------
(* All short programs, run one statement at a time.                           *)
EXTENDS Program, TLC, Json, IOUtils
CONSTANTS Names, Numbers, Kinds, MaxLen
Stmts == {<<k, n, m, v>> : k \in Kinds, n \in Names, m \in Names, v \in Numbers}
\* What a statement does not use does not vary.
Canon(s) == /\ s[1] \in {"set", "glob", "imp"} => s[3] = s[2]
            /\ s[1] = "del" => s[3] = s[2] /\ s[4] = Min(Numbers)
VARIABLES prog, env, ok
vars == <<prog, env, ok>>
Init == prog = <<>> /\ env = [k \in {} |-> 0] /\ ok = TRUE
Next == /\ ok /\ Len(prog) < MaxLen
        /\ \E s \in Stmts : /\ Canon(s) /\ prog' = Append(prog, s) /\ ok' = Runs(env, s)
                            /\ env' = IF Runs(env, s) THEN Exec(env, s) ELSE env
Spec == Init /\ [][Next]_vars
\* Running a program at once is running it statement by statement.
Stepwise == LET r == RunAll(prog) IN IF ok THEN ~r.failed /\ r.env = env ELSE r.failed
\* A statement binds its own names only; functions see what plain statements see.
Frame == [][ok' => \A n \in DOMAIN env \cup DOMAIN env' :
               LET s == prog'[Len(prog')] IN
               n # s[2] /\ ~(s[1] = "late" /\ n = s[3]) => n \in DOMAIN env /\ n \in DOMAIN env' /\ env'[n] = env[n]]_vars
SameAsPlain == \A s \in Stmts : s[1] = "fun" => LET t == [s EXCEPT ![1] = "add"] IN Runs(env, s) = Runs(env, t) /\ (Runs(env, s) => Exec(env, s) = Exec(env, t))
Emit == IF "OUT" \in DOMAIN IOEnv /\ prog # <<>> THEN PrintT("SCN " \o ToJson([prog |-> prog])) ELSE TRUE
=============================================================================
