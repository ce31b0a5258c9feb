------------------------------- MODULE Program --------------------------------
(* Input files are Python programs: what the names of a file are bound to     *)
(* after it ran.  A statement is <<kind, name, other name, number>>.          *)
EXTENDS Util

\* Environments are functions from names to numbers.
Bind(env, n, v) == [k \in DOMAIN env \cup {n} |-> IF k = n THEN v ELSE env[k]]
Unbind(env, n) == [k \in DOMAIN env \ {n} |-> env[k]]
Known(env, n) == n \in DOMAIN env

\* Can the statement run?  (A failing one leaves a NameError.)
Runs(env, s) == CASE s[1] \in {"set", "glob", "late", "imp"} -> TRUE
                  [] s[1] = "del" -> Known(env, s[2])
                  [] s[1] = "loop" -> s[4] = 0 \/ (s[2] = s[3] \/ Known(env, s[3]))
                  [] OTHER -> Known(env, s[3])
Exec(env, s) ==
  LET n == s[2] m == s[3] k == s[4] IN
  CASE s[1] = "set" -> Bind(env, n, k)                    \* n = k
    [] s[1] = "glob" -> Bind(env, n, k)                   \* a function assigns the global n
    [] s[1] = "imp" -> Bind(env, n, k)                    \* import math, n = math.floor(k)
    [] s[1] = "add" -> Bind(env, n, env[m] + k)           \* n = m + k
    [] s[1] = "fun" -> Bind(env, n, env[m] + k)           \* n = f(), f returns m + k
    [] s[1] = "gen" -> Bind(env, n, 2 * (env[m] + k))     \* n = sum(x + m for x in (k, k))
    [] s[1] = "lam" -> Bind(env, n, env[m] * k)           \* n = (lambda x: x * m)(k)
    [] s[1] = "loop" -> Bind(env, n, IF n = m THEN 0 ELSE IF k = 0 THEN 0 ELSE env[m] * k)   \* n = 0, then k times n = n + m
    [] s[1] = "late" -> Bind(Bind(env, m, k), n, k)       \* f returns m, m = k, n = f()
    [] s[1] = "del" -> Unbind(env, n)

Failed == [failed |-> TRUE]
RECURSIVE RunFrom(_, _, _)
RunFrom(prog, i, env) == IF i > Len(prog) THEN [failed |-> FALSE, env |-> env]
                         ELSE IF ~Runs(env, prog[i]) THEN Failed
                         ELSE RunFrom(prog, i + 1, Exec(env, prog[i]))
RunAll(prog) == RunFrom(prog, 1, [k \in {} |-> 0])
=============================================================================
