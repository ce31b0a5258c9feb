------------------------------- MODULE TraceKmc -------------------------------
(* C20, C21: the files the analysis plugins write, against Kmc.               *)
EXTENDS Kmc, TraceBase
VARIABLES l, m
vars == <<l, m>>

Million == 1000000
Q == 100000
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Recs(n) == SubSeq(m.recs, 1, n)
Prefix(a, n, q) == Len(q) >= n /\ a = SubSeq(q, 1, n)

\* ---- coverages: one row at the start and one for every record -------------
CovFails(e) ==
  LET recs == Recs(e.n) g == e.got
      ty == <<m.first>> \o [i \in DOMAIN recs |-> recs[i].types]
      st == <<0>> \o [i \in DOMAIN recs |-> recs[i].step]
      ts == <<m.start>> \o [i \in DOMAIN recs |-> recs[i].t]
      n == Len(g.steps)
      cells == Cells(m.first, m.ratios)
      Row(i) == LET c == Coverages(ty[i], m.ratios, m.possible, m.empty) IN
                /\ \A k \in DOMAIN c : Near(g.cvgs[k][i], (c[k] * (Million \div 16)) \div cells, 2)
                /\ Near(Sum([k \in DOMAIN c |-> g.cvgs[k][i]]), Million, Len(c))
                /\ g.off <= 2    \* no digits are lost
  IN IF e.exc # "" THEN {"coverages-readable"} ELSE
     Failing({<<"coverages-types", g.types = m.possible /\ Len(g.cvgs) = Len(m.possible)>>,
              <<"coverages-complete", IF e.end THEN n = Len(st) ELSE n <= Len(st) /\ n > Len(st) - MaxOf(2, m.sizes.cov)>>,
              <<"coverages-lengths", Len(g.times) = n /\ \A k \in DOMAIN g.cvgs : Len(g.cvgs[k]) = n>>})
     \cup IF n > Len(st) \/ Len(g.times) # n \/ Len(g.cvgs) # Len(m.possible) \/ \E k \in DOMAIN g.cvgs : Len(g.cvgs[k]) # n THEN {} ELSE
     Failing({<<"coverages-steps", g.exact /\ Prefix(g.steps, n, st)>>,
              <<"coverages-times", Prefix(g.times, n, [i \in DOMAIN ts |-> ts[i] * 128])>>,
              <<"coverages-values", \A i \in 1..n : Row(i)>>})

CollectFails(e) == UNION {
  LET c == e.cases[i] cells == Cells(c.types, c.ratios)
      OK(q) == Len(q) = Len(c.possible) /\ \A k \in DOMAIN q : Near(q[k], (Share(c.types, c.ratios, c.possible[k]) * (Million \div 16)) \div cells, 2)
  IN Failing({<<"python-coverages", c.exc[1] = "" /\ c.off[1] <= 2 /\ OK(c.py)>>, <<"cpp-coverages", c.exc[2] = "" /\ c.off[2] <= 2 /\ OK(c.cpp)>>}) : i \in DOMAIN e.cases}

\* ---- frequencies ---------------------------------------------------------
NSites == m.reps[1] * m.reps[2] * m.reps[3] * m.nb
Per(occ, t8) == (occ * 8 * Q) \div (t8 * NSites)
FunOf(q) == [k \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = k][2]]
FreqFails(e) ==
  IF e.exc # "" THEN {"frequencies-readable"} ELSE
  LET recs == m.recs g == e.got
      all == Counts(recs, m.nproc, 0)
      steady == Counts(recs, m.nproc, m.tof_start)
      span == Span(recs, m.tof_start)
      st == ByReaction(m.labels, steady)
  IN Failing({<<"process-counts", g.proc = all>>,
              <<"reaction-counts", FunOf(g.all) = ByReaction(m.labels, all)>>,
              <<"steady-counts", FunOf(g.steady) = st>>,
              <<"reaction-rates", LET r == FunOf(g.rates) IN DOMAIN r = DOMAIN st /\
                   \A k \in DOMAIN r : Near(r[k], IF span = 0 THEN 0 ELSE Per(st[k], span), 2)>>})

\* ---- turnover frequencies ------------------------------------------------
TofFails(e) ==
  IF e.exc # "" THEN {"tofs-readable"} ELSE
  LET ws == Windows(Recs(e.n), m.nproc, m.start, m.interval) g == e.got n == Len(g.times) IN
  Failing({<<"tofs-labels", g.labels = m.labels>>,
           <<"tofs-complete", IF e.end THEN n = Len(ws) ELSE n <= Len(ws) /\ n > Len(ws) - m.sizes.tof>>,
           <<"tofs-lengths", Len(g.tofs) = n>>})
  \cup IF n > Len(ws) \/ Len(g.tofs) # n THEN {} ELSE
  Failing({<<"tofs-times", g.times = [i \in 1..n |-> ws[i].start * 128]>>,
           <<"tofs-values", \A i \in 1..n : Len(g.tofs[i]) = m.nproc /\ \A p \in 1..m.nproc : Near(g.tofs[i][p], Per(ws[i].occ[p], ws[i].len), 2)>>})

\* ---- events --------------------------------------------------------------
EventOK(w, g) ==
  LET n == Len(m.labels) total == TotalRate(w.avail, w.rates) IN
  /\ g.step = w.step /\ g.at = w.at /\ g.sites = Sum(w.avail) /\ g.avail = w.avail /\ g.picked = <<w.picked>>
  /\ g.labels = [p \in 1..n |-> <<p - 1, m.labels[p]>>]
  /\ g.rate = [p \in 1..n |-> w.avail[p] * w.rates[p]]
  /\ \A p \in 1..n : IF total = 0 THEN g.prob[p] = 0 ELSE Near(2 * g.prob[p] * total, 20000 * w.avail[p] * w.rates[p], total + 1)
EvtFails(e) ==
  IF e.exc # "" THEN {"events-readable"} ELSE
  LET ws == Events(Recs(e.n)) g == e.got n == Len(g.events) IN
  Failing({<<"events-processes", g.head = [p \in DOMAIN m.labels |-> <<p - 1, m.labels[p]>>]>>,
           <<"events-complete", IF e.end THEN n = Len(ws) ELSE n <= Len(ws) /\ n > Len(ws) - m.sizes.evt>>})
  \cup IF n > Len(ws) THEN {} ELSE Failing({<<"events", \A i \in 1..n : EventOK(ws[i], g.events[i])>>})

Fails(e) == CASE e.ev = "kmc" -> IF e.exc = "" THEN {} ELSE {"raised"}
              [] e.ev = "cov" -> CovFails(e)
              [] e.ev = "collect" -> CollectFails(e)
              [] e.ev = "freq" -> FreqFails(e)
              [] e.ev = "tof" -> TofFails(e)
              [] e.ev = "evt" -> EvtFails(e)
              [] OTHER -> {e.ev}
Init == l = 1 /\ m = [labels |-> <<>>]
Next == /\ l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
        /\ m' = IF Trace[l].ev = "kmc" THEN Trace[l] ELSE m
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
