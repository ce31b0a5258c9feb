---------------------------- MODULE TraceCampaign ---------------------------
(* C35: the scripts that run, continue, collect and draw a campaign.          *)
EXTENDS Campaign, Chem, TraceBase
VARIABLES l, now                   \* now: what was collected last, by kind
One == 8192                        \* unit of coverages, rates and times

ContinueFails(e) ==
  Failing({<<"raised", e.exc = "">>,
           <<"start-time", StartOf(e.after) = e.stamp>>,
           <<"lines", e.after = Continued(e.before, e.stamp)>>})

JobsOf(e) ==
  LET n == Len(e.jobs) IN
  IF e.kind = "1d"
  THEN /\ n \in {61, 62}
       /\ \A i \in 1..n : Near(e.jobs[i].co, Line(n)[i])
  ELSE /\ n = 100
       /\ \A i \in 1..n : Grid(e.jobs[i].co, ((i - 1) % 10) + 1, "CO") /\ Grid(e.jobs[i].o2, ((i - 1) \div 10) + 1, "O2")
CreateFails(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE Failing({<<"pressures", JobsOf(e)>>,
                <<"listed", e.listed = [i \in DOMAIN e.jobs |-> e.jobs[i].dir]>>,
                <<"named", \A i \in DOMAIN e.jobs : e.jobs[i].exact>>,
                <<"setup", \A i \in DOMAIN e.jobs : e.jobs[i].rest = e.rest>>,
                <<"files", \A i \in DOMAIN e.jobs : e.jobs[i].files = e.files>>,
                <<"template", e.kept>>})

CovRow(j) == <<COCover(j), OCover(j)>>
HasCov(j) == j.types # <<>>
HasRate(j) == j.rates # <<>>
Expected(e) == IF e.kind = "cov" THEN Rows(e.jobs, HasCov, CovRow) ELSE Rows(e.jobs, HasRate, Rate)
Table(S) == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1])
Cells(e) == [i \in DOMAIN e.jobs |-> <<e.jobs[i].o2, e.jobs[i].co,
              IF e.kind = "map-rate" THEN MapRate(e.jobs[i]) ELSE LET q == e.jobs[i].last IN IF e.kind = "map-CO" THEN q[Len(q)] ELSE q[Len(q) - 1]>>]
MapGot(e) == {<<e.o2[i], e.co[j], e.v[i][j]>> : i \in DOMAIN e.o2, j \in DOMAIN e.co}
ExtractFails(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE IF e.kind \in {"cov", "rate"}
  THEN Failing({<<"collected", e.got = Table(Expected(e))>>})
  ELSE IF Len(e.v) # Len(e.o2) \/ \E i \in DOMAIN e.v : Len(e.v[i]) # Len(e.co) THEN {"shape"}
  ELSE Failing({<<"collected", MapGot(e) = ToSet(Cells(e)) /\ Len(e.o2) * Len(e.co) = Len(e.jobs)>>})

\* ---- pictures
Col(t, f(_)) == [i \in DOMAIN t |-> f(t[i])]
P(t) == Col(t, LAMBDA r : r[1])
CovSeries(t) == {<<"CO", P(t), Col(t, LAMBDA r : r[2][1])>>, <<"O", P(t), Col(t, LAMBDA r : r[2][2])>>}
RateSeries(t, k) == {<<k, P(t), Col(t, LAMBDA r : r[2])>>}
IsForward(p) == Len(p) > 4 /\ SubSeq(p, Len(p) - 3, Len(p)) = "(->)"
IsReverse(p) == Len(p) > 4 /\ SubSeq(p, Len(p) - 3, Len(p)) = "(<-)"
Makes(p, product) == LET rxn == ParseRxn(SubSeq(p, 1, Len(p) - 4)) IN \E i \in DOMAIN FS(rxn) : FS(rxn)[i].ss = product
NetRates(e) == LET fw == {i \in DOMAIN e.procs : IsForward(e.procs[i]) /\ Makes(e.procs[i], "CO2_g")}
                   rv == {i \in DOMAIN e.procs : IsReverse(e.procs[i]) /\ Makes(e.procs[i], "CO2_g")}
               IN  [k \in DOMAIN e.rows |-> SumOver(fw, LAMBDA i : e.rows[k][i]) - SumOver(rv, LAMBDA i : e.rows[k][i])]
TypeSeries(e, x) == {<<Key(e.types[i]), x, e.rows[i]>> : i \in DOMAIN e.types}
MergedSeries(e, x) == {<<"CO", x, Merged(e.types, e.rows, "C", Len(x))>>, <<"O", x, Merged(e.types, e.rows, "O", Len(x))>>,
                       <<"*", x, Merged(e.types, e.rows, "V", Len(x))>>}
Average(e, c) == SumSeq(Merged(e.types, e.rows, c, Len(e.steps))) \div Len(e.steps)
Column(e, k) == [i \in DOMAIN e.rows |-> e.rows[i][k]]
Wanted(e) ==
  CASE e.which = "batch-cov"  -> <<CovSeries(now.cov)>>
    [] e.which = "batch-rate" -> <<RateSeries(now.rate, "-")>>
    [] e.which = "batch-both" -> <<CovSeries(<<>>), RateSeries(now.rate, "TOF")>>
    [] e.which = "tof"        -> <<{<<"-", e.times, NetRates(e)>>}>>
    [] e.which = "cov"        -> <<TypeSeries(e, e.steps), TypeSeries(e, e.times)>>
    [] e.which = "merged"     -> <<MergedSeries(e, e.steps), MergedSeries(e, e.times)>>
    [] e.which = "mkm-rate"   -> <<{<<"-", e.times, e.rates>>}>>
    [] e.which = "mkm-both"   -> <<{<<"CO", e.times, Column(e, 1)>>, <<"O", e.times, Column(e, 2)>>}, {<<"TOF", e.times, e.rates>>}>>
    [] e.which = "mkm-ode"    -> <<{<<"CO", e.times, Column(e, 1)>>, <<"O", e.times, Column(e, 2)>>,
                                    <<"*", e.times, [i \in DOMAIN e.rows |-> One - e.rows[i][1] - e.rows[i][2]]>>}>>
    [] OTHER -> <<>>
\* With both, the coverages are drawn over the pressures of the rates.
WantedBoth(e) == <<{<<"CO", P(now.rate), Col(now.cov, LAMBDA r : r[2][1])>>, <<"O", P(now.rate), Col(now.cov, LAMBDA r : r[2][2])>>}, RateSeries(now.rate, "TOF")>>
Want(e) == IF e.which = "batch-both" THEN WantedBoth(e) ELSE Wanted(e)
Trick == <<"TOF", <<0>>, <<0>>>>      \* only there for the legend
Helper(e, s) == \/ e.which \in {"batch-both", "mkm-both"} /\ s = Trick
                \/ e.which \in {"merged", "mkm-ode"} /\ s[1] = "-"
Drawn(e) == [a \in DOMAIN e.axes |-> {s \in ToSet(e.axes[a]) : ~Helper(e, s)}]
\* Horizontal lines at the averages of CO and O.
Averages(e) == \A a \in DOMAIN e.axes : {s[3] : s \in {t \in ToSet(e.axes[a]) : t[1] = "-"}} = {<<Average(e, c), Average(e, c)>> : c \in {"C", "O"}}
DrawFails(e) ==
  IF e.refuse THEN Failing({<<"refused", e.exc = "SystemExit" /\ \A a \in DOMAIN e.axes : e.axes[a] = <<>>>>})
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE IF e.which = "freq"
  THEN Failing({<<"bars", e.bars = e.occ>>,
                <<"colours", \A i \in DOMAIN e.bars : e.colour[i] = e.colour[((i - 1) % 2) + 1] /\ (Len(e.bars) > 1 => e.colour[1] # e.colour[2])>>,
                <<"saved", e.saved = e.save>>})
  ELSE Failing({<<"series", Drawn(e) = Want(e)>>,
                <<"average", e.which = "merged" => Averages(e)>>,
                <<"saved", e.saved = e.save>>})

Stale(f) == f = "out.log" \/ (Len(f) >= 5 /\ SubSeq(f, 1, 5) = "auto_")
LaunchFails(e) ==
  IF e.exc # e.fails THEN {"raised"}
  ELSE Failing({<<"cleaned", ToSet(e.seen) = {f \in ToSet(e.files) : ~Stale(f)}>>,
                <<"setup", e.setup = e.setups[Len(e.setups)]>>,
                <<"calls", e.calls = e.wanted>>,
                <<"guess", e.guess = e.last>>})

Fails(e) == CASE e.ev = "continue" -> ContinueFails(e)
              [] e.ev = "create" -> CreateFails(e)
              [] e.ev = "extract" -> ExtractFails(e)
              [] e.ev = "draw" -> DrawFails(e)
              [] e.ev = "launch" -> LaunchFails(e)
              [] OTHER -> {e.ev}
Nothing == [cov |-> <<>>, rate |-> <<>>]
Init == l = 1 /\ now = Nothing
Next == /\ l <= Len(Trace) /\ Report(l, Trace[l], Fails(Trace[l])) /\ l' = l + 1
        /\ now' = LET e == Trace[l] IN IF e.ev = "extract" /\ e.kind \in {"cov", "rate"} THEN [now EXCEPT ![e.kind] = Table(Expected(e))] ELSE now
Spec == Init /\ [][Next]_<<l, now>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
