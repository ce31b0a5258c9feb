------------------------------- MODULE Rates --------------------------------
(* Rate constants in logarithmic form (natural logarithm, 10^-4).  Energies  *)
(* are multiples of kB*T/100.  A setting s holds the temperature T (K), the  *)
(* unit cell area and active ratio and the logarithm of each gas pressure.   *)
EXTENDS Gas

LnPre(T) == LnE(208366121, 2) + Ln(T)
TST(T, g) == LnPre(T) - 100 * g
LnRatio(q) == Ln(q[1]) - Ln(q[2])

GasForms(st) == SelectSeq(st, LAMBDA f : f.type = "gas")
\* ln of the product of pressure^coefficient over the gases of a state.
LnPressures(st, p) == SumSeq([i \in DOMAIN GasForms(st) |-> GasForms(st)[i].stoich * p[GasForms(st)[i].ss]])

RateTST(rxn, e, s, incl) ==
  [f |-> TST(s.T, e.gf) + (IF incl THEN LnPressures(IS(rxn), s.p) ELSE 0),
   r |-> TST(s.T, e.gr) + (IF incl THEN LnPressures(FS(rxn), s.p) ELSE 0)]

\* Collision theory: impinging rate on the active area times sticking.
Collision(lnm, lnP, g, s) == s.act - 100 * g + lnP + s.area - (Ln2Pi + lnm + LnKBJ + Ln(s.T)) \div 2
RateCT(rxn, e, s, incl) ==
  LET gi == GasForms(IS(rxn)) gfs == GasForms(FS(rxn)) IN
  IF gi = <<>> /\ gfs = <<>> THEN [f |-> TST(s.T, e.gf), r |-> TST(s.T, e.gr)]
  ELSE LET gas  == IF gi # <<>> THEN gi[1] ELSE gfs[1]
           lnm  == LnMass(FormulaMass(gas))
           lnP  == LnP0 + (IF incl THEN s.p[gas.ss] ELSE 0)
           corr == gas.stoich * EntropyKT(gas.ss, lnm, lnP, s.T)
       IN  IF gi = <<>> THEN [f |-> TST(s.T, e.gf), r |-> TST(s.T, e.gr) + corr]
           ELSE LET lf == Collision(lnm, lnP, e.gf, s)
                    bf == LnPre(s.T) - lf               \* equivalent forward barrier
                    br == bf - (100 * (e.gf - e.gr) - corr)
                IN  [f |-> lf, r |-> LnPre(s.T) - MaxOf(br, 0)]

Rate(algo, rxn, e, s, incl) == IF algo = "CT" THEN RateCT(rxn, e, s, incl) ELSE RateTST(rxn, e, s, incl)
=============================================================================
