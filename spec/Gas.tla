-------------------------------- MODULE Gas ---------------------------------
(* Thermodynamics of gases: the Shomate correction (10^-5 eV) and the        *)
(* ideal-gas partition function (natural logarithm, 10^-4), in integers.     *)
EXTENDS GasData, FixedPoint, Chem

---------------------------------------------------------------------------
\* Shomate equation; t = T/1000 with scale 10^4, so ti is 10 * T for T in K.
Half(x) == x \div 2
DivT(x, ti) == IF x < 0 THEN -(((-x) * 1000) \div ti) * 10 - ((((-x) * 1000) % ti) * 10) \div ti
               ELSE ((x * 1000) \div ti) * 10 + (((x * 1000) % ti) * 10) \div ti
T2(ti) == Mul(ti, ti)
T3(ti) == Mul(T2(ti), ti)
\* A t + B t^2/2 + C t^3/3 + D t^4/4 - E/t, kJ/mol with scale 10^4; F and H cancel.
ShH(p, ti) == Mul(p[1], ti) + Half(Mul(Mul(p[2], ti), ti)) + Mul(Mul(Mul(p[3], ti), ti), ti) \div 3
              + Mul(Mul(Mul(Mul(p[4], ti), ti), ti), ti) \div 4 - DivT(p[5], ti)
\* Entropy, J/mol/K with scale 10^4.
ShS(p, ti) == Mul(p[1], Ln(ti) - Ln(10000)) + Mul(p[2], ti) + Half(Mul(Mul(p[3], ti), ti))
              + Mul(Mul(Mul(p[4], ti), ti), ti) \div 3 - Half(DivT(DivT(p[5], ti), ti)) + p[7]
\* Heat capacity, J/mol/K with scale 10^4.
ShCp(p, ti) == p[1] + Mul(p[2], ti) + Mul(Mul(p[3], ti), ti) + Mul(Mul(Mul(p[4], ti), ti), ti) + DivT(DivT(p[5], ti), ti)

\* x * T/1000 for T in K.
PerK(x, T) == LET s == IF x < 0 THEN -1 ELSE 1 a == Abs(x) IN s * ((a \div 1000) * T + ((a % 1000) * T) \div 1000)
EV5(x) == LET s == IF x < 0 THEN -1 ELSE 1 IN s * ((Abs(x) \div 10000) * 1036 + ((Abs(x) % 10000) * 1036) \div 10000
                                                   + (Abs(x) \div 100000) * 4)

InRange(row, T) == row[2] <= T /\ T <= row[3]
Below(row, T) == T < row[2] /\ row[2] < 300
ShomateRows(g, T) == SelectSeq(ShomateTable, LAMBDA row : row[1] = g /\ (InRange(row, T) \/ Below(row, T)))
\* Correction in 10^-5 eV at T (K); zero without parameters at this temperature.
Shomate(g, T) ==
  LET rows == ShomateRows(g, T) IN
  IF rows = <<>> THEN 0 ELSE
  LET row == rows[1] p == row[4] IN
  IF InRange(row, T)
  THEN EV5((ShCp(p, 2982) \div 10000) * 2982 + ((ShCp(p, 2982) % 10000) * 2982) \div 10000
           + ShH(p, 10 * T) - ShH(p, 2982) - PerK(ShS(p, 10 * T), T))
  ELSE EV5(PerK(ShCp(p, 10 * row[2]), T) - PerK(ShS(p, 10 * row[2]), T))
ShomateTol(T) == 12 + T \div 40 + (IF T > 1300 THEN T \div 40 ELSE 0) + (IF T > 2000 THEN T \div 40 ELSE 0)

---------------------------------------------------------------------------
\* Constants of the partition function (natural logarithms, 10^-4).
LnKBJ == LnE(138064852, -31)
LnHJ  == LnE(662607004, -42)
LnAmu == LnE(166053904, -35)
Ln2Pi == Ln(62831853) - LnE(1, 7)
LnPi  == Ln(31415927) - LnE(1, 7)
LnP0  == Ln(101325)

\* Molecular mass in 10^-4 u and its logarithm (kg).
KnownElem(x) == \E i \in DOMAIN MassTable : MassTable[i][1] = x
MassOf(x) == MassTable[CHOOSE i \in DOMAIN MassTable : MassTable[i][1] = x][2]
FormulaMass(fm) == SumSeq([i \in DOMAIN ElemSeq(fm.sp, 1) |-> ElemSeq(fm.sp, 1)[i][2] * MassOf(ElemSeq(fm.sp, 1)[i][1])])
LnMass(w) == LnE(w, -4) + LnAmu

HasRotVib(g) == \E i \in DOMAIN RotVibTable : RotVibTable[i][1] = g
RotVib(g) == RotVibTable[CHOOSE i \in DOMAIN RotVibTable : RotVibTable[i][1] = g]

\* ln(1 - exp(-theta/T)).
LnBose(th, T) == Ln(One * 1000 - 1000 * ExpNeg((th * 10000) \div T)) - Ln(One * 1000)

\* lnP: logarithm of the pressure in Pa, lnm: of the mass in kg.
LnTrans(lnm, lnP, T) == LnKBJ + Ln(T) - lnP + (3 * (Ln2Pi + lnm + LnKBJ + Ln(T) - 2 * LnHJ)) \div 2
LnRot(row, T) ==
  LET th == row[3] IN
  IF Len(th) = 1
  THEN LET x == (th[1] * 100) \div T IN  \* theta/T * 10^6
       Ln(T) + LnE(1, 4) - Ln(row[2]) - Ln(th[1])
       + (IF x > 10000 THEN Ln(1000000 + x \div 3 + ((x \div 100) * (x \div 100)) \div 1500) - Ln(1000000) ELSE 0)
  ELSE LnPi \div 2 - Ln(row[2]) + (3 * Ln(T) + 3 * LnE(1, 4) - Ln(th[1]) - Ln(th[2]) - Ln(th[3])) \div 2
LnVib(row, T) ==
  LET th == row[4] IN
  IF Len(th) = 1 THEN -((th[1] * 5000) \div T) - LnBose(th[1], T)
  ELSE -SumSeq([i \in DOMAIN th |-> LnBose(th[i], T)])
LnQ(g, lnm, lnP, T) == LnTrans(lnm, lnP, T) + LnRot(RotVib(g), T) + LnVib(RotVib(g), T)

\* Free energy contribution in units of 10^-4 kB T.
EntropyKT(g, lnm, lnP, T) == IF HasRotVib(g) THEN -LnQ(g, lnm, lnP, T) ELSE 0
=============================================================================
