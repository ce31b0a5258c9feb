----------------------------- MODULE FixedPoint -----------------------------
(* Logarithms and exponentials in integers; all results in units of 10^-4.   *)
EXTENDS Integers, Sequences

One == 32768
RECURSIVE Bits(_)
Bits(n) == IF n < 2 THEN 0 ELSE 1 + Bits(n \div 2)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)

\* Natural logarithm of a positive integer.
Ln(n) ==
  LET k == Bits(n)
      m == IF k <= 15 THEN n * P2(15 - k) ELSE n \div P2(k - 15)
      z == ((m - One) * One) \div (m + One)
      q == (z * z) \div One
      t3 == (z * q) \div One
      t5 == (t3 * q) \div One
      t7 == (t5 * q) \div One
      t9 == (t7 * q) \div One
      s == z + t3 \div 3 + t5 \div 5 + t7 \div 7 + t9 \div 9
  IN  (20000 * s + One \div 2) \div One + (k * 693147 + 50) \div 100
Ln10 == 23026
\* Logarithm of n * 10^e.
LnE(n, e) == Ln(n) + (e * 230259) \div 10

\* exp(-x) for x >= 0 in units of 10^-4; the result in units of 1/One.
ExpNeg(x) ==
  LET k == x \div 6931
      r == ((x - k * 6931) * One) \div 10000
      r2 == (r * r) \div One
      r3 == (r2 * r) \div One
      r4 == (r3 * r) \div One
      r5 == (r4 * r) \div One
      v == One - r + r2 \div 2 - r3 \div 6 + r4 \div 24 - r5 \div 120
  IN  IF k > 15 THEN 0 ELSE v \div P2(k)

\* Product of two numbers with scale 10^4 (a may be large, b below 2*10^5).
Mul(a, b) == LET s == IF a < 0 THEN -1 ELSE 1
                 x == IF a < 0 THEN -a ELSE a
             IN  s * ((x \div 10000) * b + ((x % 10000) * b) \div 10000)
=============================================================================
