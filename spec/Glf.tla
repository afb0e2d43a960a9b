--------------------------------- MODULE Glf ---------------------------------
(* The generalised logistic function al + (ar - al) / (c + q exp(-g (x - o)))^(1/nu), its inverse, and what barriers and *)
(* final rises make of it. Units: al, ar 1e-3; nu, q, c 1/100; g in 1 (per volt); x, o 1e-6; values and exponents 1e-5.   *)
EXTENDS Fixed, SequencesExt, TLC
Unit == 100000
LnTab == <<0, 6062, 11778, 17185, 22314, 27193, 31845, 36291, 40547, 44629, 48551, 52325, 55962, 59471, 62861, 66140, 69315>>
\* natural logarithm of x * 1e-5 in 1e-5; x > 0
RECURSIVE Ln(_)
Ln(x) == IF x >= 2 * Unit THEN 69315 + Ln(x \div 2) ELSE IF x < Unit THEN Ln(2 * x) - 69315
         ELSE LET i == (x - Unit) \div 6250   t == Unit + 6250 * i   r == RDiv((x - t) * Unit, t)
              IN LnTab[i + 1] + r - RDiv(r * r, 2 * Unit) + RDiv(RDiv(r * r, Unit) * r, 3 * Unit)
\* exp(-z), z >= 0 in 1e-5
ExpN(z) == IF z >= 1200000 THEN 0
           ELSE LET i == z \div 6250   f == z % 6250   e == Unit - f + RDiv(f * f, 2 * Unit) - RDiv(RDiv(f * f, Unit) * f, 6 * Unit)
                      t == ExpTab[i + 1]
                IN RDiv(t * (e \div 1000) * 10 + RDiv(t * (e % 1000), 100), 1000)
\* exp(z) for any z >= -12 in 1e-5, z <= 1.5
Expo(z) == IF z <= 0 THEN ExpN(-z) ELSE (1000000000 \div ExpN(z)) * 10
ASSUME \A a, b \in {5000, 31000, 99999, 100000, 140000, 277777} : Near(Ln(a) + Ln(b), Ln(RDiv((a \div 10) * (b \div 10), 1000)), 2000000 \div Min2(a, b) + 20)
ASSUME \A z \in {0, 1, 100, 6249, 6250, 50000, 123456, 300000} : Near(Ln(Expo(-z)), -z, 3 + 100000 \div ExpN(z))
\* g (x - o) in 1e-5; the difference d is given in 1e-8
Exponent(g, d) == IF Abs(d) \div 100 >= 100000000 \div Abs(g) THEN Sign(g) * Sign(d) * 10000000
                  ELSE RDiv(g * (d \div 100), 10) + RDiv(g * (d % 100), 1000)
\* logarithm of c + q exp(-e)
LnD(p, e) == LET l1 == Ln(p.c * 1000)   l2 == Ln(p.q * 1000) - e IN Max2(l1, l2) + Ln(Unit + ExpN(Abs(l1 - l2)))
\* logarithm of the fraction (y - al) / (ar - al)
LnFrac(p, e) == -RDiv(LnD(p, e) * 10, p.nu) * 10
Frac(p, e) == IF LnFrac(p, e) < -1200000 THEN 0 ELSE Expo(LnFrac(p, e))
Value(p, f) == 100 * p.al + RDiv((p.ar - p.al) * f, 1000)
Glf(p, x) == Value(p, Frac(p, Exponent(p.g, 100 * (x - p.o))))
\* error of a fraction and of a value
FracTol(p) == 8 + 500 \div p.nu
Tol(p) == 3 + (Abs(p.ar - p.al) * FracTol(p)) \div 300
Sum(ps, x) == FoldLeft(LAMBDA a, p : a + Glf(p, x), 0, ps)
SumTol(ps) == FoldLeft(LAMBDA a, p : a + Tol(p), 3, ps)
=============================================================================
