------------------------------- MODULE Fixed -------------------------------
(* Fixed-point real functions for TLC, whose integers are 32 bit and which has no reals.                                *)
(* A real r is written as an integer r*1000 (arguments) or r*100000 (function values). The transcendental functions are *)
(* tabulated and interpolated linearly; the ASSUMEs tie the tables to functional equations, so that a wrong table would *)
(* stop every check that uses it. The interpolation error stays below 2e-4.                                             *)
EXTENDS Integers, Sequences
One == 100000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* rounding towards minus infinity is what \div does in TLA+; this one rounds to the nearest integer (c > 0)
RDiv(a, c) == (2 * a + c) \div (2 * c)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
\* 1000*a/b without overflow as long as 10*|a| and 10*|b| fit; b > 0
Ratio1000(a, b) ==
  LET q == a \div b   r == a % b
      d1 == (r * 10) \div b   r1 == (r * 10) % b
      d2 == (r1 * 10) \div b  r2 == (r1 * 10) % b
      d3 == (r2 * 10) \div b
  IN q * 1000 + d1 * 100 + d2 * 10 + d3
\* what is left of 1000*a after taking Ratio1000(a, b) times b away
Ratio1000rest(a, b) == (((((((a % b) * 10) % b) * 10) % b) * 10) % b)
\* linear interpolation in a table with entries at 0, 1/16, 2/16, ... ; z >= 0 is given times 1000
Lerp(tab, z) ==
  LET p == z * 16   i == p \div 1000   f == p % 1000
  IN IF i + 2 > Len(tab) THEN tab[Len(tab)] ELSE tab[i + 1] + RDiv((tab[i + 2] - tab[i + 1]) * f, 1000)
\* (1+tanh z)/2
SigmoidTab ==
  <<50000,53121,56218,59267,62246,65135,67918,70579,73106,75491,77730,79819,81757,83548,85195,86704,88080,
    89331,90465,91490,92414,93245,93991,94660,95257,95791,96267,96691,97069,97404,97702,97967,98201,98409,
    98594,98757,98901,99029,99142,99242,99331,99409,99478,99539,99593,99641,99683,99720,99753,99782,99807,
    99830,99850,99867,99883,99897,99909,99920,99929,99937,99945,99951,99957,99962,99966,99970,99974,99977,
    99980,99982,99984,99986,99988,99989,99990,99992,99993,99993,99994,99995,99995,99996,99996,99997,99997,
    99998,99998,99998,99998,99999,99999,99999,99999,99999,99999,99999,99999,99999,100000,100000,100000,100000,
    100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,
    100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,100000,100000>>
\* atan(z)/pi
AtanTab ==
  <<0,1987,3958,5900,7798,9641,11420,13127,14758,16310,17781,19171,20483,21719,22881,23974,25000,25964,26870,
    27722,28522,29276,29985,30653,31283,31878,32440,32972,33475,33952,34404,34834,35242,35630,35999,36352,
    36688,37008,37315,37608,37888,38157,38414,38661,38898,39126,39345,39556,39758,39954,40142,40323,40498,
    40668,40831,40989,41141,41289,41432,41571,41705,41835,41961,42083,42202,42317,42429,42538,42644,42747,
    42847,42945,43040,43132,43222,43310,43395,43479,43560,43639,43717,43792,43866,43938,44009,44078,44145,
    44211,44275,44338,44400,44460,44519,44577,44633,44689,44743,44796,44849,44900,44950,44999,45047,45095,
    45141,45187,45231,45275,45318,45361,45402,45443,45483,45523,45561,45600,45637,45674,45710,45746,45781,
    45815,45849,45883,45915,45948,45979,46011,46042,46072,46102,46131,46160,46189,46217,46245,46272,46299,
    46326,46352,46378,46403,46428,46453,46478,46502,46526,46549,46572,46595,46617,46640,46662,46683,46705,
    46726,46747,46767,46788,46808,46827,46847>>
\* exp(-z*z)
GaussTab ==
  <<100000,99610,98450,96545,93941,90696,86882,82580,77880,72876,67663,62334,56978,51677,46504,41524,36788,
    32339,28206,24411,20961,17859,15098,12664,10540,8704,7132,5798,4677,3743,2973,2343,1832,1421,1094,835,
    633,476,355,263,193,141,102,73,52,37,26,18,12,8,6,4,3,2,1,1,0,0,0,0,0,0,0,0,0,0>>
\* exp(-z)
ExpTab ==
  <<100000,93941,88250,82903,77880,73162,68729,64565,60653,56978,53526,50283,47237,44375,41686,39161,36788,
    34559,32465,30498,28650,26915,25284,23752,22313,20961,19691,18498,17377,16325,15335,14406,13534,12714,
    11943,11220,10540,9901,9301,8738,8208,7711,7244,6805,6393,6005,5642,5300,4979,4677,4394,4127,3877,3642,
    3422,3214,3020,2837,2665,2503,2352,2209,2075,1950,1832,1721,1616,1518,1426,1340,1259,1183,1111,1044,980,
    921,865,813,764,717,674,633,595,559,525,493,463,435,409,384,361,339,318,299,281,264,248,233,219,205,193,
    181,170,160,150,141,133,125,117,110,103,97,91,86,80,76,71,67,63,59,55,52,49,46,43,40,38,36,34,32,30,28,
    26,25,23,22,20,19,18,17,16,15,14,13,12,12,11,10,10,9,8,8,7,7,7,6,6,5,5,5,5,4,4,4,4,3,3,3,3,3,2,2,2,2,
    2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1>>
Sigmoid(z) == IF z >= 0 THEN Lerp(SigmoidTab, z) ELSE One - Lerp(SigmoidTab, -z)
\* beyond 10 the tail 1/2 - 1/(pi z)
AtanPi(z) == IF Abs(z) <= 10000 THEN Sign(z) * Lerp(AtanTab, Abs(z)) ELSE Sign(z) * (50000 - 31830989 \div Abs(z))
CauchyCdf(z) == 50000 + AtanPi(z)
Gauss(z) == Lerp(GaussTab, Abs(z))
ExpNeg(z) == Lerp(ExpTab, z)
\* the functional equations
Near(a, b, tol) == Abs(a - b) <= tol
ASSUME ExpLaw == /\ ExpTab[1] = One
                 /\ \A i, j \in 1..96 : Near(ExpTab[i + j - 1], (((ExpTab[i] * 100) \div 1000) * ((ExpTab[j] * 100) \div 1000)) \div 1000, 40)
                 /\ \A i \in 1..193 : ExpTab[i + 1] <= ExpTab[i]
                 \* exp(-1/16) lies between 1 - x and 1 - x + x^2/2
                 /\ ExpTab[2] >= One - 6250 /\ ExpTab[2] <= One - 6250 + 196
\* sigmoid(z) = 1 / (1 + exp(-2 z))
ASSUME SigmoidLaw == \A i \in 1..97 : Near((SigmoidTab[i] \div 10) * ((One + ExpTab[2 * i - 1]) \div 10), One * 1000, 30000)
\* exp(-z*z) at the multiples of 1/4: z = k/4, z*z = k*k/16
ASSUME GaussLaw == \A k \in 0..13 : GaussTab[4 * k + 1] = ExpTab[k * k + 1]
\* tan(a + b) = (tan a + tan b) / (1 - tan a tan b) with a = b: 2 atan(x) = atan(2x / (1 - x*x)); x = 1/2 -> 4/3
ASSUME AtanLaw == /\ AtanTab[17] = 25000 /\ Near(2 * AtanTab[9], Lerp(AtanTab, 1333), 20)
                  \* atan(x) + atan(1/x) = pi/2
                  /\ \A n \in {2, 4, 8} : Near(AtanTab[16 * n + 1] + AtanTab[16 \div n + 1], 50000, 2)
=============================================================================
