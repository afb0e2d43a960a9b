------------------------------- MODULE Config -------------------------------
(* What a sampled random_variations_v3 configuration promises (C20).                                                    *)
(* All quantities are integers. Units: voltages, potentials, lengths, widths, slopes, lever arms of gates: 1e-8;         *)
(* lever arms of dots: 1e-9; heights and responses 1e-7; growth rates, shape factors, ratios 1e-6; the quality           *)
(* multiplier is given per mille.                                                                                        *)
EXTENDS Fixed
Within(x, lo, hi, tol) == lo - tol <= x /\ x <= hi + tol
AllWithin(q, lo, hi, tol) == \A i \in DOMAIN q : Within(q[i], lo, hi, tol)
\* ------------------------------------------------------------------ the total charge transitions
Limits == <<-20000000, -6000000, -20000000, -6000000, -100000000, 0, -100000000, 0>>
\* p = <<len0, len1, slope1, slope2, x1, y1, x2, y2>>
Same(p, r) == \A k \in 1..4 : Within(p[k], r[k], r[k], 2)
Shift(p, r) == <<r[5] - p[5], r[6] - p[6]>>
\* every TCT is the previous one shifted; all shifts are equal (within the rounding of the last digit)
Lattice(tct) ==
  /\ Len(tct) >= 1
  /\ \A i \in DOMAIN tct : /\ Same(tct[i], tct[1])
                           /\ Within(tct[i][7] - tct[i][5], tct[1][7] - tct[1][5], tct[1][7] - tct[1][5], 3)
                           /\ Within(tct[i][8] - tct[i][6], tct[1][8] - tct[1][6], tct[1][8] - tct[1][6], 3)
  /\ Len(tct) >= 2 => \A i \in 1..(Len(tct) - 1) : \A k \in 1..2 :
        Abs(Shift(tct[i], tct[i + 1])[k] - Shift(tct[1], tct[2])[k]) <= 3
Ranges(p) ==
  /\ Within(p[1], 1000000, 2500000, 1) /\ Within(p[2], 1000000, 2500000, 1)
  /\ Within(p[3], 21429000, 54688000, 1) /\ Within(p[4], -44000000, -7692000, 1)
  /\ p[5] = 0 \/ Abs(p[5]) <= 2   \* the first interdot transition lies at -0.14 V on both gates
  /\ Within(p[6], -19798990, -19798990, 2)
\* the angle between the lead transitions; slopes in 1e-4
LeadAngle(p) ==
  LET s1 == RDiv(p[3], 10000)   s2 == RDiv(p[4], 10000)
  IN (s1 - s2) * 10000 >= 4670 * (10000 + (s1 * s2) \div 10000)
\* the interdot vector; all in units of 5e-7
Interdot(p, sh) == <<RDiv(sh[1] + p[2], 50), RDiv(sh[2], 50) + RDiv(RDiv(p[2], 50) * RDiv(p[4], 10000), 10000)>>
InterdotOk(p, sh) ==
  LET v == Interdot(p, sh)   s == RDiv(p[3], 10000)
      l2 == v[1] * v[1] + v[2] * v[2]
      w1 == RDiv(p[7] - p[5], 50)   w2 == RDiv(p[8] - p[6], 50)
      ww == w1 * w1 + w2 * w2
      cross == (10000 * v[2] - s * v[1]) \div 10000
      dot == (10000 * v[1] + s * v[2]) \div 10000
  IN /\ Abs(v[1]) <= 25000 /\ Abs(v[2]) <= 25000 /\ Abs(w1) <= 20000 /\ Abs(w2) <= 20000
     /\ Within(l2, 5216 * 5216, 19744 * 19744, 0)            \* 0.00261 .. 0.00987
     /\ v[2] >= Abs(v[1]) - 2                                 \* forward on both gates
     /\ dot > 0 /\ 10000 * cross >= 6560 * dot - 40000 /\ 1000 * cross <= 5700 * dot + 10000
     /\ Within(ww, 856 * 856, 16284 * 16284, 0)               \* 0.00043 .. 0.00814
     \* ratio of length and width 0.8692 .. 9.055 (squares 0.7556 .. 82.0)
     /\ (l2 \div 1000) * 100 >= (ww \div 1000) * 75 - 200
     /\ l2 \div 1000 <= (ww \div 1000) * 83 + 200
     /\ w1 > 0
     \* the second anchor lies in the mean direction of both slopes
     /\ Abs(w2 * 20000 - w1 * RDiv(p[3] + p[4], 10000)) <= 60000
CsdFails(c) ==
  (IF c.limits # Limits THEN {"limits"} ELSE {})
  \cup (IF ~ Lattice(c.tct) THEN {"lattice"} ELSE {})
  \cup (IF ~ Ranges(c.tct[1]) THEN {"tct_ranges"} ELSE {})
  \cup (IF ~ LeadAngle(c.tct[1]) THEN {"lead_angle"} ELSE {})
  \cup (IF Len(c.tct) >= 2 THEN IF ~ InterdotOk(c.tct[1], Shift(c.tct[1], c.tct[2])) THEN {"interdot"} ELSE {} ELSE {"cover"})
  \cup (IF c.lut # 1000 THEN {"lut"} ELSE {})
  \* every scan within the limits could be measured and was finite
  \cup (IF \E i \in DOMAIN c.measured : c.measured[i] # "finite" THEN {"cover"} ELSE {})
\* ------------------------------------------------------------------ lever arms of the sensor
DotMax(q, lo, hi) == lo + RDiv((hi - lo) * q, 1000)
LeverFails(c) ==
  LET g1 == c.ag[1]   g2 == c.ag[2]   d1 == c.ad[1]   d2 == c.ad[2]
  IN IF /\ IF c.comp THEN Within(g1, 10000, 50000, 0) ELSE Within(g1, 2805000, 15093000, 0)
        /\ 2 * g2 >= g1 - 4 /\ g2 <= 2 * g1 + 4
        /\ Within(d1, -799400, Min2(-6 * (g1 \div 1000), DotMax(c.q, -799400, -96100)), 7)
        /\ Within(d2, Max2(2 * d1, -521400), Min2(d1 \div 2, Min2(-6 * (g2 \div 1000), DotMax(c.q, -521400, -63000))), 7)
     THEN {} ELSE {"lever_arms"}
\* ------------------------------------------------------------------ the peaks of a SensorGeneric
\* potentials of the empty dots at the lowest and of five electrons on each dot at the highest gate voltages
PotLow(c) == -2 * RDiv(c.ag[1] + c.ag[2], 10)
PotHigh(c) == RDiv(-6 * RDiv(c.ag[1] + c.ag[2], 10), 10) + RDiv(5 * (c.ad[1] + c.ad[2]), 10)
GenericFails(c) ==
  LET n == Len(c.peaks)   P == c.peaks
      lo == Min2(PotLow(c), PotHigh(c)) hi == Max2(PotLow(c), PotHigh(c))
      hmin == 1920400 - RDiv(RDiv(24 * c.q, 10) * RDiv(1920400 - 224500, 1000), 1)
  IN (IF n \notin 3..6 THEN {"peak_number"} ELSE {})
     \cup (IF \E i \in 1..n : ~ Within(P[i].mu, lo, hi, 8) THEN {"peak_place"} ELSE {})
     \cup (IF \E i, j \in 1..n : i < j /\ 2 * n * Abs(P[i].mu - P[j].mu) < hi - lo - 40 THEN {"peak_distance"} ELSE {})
     \cup (IF \E i \in 1..n : ~ Within(P[i].gamma, 96360, 295090, 1) THEN {"peak_gamma"} ELSE {})
     \cup (IF \/ ~ Within(P[1].h, Max2(224500, hmin), 1920400, 2)
              \/ \E i \in 2..n : ~ Within(5 * P[i].h, 4 * P[1].h, 6 * P[1].h, 10) THEN {"peak_height"} ELSE {})
     \cup (IF \/ ~ Within(P[1].off, -4227500, -838000, 1)
              \/ \E i \in 2..n : ~ Within(5 * P[i].off, 6 * P[1].off, 4 * P[1].off, 10) THEN {"peak_offset"} ELSE {})
     \* the operating point: none, or the steepest rising point of the response
     \cup (IF ~ c.steep THEN IF c.offset # 0 THEN {"operating_point"} ELSE {}
           ELSE IF \/ ~ Within(5 * c.offset, 6 * lo - hi, 6 * hi - lo, 40)
                   \/ \E i \in DOMAIN c.slopes : c.slope < c.slopes[i] - 3000
                   \/ c.slope < 0
                THEN {"operating_point"} ELSE {})
\* ------------------------------------------------------------------ the sensor of sensor scans
\* relative distance of the k-th and (k+1)-th peak: 1.0189 - 0.00935 (min(k, 10) - 1) +- 0.04755 of the first distance (k > 1), in 1e-6
RelMean(k) == 1018943 - 9350 * (Min2(k, 10) - 1)
ScanFails(c) ==
  LET P == c.peaks   n == Len(P)   A == c.lever   d == [k \in 1..(n - 1) |-> P[k + 1].mu - P[k].mu]
  IN (IF n \notin 20..29 THEN {"peak_number"} ELSE {})
     \cup (IF \/ \E k \in 1..(n - 1) : d[k] <= 0
              \/ ~ Within(d[1], 0, 1468719, 1)
              \/ \E k \in 2..(n - 1) : ~ Within(c.rel[k], RelMean(k), RelMean(k), 47560) THEN {"peak_chain"} ELSE {})
     \cup (IF \E k \in 1..n : P[k].h < 0 \/ P[k].off # 0 \/ P[k].gamma <= 0 THEN {"peak_height"} ELSE {})
     \cup (IF \E k \in 2..n : ~ \/ Within(c.relgamma[k], 850000, 1500000, 2)
                                \/ k > 2 /\ Within(P[k].gamma, 180000, 220000, 1) THEN {"peak_gamma"} ELSE {})
     \cup (IF \E k \in 3..n : P[k].gamma > 220001 THEN {"peak_gamma"} ELSE {})
     \* lever arms of the sensor gates on the dot and on the barriers
     \cup (IF \/ Max2(A[1][1], A[1][2]) # 10000000 \/ A[1][1] <= 0 \/ A[1][2] <= 0
              \/ A[2][1] # 99000000 \/ ~ Within(A[2][2], 10000000, 30000000, 0)
              \/ A[3][2] # 99000000 \/ ~ Within(A[3][1], 10000000, 30000000, 0)
              \/ ~ c.samerows THEN {"sensor_lever_arms"} ELSE {})
     \* the point where both barriers pinch off, and the first peak 0.05 V above its potential
     \cup (IF ~ (AllWithin(c.pinch, -68800000, -50900000, 2000)) THEN {"pinch_point"} ELSE {})
     \cup (IF ~ Within(c.lead, -5000000, -5000000, 3000) THEN {"first_peak"} ELSE {})
     \cup (IF c.ndeform # 0 THEN {"deformations"} ELSE {})
     \cup (IF \/ c.rise.left # 0 \/ c.rise.mu # 0 \/ c.rise.pct # 950000
              \/ ~ Within(c.rise.right, 1050000, 1050000, 20000)    \* relative to the largest response of the peaks
              \/ ~ Within(c.rise.growth, 400000000, 600000000, 1)
              \/ ~ Within(c.rise.asym, 10000, 1000000, 1)
              \/ ~ Within(c.rise.shape, 10000, 100000000, 1) THEN {"final_rise"} ELSE {})
     \cup (IF Len(c.barriers) # 2 THEN {"barriers"} ELSE
           IF \E i \in 1..2 : LET b == c.barriers[i] IN
              \/ b.left # 0 \/ ~ Within(b.right, (2500 * c.q), (2500 * c.q), 1)
              \/ ~ Within(b.growth, 20000000, 40000000, 1)
              \/ ~ Within(b.asym, 1000, 100000, 1)    \* 1e-9
              \/ ~ Within(b.shape, 10000, 100000000, 1)
              \/ b.pinchpct # 1000 \/ b.fullpct # 999000 THEN {"barriers"} ELSE {})
     \cup (IF c.offset # 0 THEN {"operating_point"} ELSE {})
\* ------------------------------------------------------------------ distortions
Names == <<"OccupationTransitionBlurringFermiDirac", "OccupationDotJumps", "OccupationDotJumps",
           "SensorPotentialPinkNoise", "SensorPotentialRTN", "SensorResponseRTN", "SensorResponseWhiteNoise">>
About(x, y) == Within(x, y, y, 1 + Abs(y) \div 100000)
DistFails(c) ==
  LET D == c.dist IN
  IF [i \in DOMAIN D |-> D[i].name] # Names THEN {"distortions"} ELSE
  (IF ~ AllWithin(D[1].sigma, 75000, 600000, 1) THEN {"blurring"} ELSE {})      \* 1e-9
  \cup (IF \/ D[2].axis # 0 \/ ~ About(D[2].ratio, 10000) \/ ~ About(D[2].scale, 3000000) \/ ~ About(D[2].lam, 180000)
           \/ D[3].axis # 1 \/ ~ About(D[3].ratio, 1667) \/ ~ About(D[3].scale, 3000000) \/ ~ About(D[3].lam, 180000)
        THEN {"dot_jumps"} ELSE {})
  \cup (IF ~ AllWithin(D[4].sigma, 0, 500000, 1) THEN {"pink_noise"} ELSE {})
  \cup (IF \/ ~ About(D[5].scale, 2237011) \/ ~ About(D[5].std, 3492) \/ ~ About(D[5].height, 2539)
           \/ ~ About(D[5].ratio, RDiv(166667 * c.q, 1000)) THEN {"potential_rtn"} ELSE {})
  \cup (IF \/ ~ About(D[6].scale, 300000000) \/ ~ About(D[6].std, 4745377) \/ ~ About(D[6].height, 1523737)
           \/ ~ About(D[6].ratio, 10 * c.q) THEN {"response_rtn"} ELSE {})
  \cup (IF ~ AllWithin(D[7].sigma, 0, 500000, 1) THEN {"white_noise"} ELSE {})
ConfigFails(c) ==
  CsdFails(c) \cup LeverFails(c) \cup DistFails(c)
  \cup (IF c.kind = "SensorGeneric" THEN GenericFails(c) ELSE ScanFails(c))
\* ------------------------------------------------------------------ laws about many configurations
\* mean of n draws, each exponential with scale 0.6 q / ln 100 of the range (mean 0.13029 q), in 1e-6 of the range; seven standard deviations
ExpMean(q) == RDiv(130288 * q, 1000)
\* thirds[p][k]: number of configurations whose parameter p lies in the k-th third of its range
ManyFails(c) ==
  (IF \E i \in DOMAIN c.means : Abs(c.means[i].mean - ExpMean(c.means[i].q)) > (ExpMean(c.means[i].q) * 7) \div c.means[i].root + 200
   THEN {"noise_strength"} ELSE {})
  \cup (IF \E i \in DOMAIN c.thirds : \E k \in DOMAIN c.thirds[i].n : c.thirds[i].n[k] = 0 THEN {"variety"} ELSE {})
  \* no object that carries state is shared by two configurations or with the default configurations
  \cup (IF \E i, j \in DOMAIN c.objects : i < j /\ {c.objects[i][k] : k \in DOMAIN c.objects[i]} \cap {c.objects[j][k] : k \in DOMAIN c.objects[j]} # {}
        THEN {"shared"} ELSE {})
  \cup (IF c.defaults[1] # c.defaults[2] THEN {"defaults_changed"} ELSE {})
  \cup (IF \E i, j \in DOMAIN c.keys : i < j /\ c.keys[i] = c.keys[j] THEN {"repeated"} ELSE {})
  \cup (IF \E i \in DOMAIN c.refused : c.refused[i] # "ValueError" THEN {"refused"} ELSE {})
=============================================================================
