--------------------------- MODULE SensorScanTrace ---------------------------
(* Validates recorded histories of sensors for sensor scans (C15, C16, C17). State s: the configuration                *)
(*   ad, ag, asg, off, lin, peaks, bars (two ramps, their thresholds are in the events), rise (cap 0: none), shifts     *)
(*   (the deformation of every peak), and scan: the scan whose potentials were computed last.                           *)
(* Events: set    (what, form, value, ok, raised)                                                                       *)
(*         caller : objects handed over earlier are changed by their owner                                              *)
(*         pot    (rows 0: 1D, cols, v1, v2, w1, w2: <<first, step>>, both, occ; out: three lists, raised, same)         *)
(*         resp   (mu: three lists, point: fully conductive point, middle: pinch-off point; out, err, same)              *)
(*         labels (pot: three lists, pinch, point, middle, cols; cond, coul, err, same)                                  *)
(*         calc   (q: deformation, mu0, norm, d; out, err)                                                              *)
EXTENDS SensorScan, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
Zero3 == <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>
NoRamp == [foot |-> 0, cap |-> 0, gain |-> 1]
NoScan == [rows |-> 0, cols |-> 1, v1 |-> <<0, 0>>, v2 |-> <<0, 0>>, w1 |-> <<0, 0>>, w2 |-> <<0, 0>>, occ |-> <<<<0, 0>>>>]
NoCfg == [ad |-> Zero3, ag |-> Zero3, asg |-> Zero3, off |-> <<0, 0, 0>>, lin |-> TRUE, peaks |-> <<>>, bars |-> <<NoRamp, NoRamp>>,
          rise |-> NoRamp, shifts |-> <<>>, scan |-> NoScan]
\* one pair or number stands for all three potentials; None for zero
Triple(form, x) == IF form = "none" THEN Zero3 ELSE IF form = "pair" THEN <<x, x, x>> ELSE x
Offsets(form, x) == IF form = "number" THEN <<x, x, x>> ELSE x
Apply(c, e) ==
  IF ~e.ok THEN c
  ELSE CASE e.what = "ad" -> [c EXCEPT !.ad = Triple(e.form, e.value)] [] e.what = "ag" -> [c EXCEPT !.ag = Triple(e.form, e.value)]
         [] e.what = "asg" -> [c EXCEPT !.asg = e.value] [] e.what = "off" -> [c EXCEPT !.off = Offsets(e.form, e.value)]
         [] e.what = "peaks" -> [c EXCEPT !.peaks = e.value, !.lin = FALSE] [] e.what = "lin" -> [c EXCEPT !.peaks = <<>>, !.lin = TRUE]
         [] e.what = "bars" -> [c EXCEPT !.bars = IF e.form = "single" THEN <<e.value, e.value>> ELSE e.value]
         [] e.what = "rise" -> [c EXCEPT !.rise = e.value]
         [] e.what = "shifts" -> [c EXCEPT !.shifts = e.value]
\* the potentials of a refused scan are not the sensor's last ones
After(c, e) == IF e.ev = "set" THEN Apply(c, e)
               ELSE IF e.ev = "pot" /\ ~e.both THEN [c EXCEPT !.scan = [x \in DOMAIN NoScan |-> e[x]]] ELSE c
SetFails(e) == IF e.ok THEN (IF e.raised = "" THEN {} ELSE {"an admissible configuration was refused"})
               ELSE IF e.raised = "ValueError" THEN {} ELSE {"an inadmissible configuration was not refused with a ValueError"}
Row(e, k) == IF e.rows = 0 THEN k ELSE k \div e.cols
Col(e, k) == IF e.rows = 0 THEN k ELSE k % e.cols
V(e, k) == <<e.v1[1] + e.v1[2] * Col(e, k), e.v2[1] + e.v2[2] * Row(e, k)>>
W(e, k) == <<e.w1[1] + e.w1[2] * Col(e, k), e.w2[1] + e.w2[2] * Row(e, k)>>
PotFails(c, e) ==
  IF e.both THEN (IF e.raised = "ValueError" THEN {} ELSE {"gates of dots and sensor can be swept together"})
  ELSE IF e.raised # "" THEN {"potential raised an exception"}
  ELSE (IF \A i \in 1..3 : \A k \in 0..(Len(e.occ) - 1) : Abs(e.out[i][k + 1] - Pot(c, i, e.occ[k + 1], V(e, k), W(e, k))) <= 2 THEN {} ELSE {"potential"})
       \union (IF e.same THEN {} ELSE {"arguments changed"})
\* ------------------------------------------------------------------------------------------------
Norm(c) == ISqrt(c.asg[1][1] * c.asg[1][1] + c.asg[1][2] * c.asg[1][2])
Deformed(c) == \E i \in DOMAIN c.shifts : c.shifts[i].kind # "none"
\* peaks as seen at the pixel k of the scan; they are deformed only if nothing but the gates of the sensor is swept
PeaksAt(c, k, middle) ==
  IF ~Deformed(c) \/ c.scan.v1[2] # 0 \/ c.scan.v2[2] # 0 THEN c.peaks
  ELSE LET d == Distance(c, W(c.scan, k), middle, Norm(c)) IN [i \in DOMAIN c.peaks |-> Shifted(c.peaks[i], c.shifts[i], d, Norm(c))]
SensorAt(c, e, k) ==
  LET mu == e.mu[1][k + 1]
      base == IF c.lin THEN RDiv(mu, 100) ELSE RDiv(Response(mu, PeaksAt(c, k, e.middle)), 10)
      grown == [i \in 1..3 |-> IF c.scan.v1[2] = 0 /\ c.scan.v2[2] = 0 THEN 0      \* a sensor scan has the electrons of its first pixel
                               ELSE Pot(c, i, c.scan.occ[k + 1], V(c.scan, k), <<0, 0>>) - Pot(c, i, c.scan.occ[1], V(c.scan, 0), <<0, 0>>)]
      full == Pot(c, 1, c.scan.occ[1], V(c.scan, 0), e.point) + FullChange(c, grown[1], grown[2], grown[3])
  IN IF c.rise.cap = 0 THEN base ELSE Max2(base, Ramp([c.rise EXCEPT !.foot = @ + full], mu))
Witness(c, e, thresholds, p) == IsPoint(c, c.scan.occ[1], V(c.scan, 0), p, thresholds[1], thresholds[2])
RespFails(c, e) ==
  IF e.err # "" THEN {"response raised an exception"}
  ELSE IF Len(e.out) # Len(e.mu[1]) THEN {"shape of the response"}
  ELSE IF ~Witness(c, e, e.full, e.point) \/ ~Witness(c, e, e.pinch, e.middle) THEN {"MALFORMED CASE"}
  ELSE (IF \A k \in 0..(Len(e.out) - 1) :
             Abs(e.out[k + 1] - Series(SensorAt(c, e, k), Ramp(c.bars[1], e.mu[2][k + 1]), Ramp(c.bars[2], e.mu[3][k + 1]))) <= Tolerance(c.peaks) \div 10 + 5
        THEN {} ELSE {"response"})
       \union (IF e.same THEN {} ELSE {"arguments changed"})
\* ------------------------------------------------------------------------------------------------
\* areas a pixel can have if its potentials are known up to 2
Areas(x, e, k, full) == {Area(x[1][k] + ds, x[2][k] + d1, x[3][k] + d2, e.pinch, full) : ds \in {-2, 2}, d1 \in {-2, 2}, d2 \in {-2, 2}}
\* distances (1e-6) of the pixels of the line that starts after pixel f from the top of peak i
LineDist(c, e, f, i) ==
  [j \in 1..e.cols |-> LET k == f + j - 1   d == Distance(c, W(c.scan, k), e.middle, Norm(c))
                       IN Abs(e.pot[1][k + 1] - c.peaks[i].mu0 - (IF Deformed(c) THEN Shift(c.shifts[i], d, Norm(c)) ELSE 0))]
Lines(c, e) == IF c.scan.rows = 0 THEN {0} ELSE {j * e.cols : j \in 0..(c.scan.rows - 1)}
\* mean step of the potential of the sensor dot along the lines (the same in all lines)
MeanStep(e) == IF e.cols = 1 THEN 0 ELSE Abs(e.pot[1][e.cols] - e.pot[1][1]) \div (e.cols - 1)
\* numbers of the peaks: position in the list of peaks, or in the order of their potentials
ByList(c) == [i \in DOMAIN c.peaks |-> i]
ByPotential(c) == [i \in DOMAIN c.peaks |-> 1 + Cardinality({j \in DOMAIN c.peaks : c.peaks[j].mu0 < c.peaks[i].mu0 \/ (c.peaks[j].mu0 = c.peaks[i].mu0 /\ j < i)})]
PeakMaskOk(c, e, num, full) ==
  \A f \in Lines(c, e) :
    LET dist == [i \in DOMAIN c.peaks |-> LineDist(c, e, f, i)]
        near == [i \in DOMAIN c.peaks |-> Closest(dist[i], 6)]
        mark == [i \in DOMAIN c.peaks |-> IF e.cols = 1 THEN "may" ELSE Marked(dist[i], MeanStep(e), 6)]
        coul == [j \in 1..e.cols |-> e.coul[f + j]]
        own(j) == {i \in DOMAIN c.peaks : num[i] = coul[j]}
    IN /\ \A j \in 1..e.cols : coul[j] # 0 =>
            /\ e.cond[f + j] = 1
            /\ \E i \in own(j) : j \in near[i] /\ mark[i] # "no"
            /\ \A j2 \in 1..e.cols : coul[j2] = coul[j] => j2 = j
       /\ \A i \in DOMAIN c.peaks : (mark[i] = "must" /\ \A j \in near[i] : Areas(e.pot, e, f + j, full) = {1}) =>
            \E j \in near[i] : coul[j] # 0
LabelFails(c, e) ==
  IF e.err # "" THEN {"labels raised an exception"}
  ELSE IF Len(e.cond) # Len(e.pot[1]) \/ Len(e.coul) # Len(e.pot[1]) THEN {"shape of the labels"}
  ELSE IF ~Witness(c, e, e.full, e.point) \/ ~Witness(c, e, e.pinch, e.middle) THEN {"MALFORMED CASE"}
  ELSE LET full == Pot(c, 1, c.scan.occ[1], V(c.scan, 0), e.point)
       IN (IF \A k \in 1..Len(e.cond) : e.cond[k] \in Areas(e.pot, e, k, full) THEN {} ELSE {"conductive area mask"})
          \union (IF PeakMaskOk(c, e, ByList(c), full) \/ PeakMaskOk(c, e, ByPotential(c), full) THEN {} ELSE {"Coulomb peak mask"})
          \union (IF e.same THEN {} ELSE {"arguments changed"})
CalcFails(e) ==
  IF e.err # "" THEN {"deformation raised an exception"}
  ELSE IF Len(e.out) # Len(e.d) THEN {"shape of the deformation"}
  ELSE IF \A k \in 1..Len(e.d) : Abs(e.out[k] - e.mu0 - Shift(e.q, e.d[k], e.norm)) <= 3 THEN {} ELSE {"deformation"}
Fails(c, e) == CASE e.ev = "set" -> SetFails(e) [] e.ev = "caller" -> {} [] e.ev = "pot" -> PotFails(c, e) [] e.ev = "resp" -> RespFails(c, e)
                 [] e.ev = "labels" -> LabelFails(c, e) [] e.ev = "calc" -> CalcFails(e)
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = NoCfg /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done /\ bad' = Fails(s, Cases[t][l]) /\ l' = l + 1 /\ s' = After(s, Cases[t][l]) /\ UNCHANGED t
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ s' = NoCfg
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
