------------------------------ MODULE RtnTrace ------------------------------
(* Validates recorded calls of random telegraph noise objects (C10). An event has: rows (0: 1D), cols, range1, range2,  *)
(* scale (1e-4 V), std, height (1e-6), ratio (0, 1, -1: in between), act, runs, same (the supplied array was left      *)
(* alone), twin (a second object, built alike with a copy of the generator, gives the same), p (requested probabilities of the geometric distribution times 1e6), draws (parameter draws), err           *)
EXTENDS Rtn, Json, IOUtils, TLC, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
Pixels(e) == IF e.rows = 0 THEN e.cols ELSE e.rows * e.cols
Zero(e) == Len(e.runs) = 1 /\ e.runs[1][1] = 0
Bursts(e) == SelectSeq(e.runs, LAMBDA r : r[1] # 0)
ISqrt(x) == CHOOSE r \in 0..46340 : r * r <= x /\ (r + 1) * (r + 1) > x
\* statistics of long records: all runs but the last, which is cut off
LenSum(e) == FoldLeft(LAMBDA a, r : a + r[2], 0, SubSeq(e.runs, 1, Len(e.runs) - 1))
HeightSum(q, h) == FoldLeft(LAMBDA a, r : a + (r[1] - h), 0, q)
\* in units of std/10, so that the squares stay small
HeightSq(q, h, u) == FoldLeft(LAMBDA a, r : a + ((r[1] - h) \div u) * ((r[1] - h) \div u), 0, q)
LenSq(e, mu) == FoldLeft(LAMBDA a, r : a + ((10 * (r[2] * 1000 - mu)) \div mu) * ((10 * (r[2] * 1000 - mu)) \div mu), 0, SubSeq(e.runs, 1, Len(e.runs) - 1))
StatFails(e) ==
  LET mu == BlockPx(e)  n == Len(e.runs) - 1  b == Bursts(e)  nb == Len(b)  rt == (ISqrt(100 * n)) \div 10
      \* standard deviation of a geometric variable is below its mean: 6 sigma of the sum
      dev == LenSum(e) - (n * mu) \div 1000
      u == Max2(e.std \div 10, 1)
  IN IF n < 200 THEN {}
     ELSE (IF Abs(dev) <= (7 * (rt + 1) * mu) \div 1000 + 2 THEN {} ELSE {"mean length of the blocks"})
          \union (IF mu < 3000 \/ n < 600 THEN {}
                  ELSE LET q == LenSq(e, mu) \div n  \* squared deviations in units of (mu/10)^2: 100*(1 - 1/mu)
                           want == 100 - 100000 \div mu
                       IN IF q * 10 >= want * 4 /\ q * 10 <= want * 18 THEN {} ELSE {"spread of the block lengths"})
          \union (IF Abs(HeightSum(b, e.height)) <= 7 * e.std * ((ISqrt(100 * nb) \div 10) + 1) + nb THEN {} ELSE {"mean height of the bursts"})
          \union (IF e.std < 100 \/ nb < 300 THEN {}
                  ELSE LET q == HeightSq(b, e.height, u) \div nb IN IF Abs(q - 100) <= 1000 \div ISqrt(nb) + 3 THEN {} ELSE {"spread of the burst heights"})
Fails(e) ==
  IF e.err # "" THEN {"raised an exception"}
  ELSE (IF e.same THEN {} ELSE {"the supplied data was modified"})
  \union (IF e.twin THEN {} ELSE {"objects with equal parameters and generators give different noise"})
  \union (IF SumLen(e.runs) = Pixels(e) THEN {} ELSE {"shape"})
  \union (IF e.ratio = 0 /\ e.act THEN {"active although the ratio is 0"} ELSE {})
  \union (IF e.ratio = 1 /\ ~e.act /\ ~BothFixed(e) THEN {"not active although the ratio is 1"} ELSE {})
  \union (IF ~e.act THEN (IF Zero(e) THEN {} ELSE {"inactive noise changes the data"})
          ELSE IF BothFixed(e) THEN {"active although no gate is swept"}
          ELSE IF e.scale = 0 THEN (IF Zero(e) THEN {} ELSE {"noise with bursts of length 0"})
          ELSE (IF RunsOK(e.runs, Pixels(e)) THEN {} ELSE {"blocks with and without bursts do not alternate"})
               \union (IF e.std = 0 /\ \E i \in 1..Len(e.runs) : e.runs[i][1] # 0 /\ Abs(e.runs[i][1] - e.height) > 1 THEN {"height of the bursts"} ELSE {})
               \union (IF Single(e) /\ \E i \in 1..Len(e.runs) : e.runs[i][2] # 1 THEN {"bursts of one pixel"} ELSE {})
               \union (IF \E i \in 1..Len(e.p) : Abs((e.p[i] \div 100) * (BlockPx(e) \div 10) - 1000000) > 1000 + (BlockPx(e) \div 8) + 12000000 \div BlockPx(e)
                       THEN {"probability of the end of a block"} ELSE {})
               \union (IF e.draws = <<>> \/ e.draws = <<1, 1, 1>> THEN {} ELSE {"number of parameter draws"})
               \union StatFails(e))
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = 0 /\ bad = {}
Done == l > Len(Cases[t]) \/ bad # {}
Step == /\ ~Done /\ bad' = Fails(Cases[t][l]) /\ l' = l + 1 /\ UNCHANGED <<t, s>>
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ UNCHANGED s
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
