------------------------------ MODULE TctTrace ------------------------------
(* Validates recorded evaluations of TCT curves and Bezier anchors (property C07).                                     *)
(* case: p, m, n, lut (0: explicit), pts: sequence of [part, i, k, x, y] with x times n*n and y times 1000,            *)
(*       others: sequence of <<x, y>>, x in units and y times 1000,                                                    *)
(*       rot: <<a, b>>, anchors: sequence (per corner) of three points <<V1, V2>> times 1000; same: facts observed     *)
EXTENDS Tct, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
N == Len(Cases)
VARIABLES t, l, s, bad
Point(c, e) == IF e.part = "rounding" THEN OnRounding(c.p, e.i, e.k, c.n)
               ELSE IF e.part = "lead" THEN OnLead(c.p, e.i, e.k, c.n)
               ELSE IF e.part = "left" THEN OnOuterLeft(c.p, e.k, c.n)
               ELSE OnOuterRight(c.p, c.m, e.k, c.n)
\* height error of a lookup table: half the largest distance of two of its abscissae times the larger slope (times 1000)
LutTol(c) == IF c.lut = 0 THEN 0
  ELSE LET gap == (2000 * Max2(c.p.dl, c.p.dr)) \div (c.lut - 1)
           sl == (1000 * Abs(c.p.sln)) \div c.p.sld   sr == (1000 * Abs(c.p.srn)) \div c.p.srd
       IN ((gap * Max2(sl, sr)) \div 2000) + 3
PointFails(c, e) ==
  LET q == Point(c, e)  nn == c.n * c.n
      tol == IF e.part = "rounding" THEN LutTol(c) ELSE 0
      \* y*nn in 1/1000: integer part and the rest, to stay small
      d == (e.y * 1) - ((q[2] \div nn) * 1000 + ((q[2] % nn) * 1000) \div nn)
  IN (IF q[1] = e.x THEN {} ELSE {"MACHINERY point"})
     \union (IF Abs(d) <= tol + 3 THEN {} ELSE {"the TCT does not run through its " \o e.part})
OtherFails(c, e) ==
  LET iv == HeightIv(c.p, c.m, e[1])  tol == LutTol(c) + 5
      lo == (iv[1] * 1000) \div Q   hi == (iv[2] * 1000) \div Q
  IN IF e[2] >= lo - tol /\ e[2] <= hi + tol THEN {} ELSE {"height of the TCT between its corners"}
AnchorFails(c) ==
  LET r2 == c.rot[1] * c.rot[1] + c.rot[2] * c.rot[2]
      Back(q) == << (1000 * (c.rot[1] * q[1] - c.rot[2] * q[2])) \div r2, (1000 * (c.rot[2] * q[1] + c.rot[1] * q[2])) \div r2 >>
  IN IF c.anchors = <<>> THEN {}
     ELSE IF Len(c.anchors) # 2 * c.am - 1 THEN {"number of corners of a TCT"}
     ELSE UNION {LET e == Anchors(c.p, i - 1) IN
            UNION {LET v == Back(e[j]) IN IF Abs(v[1] - c.anchors[i][j][1]) <= 3 /\ Abs(v[2] - c.anchors[i][j][2]) <= 3 THEN {}
                    ELSE {"Bezier anchor differs from the corner of the TCT"} : j \in 1..3} : i \in 1..Len(c.anchors)}
CaseFails(c) ==
  (IF WellFormed(c.p) THEN {} ELSE {"MACHINERY parameters"})
  \union UNION {PointFails(c, c.pts[j]) : j \in 1..Len(c.pts)}
  \union UNION {OtherFails(c, c.others[j]) : j \in 1..Len(c.others)}
  \union AnchorFails(c)
  \union {f \in {"raised an exception", "array and single values differ", "the supplied abscissae were modified", "the TCT parameters were modified", "order of the abscissae matters"} : ~c.facts[f]}
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = 0 /\ bad = {}
Done == l > 1
Step == /\ ~Done /\ bad' = CaseFails(Cases[t]) /\ l' = 2 /\ UNCHANGED <<t, s>>
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ UNCHANGED s
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
