---------------------------- MODULE ChargeTrace ----------------------------
(* Validates recorded ideal charge stability diagrams. PART selects the property:                                      *)
(*  "count": how many electrons the system holds at every pixel (C05),                                                 *)
(*  "share": how they are distributed among the dots (C06),                                                            *)
(*  "mask":  the labels of the lead transitions (C08).                                                                 *)
(* case: ps TCTs, rot <<a, b>>, rows (0: 1D scan), cols, v1, v2: <<first voltage, step>>, tol, kind, F,                *)
(*       err "" or exception, occ: sequence (row major) of <<dot1, dot2>> times 1e5, lab: labels                       *)
(*       only: the pixels of a large scan that are looked at (empty: all of them)                                      *)
EXTENDS Tct, Json, IOUtils, TLC, FiniteSets
Cases == JsonDeserialize(IOEnv.CASES)
Stride == atoi(IOEnv.STRIDE)
Part == IOEnv.PART
N == Len(Cases)
VARIABLES t, l, s, bad
(* --- voltages --- pixel number k = 0.. ; columns belong to gate 1, rows to gate 2 *)
Pixels(c) == IF c.rows = 0 THEN c.cols ELSE c.rows * c.cols
Looked(c) == IF c.only = <<>> THEN 0..(Pixels(c) - 1) ELSE {c.only[j] : j \in 1..Len(c.only)}
Row(c, k) == IF c.rows = 0 THEN k ELSE k \div c.cols
Col(c, k) == IF c.rows = 0 THEN k ELSE k % c.cols
Volt(c, k) == <<c.v1[1] + c.v1[2] * Col(c, k), c.v2[1] + c.v2[2] * Row(c, k)>>
\* the rotated frame, in units that keep it integer
Rot(c, v) == <<c.rot[1] * v[1] + c.rot[2] * v[2], c.rot[1] * v[2] - c.rot[2] * v[1]>>
Where(c, k) == Rot(c, Volt(c, k))
Total(c, k) == RDiv(c.occ[k + 1][1] + c.occ[k + 1][2], One)
CountsAt(c, k) == LET q == Where(c, k) IN Counts(c.ps, q[1], q[2], c.tol)
Top(c) == Len(c.ps)
Is1D(c) == c.rows = 0

(* --- the area of a pixel: test points in units of 1/8 step around its centre --- *)
AreaSides(c, k, n, offsets) ==
  LET v == Volt(c, k)
      At(i, j) == LET q == Rot(c, <<8 * v[1] + i * c.v1[2], 8 * v[2] + j * c.v2[2]>>)
                  IN Side(c.ps[n], n, q[1] \div 8, q[2] \div 8, Max2(c.tol, Q))
  IN {At(i, j) : i \in offsets, j \in offsets}
Both(S) == 0 \in S \/ Cardinality(S) > 1
\* TCT n runs through the pixel or close to it (the second, finer grid is for corners that enter a pixel between two points)
Crosses(c, k, n) == Both(AreaSides(c, k, n, {-6, -3, 0, 3, 6})) \/ Both(AreaSides(c, k, n, {-8, -6, -5, -4, -2, -1, 0, 1, 2, 4, 5, 6, 8}))

(* --- C05 --- *)
CountFails(c, k) ==
  LET sum == c.occ[k + 1][1] + c.occ[k + 1][2]  T == Total(c, k)
  IN (IF Abs(sum - One * T) <= 10 THEN {} ELSE {"the total number of electrons is not an integer"})
     \union (IF (Is1D(c) \/ c.lab[k + 1] = 0) /\ T \notin CountsAt(c, k)
             THEN {"number of electrons differs from the number of TCTs below the point"} ELSE {})
     \union (IF ~Is1D(c) /\ c.lab[k + 1] # 0 /\ T \notin CountsAt(c, k) /\ (T # c.lab[k + 1] \/ T < 1 \/ T > Top(c) \/ ~Crosses(c, k, T))
             THEN {"number of electrons of a labelled pixel"} ELSE {})
(* --- the region above the last TCT has no description: it must be refused --- *)
MustRaise(c) == \E k \in Looked(c) : CountsAt(c, k) = {Top(c)}
MayRaise(c) == \E k \in 0..(Pixels(c) - 1) : Top(c) \in CountsAt(c, k) \/ (~Is1D(c) /\ Crosses(c, k, Top(c)))
ErrFails(c) ==
  IF c.err = "" THEN (IF MustRaise(c) THEN {"a region above the last TCT was not refused"} ELSE {})
  ELSE IF c.err = "IndexError" /\ MayRaise(c) THEN {} ELSE {"raised an exception"}
(* --- C06 --- *)
ShareFails(c, k) ==
  LET T == Total(c, k)  o == c.occ[k + 1]
  IN IF T <= 0 THEN (IF o[1] = 0 /\ o[2] = 0 THEN {} ELSE {"electrons in the empty region"})
     ELSE IF T >= Top(c) THEN {"region without description"}
     ELSE LET e == OccDot1(c.ps, T, Where(c, k), c.kind, c.F)
              \* at the very centre of a transition without width anything between both sides is right
              edge == \E i \in 1..T : LET a == Arg(c.ps, T, i - 1, Where(c, k), c.F) IN
                         a = 0 /\ Dist(c.ps, T, Right(c.ps[T], 2 * i - 2)) = Dist(c.ps, T, Left(c.ps[T], 2 * i - 2))
          IN (IF edge \/ Abs(o[1] - e) <= 150 + 20 * T THEN {} ELSE {"share of dot 1"})
             \union (IF Abs(o[1] + o[2] - One * T) <= 10 THEN {} ELSE {"both dots together do not hold all electrons"})
             \union (IF o[1] >= -10 /\ o[2] >= -10 THEN {} ELSE {"negative occupation"})
(* --- C08 --- *)
MaskFails1D(c, k) ==
  LET T == Total(c, k)
      up(j) == j >= 0 /\ j < Pixels(c) /\ Total(c, j) < T
      want == IF up(k - 1) \/ up(k + 1) THEN T ELSE 0
  IN IF c.lab[k + 1] = want THEN {} ELSE {"label of a 1D scan"}
MaskFails2D(c, k) ==
  LET n == c.lab[k + 1]
      free(j) == c.lab[j + 1] = 0
      right == IF Col(c, k) + 1 < c.cols THEN {k + 1} ELSE {}
      below == IF Row(c, k) + 1 < c.rows THEN {k + c.cols} ELSE {}
      Inters(j) == CountsAt(c, k) \intersect CountsAt(c, j)
  IN IF n # 0
     THEN (IF n < 1 \/ n > Top(c) THEN {"label without TCT"}
           ELSE (IF Crosses(c, k, n) THEN {} ELSE {"labelled pixel away from its TCT"})
                \union (IF Total(c, k) = n THEN {} ELSE {"a labelled pixel does not belong to the region with more electrons"}))
     ELSE UNION {IF free(j) /\ Inters(j) = {} THEN {"regions with different numbers of electrons touch each other"} ELSE {} : j \in right \union below}
          \union UNION {IF free(j) /\ Total(c, k) # Total(c, j) THEN {"unlabelled change of the number of electrons"} ELSE {} : j \in right \union below}
MaskFails(c, k) == IF Is1D(c) THEN MaskFails1D(c, k) ELSE MaskFails2D(c, k)

PixelFails(c, k) == IF Part = "count" THEN CountFails(c, k) ELSE IF Part = "share" THEN ShareFails(c, k) ELSE MaskFails(c, k)
CaseFails(c) ==
  (IF \A i \in 1..Len(c.ps) : WellFormed(c.ps[i]) THEN {} ELSE {"MACHINERY parameters"})
  \union (IF Part = "count" \/ c.err # "" THEN ErrFails(c) ELSE {})
  \union (IF c.err # "" THEN {} ELSE IF Len(c.occ) # Pixels(c) \/ Len(c.lab) # Pixels(c) THEN {"shape"}
          ELSE UNION {PixelFails(c, k) : k \in Looked(c)})
Init == /\ t \in 1..(IF Stride < N THEN Stride ELSE N) /\ l = 1 /\ s = 0 /\ bad = {}
Done == l > 1
Step == /\ ~Done /\ bad' = CaseFails(Cases[t]) /\ l' = 2 /\ UNCHANGED <<t, s>>
NextTrace == /\ Done /\ t + Stride <= N /\ t' = t + Stride /\ l' = 1 /\ bad' = {} /\ UNCHANGED s
Next == Step \/ NextTrace
Report == Done => PrintT(<<"VERDICT", t, bad>>)
=============================================================================
