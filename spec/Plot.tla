-------------------------------- MODULE Plot --------------------------------
(* What a plot of a charge stability diagram shows (C23). An observation of a figure: the shown values (identified by    *)
(* integers), for each axis the positions of the pixels and of the ticks along it, and the labels of the ticks.           *)
(* Voltages are given in 1e-6, positions in 1e-4 of the way from the first to the last shown pixel.                       *)
EXTENDS Fixed
Up(lim) == lim[1] <= lim[2]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
\* limits in the order in which they appear along the axis
Shown(lim, flip) == IF flip THEN <<lim[2], lim[1]>> ELSE lim
\* the voltage at a position between the first (0) and the last (10000) pixel
VoltAt(lim, pos) == lim[1] + RDiv(RDiv((lim[2] - lim[1]) * (pos \div 10), 100) , 10)
\* a label is the voltage there, with three digits: off by at most half a digit (and what positions and voltages are rounded)
TickOk(lim, pos, label) == /\ pos \in (0 - 1)..10001 /\ Abs(label - VoltAt(lim, pos)) <= 502 + Abs(lim[2] - lim[1]) \div 900
\* the ticks lie in equal distances between the first and the last pixel
Spread(ticks, n) == /\ Len(ticks) = n
                    /\ \A i \in DOMAIN ticks : n > 1 => Abs((n - 1) * ticks[i] - 10000 * (i - 1)) <= 3 * n
FlipX(c) == c.sort /\ c.v1[1] > c.v1[2]
FlipY(c) == c.sort /\ c.v2[1] > c.v2[2]
Row(c, r) == IF FlipX(c) THEN Rev(c.csd[r]) ELSE c.csd[r]
Image(c) == [r \in DOMAIN c.csd |-> Row(c, IF FlipY(c) THEN Len(c.csd) + 1 - r ELSE r)]
Fails2d(c) ==
  LET s1 == Shown(c.v1, FlipX(c))   s2 == Shown(c.v2, FlipY(c)) IN
  \* c.shown[r][k]: the value drawn at the r-th place from the bottom and the k-th from the left
  (IF c.shown # Image(c) THEN {"image"} ELSE {})
  \cup (IF ~ (Spread(c.xticks, c.nx) /\ Len(c.xlabels) = c.nx) THEN {"xticks"}
        ELSE IF \E i \in DOMAIN c.xticks : ~ TickOk(s1, c.xticks[i], c.xlabels[i][1]) THEN {"xlabels"} ELSE {})
  \cup (IF ~ (Spread(c.yticks, c.ny) /\ Len(c.ylabels) = c.ny) THEN {"yticks"}
        ELSE IF \E i \in DOMAIN c.yticks : ~ TickOk(s2, c.yticks[i], c.ylabels[i][1]) THEN {"ylabels"} ELSE {})
  \* pixels are as high and wide as their voltages: height/width = (range2/rows)/(range1/columns), in 1e-3
  \cup (IF Abs(c.aspect - c.wanted) > 2 + c.wanted \div 100 THEN {"aspect"} ELSE {})
\* 1D: sorted by gate 1, both gates together
Flip1(c) == c.sort /\ c.v1[1] > c.v1[2]
Fails1d(c) ==
  LET s1 == Shown(c.v1, Flip1(c))   s2 == Shown(c.v2, Flip1(c)) IN
  (IF c.shown # (IF Flip1(c) THEN Rev(c.csd) ELSE c.csd) THEN {"line"} ELSE {})
  \cup (IF ~ (Spread(c.xticks, c.nx) /\ Len(c.xlabels) = c.nx) THEN {"xticks"}
        ELSE IF \E i \in DOMAIN c.xticks : \/ Len(c.xlabels[i]) # 2
                                           \/ ~ TickOk(s1, c.xticks[i], c.xlabels[i][1])
                                           \/ ~ TickOk(s2, c.xticks[i], c.xlabels[i][2]) THEN {"xlabels"} ELSE {})
  \* ticks of the signal: equally spread between its smallest and largest value (in 1e-4 of the way)
  \cup (IF c.flat THEN {} ELSE IF ~ Spread(c.yticks, c.ny) THEN {"yticks"} ELSE {})
Texts(c) == IF c.texts # c.wantedtexts THEN {"texts"} ELSE {}
Fails(c) == IF c.err # "" THEN {"error"} ELSE
              (IF c.dim = 2 THEN Fails2d(c) ELSE Fails1d(c)) \cup Texts(c)
              \cup (IF c.changed THEN {"argument_changed"} ELSE {})
              \cup (IF c.saved # c.wantsave THEN {"saved"} ELSE {})
=============================================================================
