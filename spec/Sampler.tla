------------------------------- MODULE Sampler -------------------------------
(* Samplers of parameters. A sampler owns an interval: the total range, or a part of it of the given width, placed at   *)
(* random when the sampler is built (a width of the total range or more means the total range). Every sample lies in    *)
(* the interval, and follows the distribution restricted to it. The sampler remembers its last sample.                  *)
EXTENDS Fixed, SequencesExt
Width(lo, hi, w) == IF w < 0 \/ w >= hi - lo THEN hi - lo ELSE w
\* densities (up to a factor) at z: distance from the mean in 1/1000 standard deviations, or from the start in 1/1000 scales
Density(dist, z) ==
  CASE dist = "uniform" -> One
    [] dist = "normal" -> IF Abs(z) > 20000 THEN 0 ELSE Gauss((z * 7071) \div 10000)
    [] dist = "exp" -> IF z > 100000 THEN 0 ELSE ExpNeg(z)
ISqrt(x) == CHOOSE r \in 0..46340 : r * r <= x /\ (r + 1) * (r + 1) > x
\* counts of samples per bin against the densities at the centres of the bins: 7 sigma
BinsOK(dist, z, counts) ==
  LET n == FoldLeft(LAMBDA a, x : a + x, 0, counts)
      dens == [i \in 1..Len(z) |-> Density(dist, z[i])]
      D == FoldLeft(LAMBDA a, x : a + x, 0, dens)
      want == [i \in 1..Len(z) |-> (n * (dens[i] \div 10)) \div Max2(1, D \div 10)]
  IN \A i \in 1..Len(z) : Abs(counts[i] - want[i]) <= 7 * (ISqrt(want[i]) + 1) + want[i] \div 50 + 2
=============================================================================
