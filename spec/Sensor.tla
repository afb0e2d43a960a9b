-------------------------------- MODULE Sensor --------------------------------
(* A charge sensor: potential from occupations and gate voltages, response from the potential by Coulomb peaks.         *)
(* Units: occupations 1/10 electron, lever arms 1/100, voltages and peak widths 1e-4, potentials 1e-6, heights 1e-3,     *)
(* responses 1e-5.                                                                                                       *)
EXTENDS Fixed, SequencesExt
\* potential for the occupations o = <<dot 1, dot 2>> and voltages v = <<gate 1, gate 2>>
Potential(ad, ag, off, o, v) == 1000 * (ad[1] * o[1] + ad[2] * o[2]) + ag[1] * v[1] + ag[2] * v[2] + off
\* (mu - mu0) / width in 1/1000; width is positive
Z(mu, p) == LET d == Abs(mu - p.mu0) IN IF d \div p.width > 4000 THEN 40000 ELSE (d * 10) \div p.width
\* 1 / (1 + z^2)
Lorentz(z) == IF z > 40000 THEN 0 ELSE 1000000000 \div (10000 + (z * z) \div 100)
FarLorentz(mu, p) == LET z == Abs(mu - p.mu0) \div p.width IN IF z > 400000 THEN 0 ELSE (IF z > 30000 THEN 0 ELSE 1000000000 \div (10000 + z * z))
Shape(mu, p) == IF p.kind = "gauss" THEN (LET z == Z(mu, p) IN IF z > 4000 THEN 0 ELSE Gauss(z))
                ELSE LET z == Z(mu, p) IN IF z < 40000 THEN Lorentz(z) ELSE FarLorentz(mu, p)
Peak(mu, p) == 100 * p.offset + RDiv(p.height * RDiv(Shape(mu, p), 10), 100)
Response(mu, peaks) == FoldLeft(LAMBDA a, p : a + Peak(mu, p), 0, peaks)
Tolerance(peaks) == 5 + FoldLeft(LAMBDA a, p : a + (Abs(p.height) * 3) \div 10, 0, peaks)
=============================================================================
