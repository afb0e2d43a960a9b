------------------------------- MODULE SensorMC -------------------------------
(* Laws of the sensor model on a grid: the potential is linear in occupations and voltages, peaks are symmetric, highest *)
(* at mu0, fall off monotonically towards their offset, have the half width that belongs to their kind, and add up.      *)
EXTENDS Sensor, FiniteSets, TLC
CONSTANTS Ad, Occ, Volts
VARIABLES ad, ag, o1, o2
Seconds == {-150, 70}
Signed == {-200, -100, 0, 30, 300}
VoltSet == {-3000, -1, 0, 1250}
Init == /\ ad \in Ad \X Seconds /\ ag \in Ad \X Seconds
        /\ o1 \in (Occ \X Occ) \X ({-100} \X Volts) /\ o2 \in (Occ \X Occ) \X (Volts \X {500})
Next == UNCHANGED <<ad, ag, o1, o2>>
P(o) == Potential(ad, ag, 5, o[1], o[2])
Linear == P(o1) + P(o2) - 5 = Potential(ad, ag, 5, <<o1[1][1] + o2[1][1], o1[1][2] + o2[1][2]>>, <<o1[2][1] + o2[2][1], o1[2][2] + o2[2][2]>>)
Swap == P(o1) = Potential(<<ad[2], ad[1]>>, <<ag[2], ag[1]>>, 5, <<o1[1][2], o1[1][1]>>, <<o1[2][2], o1[2][1]>>)
G(w, h) == [kind |-> "gauss", mu0 |-> 1000, width |-> w, height |-> h, offset |-> 20]
L(w, h) == [kind |-> "lorentz", mu0 |-> 1000, width |-> w, height |-> h, offset |-> 20]
ASSUME PeakLaw ==
  \A w \in {1, 7, 100, 5000} : \A h \in {0, 100, 3000} : \A p \in {G(w, h), L(w, h)} :
     /\ Peak(1000, p) = 2000 + 100 * h
     /\ \A d \in {2, 10, 50, 1000, 30000, 100000} :
          /\ Peak(1000 + d * w, p) = Peak(1000 - d * w, p)
          /\ Peak(1000 + d * w, p) <= Peak(1000 + (d * w) \div 2, p) + 1
          /\ Peak(1000 + d * w, p) >= 2000 - 1
ASSUME HalfWidth == /\ Abs(Peak(1000 + 8326 * 10, G(1000, 1000)) - 52000) <= 80
                    /\ Abs(Peak(1000 + 100000, L(1000, 1000)) - 52000) <= 10
                    /\ Abs(Peak(1000 + 100000, G(1000, 1000)) - 2000 - 36788) <= 40
                    /\ Abs(Peak(1000 + 9 * 100000, L(1000, 1000)) - 2000 - 1220) <= 5
                    /\ Abs(Peak(1000 + 49 * 100000, L(1000, 1000)) - 2000 - 42) <= 5
ASSUME Sums == Response(1700, <<G(10, 100), L(3, 500), G(4, -20)>>) = Peak(1700, G(10, 100)) + Peak(1700, L(3, 500)) + Peak(1700, G(4, -20))
=============================================================================
