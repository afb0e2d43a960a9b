------------------------------ MODULE RetuneMC ------------------------------
(* All histories of retuning, setting and measuring: the potential of a measurement after retuning is the target,        *)
(* whatever happened before, and retuning twice is retuning once. With Keep the old offset is not taken out of the        *)
(* potential the new one is computed from (the mistake to avoid): TLC finds the history that breaks the law.              *)
EXTENDS Retune
CONSTANTS Keep, Depth
VARIABLES off, last, n
vars == <<off, last, n>>
Cfg == [ag |-> <<2, 1>>, ad |-> <<-10, -20>>]
Places == {<<v, k>> : v \in {<<0, 0>>, <<-3, 2>>, <<5, -1>>}, k \in {<<0, 0>>, <<1, 0>>, <<1, 2>>}}
Targets == {-7, 0, 11}
Init == off \in {0, 4} /\ last = <<>> /\ n = 0
Set == \E o \in {0, 4} : off' = o /\ last' = <<>>
Tune == \E p \in Places, t \in Targets :
          /\ off' = IF Keep THEN t - (Field(Cfg, p[1], p[2]) + off) ELSE Apply(Cfg, off, [ev |-> "retune", target |-> t, v |-> p[1], n |-> p[2]])
          /\ last' = <<p, t>>
Next == n < Depth /\ n' = n + 1 /\ (Set \/ Tune)
TargetLaw == last # <<>> => off + Field(Cfg, last[1][1], last[1][2]) = last[2]
IdempotentLaw == last # <<>> => Apply(Cfg, off, [ev |-> "retune", target |-> last[2], v |-> last[1][1], n |-> last[1][2]]) = off
=============================================================================
