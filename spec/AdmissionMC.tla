---------------------------- MODULE AdmissionMC ----------------------------
(* Exhaustive enumeration of abstract requests against abstract             *)
(* configurations. Each state is one (configuration, request) pair reached  *)
(* by a configuration change or a request; every request is also printed as *)
(* a scenario that the harness replays into the real code.                  *)
EXTENDS Admission, Json, IOUtils

Lo == 0
Hi == 9
Full == IOEnv.ADM_FULL = "1"
Ranges == {<<0, 9>>, <<9, 0>>, <<3, 6>>, <<6, 3>>, <<-1, 6>>, <<6, 10>>, <<10, 3>>, <<3, -1>>, <<6, 6>>, <<10, 10>>,
           <<3>>, <<0, 3, 9>>}
Ranges2 == IF Full THEN Ranges ELSE {<<0, 9>>, <<9, 3>>, <<-1, 6>>, <<6, 10>>, <<6, 6>>, <<3>>}
Volts == {<<>>, <<0>>, <<9>>, <<10>>, <<-1>>}
Volts2 == {<<>>, <<9>>, <<10>>, <<-1>>}
Resolutions == {<<5>>, <<1>>, <<4, 3>>, <<2, 2>>, <<1, 3>>, <<4, 1>>, <<4, 0>>, <<3, 3, 3>>}
Limits == {[g1 |-> <<>>, g2 |-> <<>>, s1 |-> <<>>, s2 |-> <<>>],
           [g1 |-> <<Lo, Hi>>, g2 |-> <<Lo, Hi>>, s1 |-> <<Lo, Hi>>, s2 |-> <<Lo, Hi>>],
           [g1 |-> <<Lo, Hi>>, g2 |-> <<>>, s1 |-> <<>>, s2 |-> <<Lo, Hi>>],
           [g1 |-> <<>>, g2 |-> <<Lo, Hi>>, s1 |-> <<Lo, Hi>>, s2 |-> <<>>]}

VARIABLES cfg, req, pc
vars == <<cfg, req, pc>>
None == [op |-> "none", r1 |-> <<>>, r2 |-> <<>>, f1 |-> <<>>, f2 |-> <<>>, res |-> <<>>]

Cfg(l, c, s) == [g1 |-> l.g1, g2 |-> l.g2, s1 |-> l.s1, s2 |-> l.s2, csd |-> c, sensor |-> s]
Init == /\ \E l \in Limits, c \in {"none", "csd"}, s \in {"plain", "scan"} : cfg = Cfg(l, c, s)
        /\ req = None
        /\ pc = "idle"
Request ==
    /\ pc = "idle"
    /\ \E op \in {"csd", "scan", "ideal"}, a \in Ranges, b \in Ranges2, x \in Volts, y \in Volts2, n \in Resolutions :
          /\ (\/ Full
              \/ (cfg.csd = "csd" /\ cfg.sensor = "scan")
              \/ (a = <<3, 6>> /\ y \in {<<>>, <<9>>}))
          /\ op = "ideal" => x = <<>> /\ y = <<>> /\ cfg.csd = "csd" /\ cfg.sensor = "scan" /\ cfg.g1 = <<>> /\ cfg.g2 = <<>>
          /\ req' = [op |-> op, r1 |-> a, r2 |-> b, f1 |-> x, f2 |-> y, res |-> n]
    /\ pc' = "asked"
    /\ UNCHANGED cfg
Next == Request

(* A voltage that an accepted request applies is never outside the limits.  *)
Hull(r) == {v \in -2..11 : (r[1] <= v /\ v <= r[2]) \/ (r[2] <= v /\ v <= r[1])}
NeverOutside ==
    (pc = "asked" /\ req.op # "ideal" /\ Accepted(cfg, req)) =>
        LET swept == IF req.op = "csd" THEN <<cfg.g1, cfg.g2>> ELSE <<cfg.s1, cfg.s2>>
            held  == IF req.op = "csd" THEN <<cfg.s1, cfg.s2>> ELSE <<cfg.g1, cfg.g2>>
        IN /\ \A v \in Hull(req.r1) : Inside(swept[1], v)
           /\ \A v \in Hull(req.r2) : Inside(swept[2], v)
           /\ \A k \in DOMAIN req.f1 : Inside(held[1], req.f1[k])
           /\ \A k \in DOMAIN req.f2 : Inside(held[2], req.f2[k])
(* Reversing a sweep never changes the decision.                            *)
Rev(r) == [k \in DOMAIN r |-> r[Len(r) + 1 - k]]
DirectionIrrelevant ==
    pc = "asked" => (Accepted(cfg, req) <=> Accepted(cfg, [req EXCEPT !.r1 = Rev(req.r1), !.r2 = Rev(req.r2)]))
(* What an unrestricted simulation accepts and what its ideal CSD accepts.  *)
SameForm ==
    (pc = "asked" /\ req.op = "ideal") =>
        (Accepted(cfg, req) <=> Accepted([cfg EXCEPT !.s1 = <<>>, !.s2 = <<>>], [req EXCEPT !.op = "csd"]))
(* Removing a limit never turns an accepted request into a rejected one.    *)
LimitsOnlyForbid ==
    (pc = "asked" /\ Accepted(cfg, req)) =>
        \A g \in {"g1", "g2", "s1", "s2"} : Accepted([cfg EXCEPT ![g] = <<>>], req)
Emit == pc = "asked" => PrintT(<<"REQ", ToJson([cfg |-> cfg, req |-> req, n |-> Cardinality(Reasons(cfg, req))])>>)
=============================================================================
