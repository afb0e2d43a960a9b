----------------------------- MODULE Admission -----------------------------
(* Which measurement and configuration requests the simulation accepts.     *)
(* Voltages are integers that are order-isomorphic to the floats of the     *)
(* code (3*k is a grid voltage, 3*k-1 / 3*k+1 the neighbouring doubles).    *)
(* A request is a record                                                    *)
(*   op   "csd" (measure), "scan" (measure_sensor_scan) or "ideal" (the     *)
(*        data of a geometric ideal CSD, asked for without a simulation)    *)
(*   r1, r2   the two swept ranges (sequences of voltages)                  *)
(*   f1, f2   the voltages of the two other gates (<<>> = not given)        *)
(*   res  the sequence of resolutions                                       *)
(* A configuration is a record                                              *)
(*   g1, g2, s1, s2   limits of the plunger and the sensor gates (<<>> =    *)
(*                    unrestricted, <<lo, hi>>)                             *)
(*   csd  "none" or the name of the ideal CSD, sensor  its kind             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inside(lim, x) == lim = <<>> \/ (lim[1] <= x /\ x <= lim[2])
AllInside(lim, xs) == \A k \in DOMAIN xs : Inside(lim, xs[k])
If(b, reason) == IF b THEN {reason} ELSE {}

SweepReasons(req, l1, l2) ==
    IF Len(req.r1) # 2 \/ Len(req.r2) # 2
    THEN {"a sweep range needs exactly two values"}
    ELSE If(~AllInside(l1, req.r1) \/ ~AllInside(l2, req.r2), "sweep outside of the limits")
         \cup If(Len(req.res) = 2 /\ (req.r1[1] = req.r1[2] \/ req.r2[1] = req.r2[2]),
                 "2D scan with a fixed gate")

FixedReasons(req, l1, l2) ==
    If(~AllInside(l1, req.f1) \/ ~AllInside(l2, req.f2), "fixed voltage outside of the limits")
    \cup If((req.f1 = <<>>) # (req.f2 = <<>>), "only one of the two fixed voltages given")

ResolutionReasons(req) ==
    If(Len(req.res) > 2, "more than two resolutions")
    \cup If(Len(req.res) = 2 /\ \E k \in 1..2 : req.res[k] <= 1, "2D scan with less than two pixels")

Reasons(cfg, req) ==
    IF req.op = "ideal" \* the ideal CSD asked directly knows no limits and no other gates
    THEN SweepReasons(req, <<>>, <<>>) \cup ResolutionReasons(req)
    ELSE IF req.op = "csd"
    THEN If(cfg.csd = "none", "no ideal CSD configured")
         \cup SweepReasons(req, cfg.g1, cfg.g2) \cup FixedReasons(req, cfg.s1, cfg.s2)
         \cup ResolutionReasons(req)
    ELSE If(cfg.sensor # "scan", "sensor not capable of sensor scans")
         \cup SweepReasons(req, cfg.s1, cfg.s2) \cup FixedReasons(req, cfg.g1, cfg.g2)
         \cup ResolutionReasons(req)

Accepted(cfg, req) == Reasons(cfg, req) = {}

(* Only a scan that has to ignore the configured ideal CSD warns.           *)
Warns(cfg, req) == req.op = "scan" /\ cfg.csd # "none" /\ req.f1 = <<>>

(* Shape of the arrays of an accepted request: rows are gate 2.             *)
Shape(req) == IF Len(req.res) = 2 THEN <<req.res[2], req.res[1]>> ELSE <<req.res[1]>>

(* Configuration changes: a value of the wrong kind is refused and the old  *)
(* value stays. kind: "none", "pair" (array or list of two), "bad";         *)
SettableLimit(v) == v.kind \in {"none", "pair"}
SetLimit(cfg, gate, v) ==
    IF SettableLimit(v) THEN [cfg EXCEPT ![gate] = v.value] ELSE cfg
SettableCsd(v) == v.kind \in {"none", "csd"}
SetCsd(cfg, v) == IF SettableCsd(v) THEN [cfg EXCEPT !.csd = v.value] ELSE cfg
SettableSensor(v) == v.kind \in {"none", "plain", "scan"}
SetSensor(cfg, v) ==
    IF SettableSensor(v) THEN [cfg EXCEPT !.sensor = IF v.kind = "none" THEN "plain" ELSE v.kind] ELSE cfg
SettableList(v) == v.kind \in {"none", "list"}
SetList(cfg, field, v) == IF SettableList(v) THEN [cfg EXCEPT ![field] = v.value] ELSE cfg
Settable(field, v) ==
    CASE field \in {"g1", "g2", "s1", "s2"} -> SettableLimit(v)
      [] field = "csd" -> SettableCsd(v)
      [] field = "sensor" -> SettableSensor(v)
      [] OTHER -> SettableList(v)
Apply(cfg, field, v) ==
    CASE field \in {"g1", "g2", "s1", "s2"} -> SetLimit(cfg, field, v)
      [] field = "csd" -> SetCsd(cfg, v)
      [] field = "sensor" -> SetSensor(cfg, v)
      [] OTHER -> SetList(cfg, field, v)
=============================================================================
