------------------------------- MODULE Retune -------------------------------
(* Resetting the offset of a sensor to a target potential before a measurement (C22).                                    *)
(* State: the offset of the potential. Events: setting it, retuning to a target at the first pixel of a sweep, and        *)
(* measuring. Units: potentials 1e-10, lever arms of gates 1e-4, voltages 1e-6, lever arms of dots 1e-6 (1e-5 electrons   *)
(* times 1e-6 are 1e-11).                                                                                                 *)
EXTENDS Fixed
\* what gates and electrons add to the potential
Field(cfg, v, n) == cfg.ag[1] * v[1] + cfg.ag[2] * v[2] + RDiv(cfg.ad[1] * n[1], 10) + RDiv(cfg.ad[2] * n[2], 10)
Apply(cfg, off, e) == IF e.ev = "set" THEN e.to
                      ELSE IF e.ev = "retune" THEN e.target - Field(cfg, e.v, e.n)
                      ELSE off
Tol == 300
Fails(cfg, off, e) ==
  LET after == Apply(cfg, off, e) IN
  (IF e.err # "" THEN {"refused"} ELSE {})
  \cup (IF Abs(e.offset - after) > Tol THEN {"offset"} ELSE {})
  \cup (IF e.changed THEN {"side_effect"} ELSE {})
  \* the potential at the first pixel of a measurement
  \cup (IF e.ev = "measure" THEN
          (IF Abs(e.pot - (off + Field(cfg, e.v, e.n))) > Tol THEN {"potential"} ELSE {})
          \* measured right after retuning to the same sweep: the target
          \cup (IF e.fresh THEN IF Abs(e.pot - e.target) > Tol THEN {"target"} ELSE {} ELSE {})
          \cup (IF Abs(e.resp - e.respat) > 3 THEN {"response"} ELSE {})
        ELSE {})
=============================================================================
